// Control flow: the real instructions against the reference interpreter, tick by tick.
#include "fx.h"

using namespace fx;
using namespace hx;

namespace
{
struct RunResult
{
  std::vector<std::string> leaf;   // executed leaves, in order, with the value shown
  ES status;
};

std::string LeafText(const std::string& id, const std::string& shown) { return shown.empty() ? id : id + "@" + shown; }

// one procedure, compared tick by tick; returns false when the tree was trivial
void Compare(const Spec& s, ProcSpec& p, const ModelVars& mv, const std::string& what)
{
  p.roots = {s};
  auto text = ToText(s);
  Case(text);
  auto proc = BuildProc(p);
  RecUI ui;
  Trace tr;
  SetTrace(&tr);
  proc->Setup();
  auto nodes = Preorder(proc->RootInstruction());
  std::map<const Instruction*, int> ids;
  for (size_t k = 0; k < nodes.size(); ++k) ids[nodes[k]] = static_cast<int>(k);
  Model m(s, mv);
  long executed = 0;
  int ticks = 0;
  bool bad = false;
  for (; ticks < 3000 && !bad; ++ticks)
  {
    if (IsFinishedStatus(m.Status())) break;
    tr.Clear();
    m.TakeEvents();
    proc->ExecuteSingle(ui);
    m.Tick();
    std::string real, model;
    for (auto& e : tr.Get())
    {
      if (e.kind == K::kEnter)
      {
        auto shown = e.text.empty() ? "" : e.text.substr(e.text.rfind('=') + 1);
        real += " x" + std::to_string(ids[e.instr]) + (shown.empty() ? "" : "@" + shown);
        ++executed;
      }
      if (e.kind == K::kInit) real += " i" + std::to_string(ids[e.instr]) + (e.num ? "+" : "-");
    }
    for (auto& e : m.TakeEvents())
    {
      if (e.kind == 'X') model += " x" + std::to_string(e.id) + (e.text.empty() ? "" : "@" + e.text);
      if (e.kind == 'I') model += " i" + std::to_string(e.id) + (e.text == "1" ? "+" : "-");
    }
    if (real != model)
    {
      Violation("flow:executed:" + what, "tick " + std::to_string(ticks) + " of " + text + " executed [" + real + " ] but the semantics prescribe [" + model + " ]");
      bad = true;
    }
    for (size_t k = 0; k < nodes.size() && !bad; ++k)
      if (nodes[k]->GetStatus() != m.Status(static_cast<int>(k)))
      {
        Violation("flow:status:" + what, "after tick " + std::to_string(ticks) + " of " + text + " instruction " + std::to_string(k) + " (" + nodes[k]->GetType() +
                  ") is " + StatusChar(nodes[k]->GetStatus()) + ", prescribed " + StatusChar(m.Status(static_cast<int>(k))));
        bad = true;
      }
    Eval();
  }
  if (!bad) HX_CHECK(proc->GetStatus() == m.Status(), "flow:result:" + what, text);
  // ticking a finished procedure changes nothing
  if (!bad && IsFinishedStatus(m.Status()))
  {
    tr.Clear();
    long before = ui.trace.Size();
    proc->ExecuteSingle(ui);
    HX_CHECK(tr.Size() == 0 && ui.trace.Size() == before && proc->GetStatus() == m.Status(), "flow:finished-executes:" + what, text);
    Count(proc->GetStatus() == ES::SUCCESS ? "ended with success" : "ended with failure");
  }
  SetTrace(nullptr);
  Count("leaf executions compared", executed);
  CountMax("most ticks in one procedure", ticks);
  if (executed > 1) Distinct(text);
  Sample(text);
  Beat();
}

void Random()
{
  Section s("random");
  if (!s.run) return;
  Rng r(Opt().seed * 31 + 7);
  long n = Scale(9000, 12, 6);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    GenOpt o;
    o.max_nodes = r.chance(1, 10) ? 40 : r.range(2, 16);
    o.max_depth = r.range(1, 5);
    ProcSpec p;
    ModelVars mv;
    auto spec = GenTree(r, o, p, mv);
    Compare(spec, p, mv, "random");
  }
}

// every tree with one compound (or decorator) over at most three scripted leaves
void Small()
{
  Section s("small");
  if (!s.run) return;
  const std::vector<std::string> scripts{"S", "F", "NS", "NF", "RS", "RF", "RNS", "RRF"};
  for (auto type : {"Sequence", "Fallback", "ReactiveSequence", "ReactiveFallback"})
    for (int n = 1; n <= 3; ++n)
    {
      size_t total = 1;
      for (int k = 0; k < n; ++k) total *= scripts.size();
      for (size_t c = 0; c < total && !TooMany(); ++c)
      {
        std::vector<Spec> ch;
        size_t x = c;
        for (int k = 0; k < n; ++k)
        {
          ch.push_back(Leaf("L" + std::to_string(k), scripts[x % scripts.size()]));
          x /= scripts.size();
        }
        auto spec = Comp(type, ch);
        Number(spec);
        ProcSpec p;
        Compare(spec, p, {}, type);
      }
    }
  for (auto& sc : scripts)
    for (auto type : {"Inverter", "ForceSuccess"})
    {
      auto spec = Comp(type, {Leaf("L", sc)});
      Number(spec);
      ProcSpec p;
      Compare(spec, p, {}, type);
      auto spec2 = Comp(type, {Comp(type, {Leaf("L", sc)})});
      Number(spec2);
      ProcSpec p2;
      Compare(spec2, p2, {}, type);
    }
  Exhaustive("sequence, fallback and reactive variants over up to 3 leaves with 8 outcome scripts each; inverter and force-success once and twice");
  // repeats: counts against runs of outcomes, literal and from a variable
  for (int max = -1; max <= 5; ++max)
    for (int ok = 0; ok <= 6; ++ok)
      for (int how = 0; how < 3; ++how)
      {
        if (max < 0 && ok > 5) continue;
        std::string script;
        for (int k = 0; k < ok; ++k) script += how == 1 ? "NS|" : how == 2 ? "RS|" : "S|";
        script += "F";
        auto spec = Comp("Repeat", {Leaf("L", script)});
        ProcSpec p;
        ModelVars mv;
        if (how)
        {
          p.vars.push_back(LocalVar("n", how == 1 ? "int32" : "int8", std::to_string(max)));
          mv.scalars["n"] = max;
          spec.Set("maxCount", "@n");
        }
        else spec.Set("maxCount", std::to_string(max));
        Number(spec);
        Compare(spec, p, mv, "Repeat");
      }
  for (int len = 0; len <= 4; ++len)
    for (int bad = 0; bad <= len; ++bad)
      for (int how = 0; how < 2; ++how)
      {
        std::string script, arr = "[";
        ModelVars mv;
        mv.arrays["arr"] = {};
        for (int k = 0; k < len; ++k)
        {
          script += (k == bad ? "F" : how ? "NRS" : "S") + std::string("|");
          arr += (k ? "," : "") + std::to_string(k * 7 - 9);
          mv.arrays["arr"].push_back(k * 7 - 9);
        }
        script += "S";
        auto leaf = Leaf("L", script);
        leaf.Set("show", "el");
        auto spec = Comp("For", {leaf});
        spec.Set("arrayVar", "arr").Set("elementVar", "el");
        ProcSpec p;
        p.vars = {LocalVar("arr", "{\"type\":\"\",\"element\":{\"type\":\"int32\"}}", arr + "]"), LocalVar("el", "int32", "1000")};
        mv.scalars["el"] = 1000;
        Number(spec);
        Compare(spec, p, mv, "For");
      }
  // choices: every index list up to length 3 over 3 children (one of them failing)
  for (int len = 0; len <= 3; ++len)
  {
    int total = 1;
    for (int k = 0; k < len; ++k) total *= 4;
    for (int c = 0; c < total; ++c)
      for (int scalar = 0; scalar < (len == 1 ? 2 : 1); ++scalar)
      {
        ModelVars mv;
        std::string arr = "[";
        std::vector<long> idx;
        int x = c;
        for (int k = 0; k < len; ++k)
        {
          idx.push_back(x % 4);
          arr += (k ? "," : "") + std::to_string(x % 4);
          x /= 4;
        }
        ProcSpec p;
        if (scalar)
        {
          p.vars = {LocalVar("c", "uint16", std::to_string(idx[0]))};
          mv.scalars["c"] = idx[0];
        }
        else
        {
          p.vars = {LocalVar("c", "{\"type\":\"\",\"element\":{\"type\":\"uint8\"}}", arr + "]")};
          mv.arrays["c"] = idx;
        }
        auto spec = Comp("Choice", {Leaf("A", "NS"), Leaf("B", "RF"), Leaf("C", "S")});
        spec.Set("varName", "c");
        Number(spec);
        Compare(spec, p, mv, "Choice");
      }
  }
  Exhaustive("repeat counts -1..5 against 0..6 successes, for over arrays of 0..4 elements with each failing position, choice over every index list up to length 3");
}

// parallel sequences of synchronous branches: the result follows from the thresholds, each branch
// executes what it would execute alone
void Parallel()
{
  Section s("parallel");
  if (!s.run) return;
  Rng r(Opt().seed * 77 + 3);
  long n = Scale(500, 8, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    int N = r.range(1, 5);
    ProcSpec p;
    ModelVars mv;
    std::vector<Spec> branches;
    GenOpt o;
    o.max_depth = r.range(0, 3);
    o.us = 20;
    o.running = true;
    for (int b = 0; b < N; ++b)
    {
      o.max_nodes = r.range(1, 6);
      o.id_prefix = std::string(1, static_cast<char>('A' + b));
      branches.push_back(GenTree(r, o, p, mv));
    }
    auto spec = Comp("ParallelSequence", branches);
    int sth = -1, fth = -1;
    if (r.chance(1, 2))
    {
      sth = r.range(0, N + 2);
      spec.Set("successThreshold", std::to_string(sth));
    }
    if (r.chance(1, 2))
    {
      fth = r.range(0, N + 2);
      spec.Set("failureThreshold", std::to_string(fth));
    }
    Number(spec);
    p.roots = {spec};
    auto text = ToText(spec);
    Case(text);
    // documented thresholds
    int es = sth >= 0 ? std::min(sth, N) : N;
    int ef = fth >= 0 ? std::min(fth, N) : 1;
    if (sth >= 0) ef = std::min(ef, N - es + 1);
    else if (fth >= 0) es = N + 1 - ef;
    // each branch alone
    int S = 0, F = 0;
    bool finite = true;   // some reactive trees restart for ever
    std::vector<std::vector<std::string>> alone(branches.size());
    for (size_t b = 0; b < branches.size(); ++b)
    {
      Model m(branches[b], mv);
      int ticks = 0;
      while (!IsFinishedStatus(m.Status()) && ++ticks < 2000) m.Tick();
      if (!IsFinishedStatus(m.Status())) finite = false;
      (m.Status() == ES::SUCCESS ? S : F)++;
      auto pre = std::vector<const Spec*>{};
      std::function<void(const Spec&)> walk = [&](const Spec& x) { pre.push_back(&x); for (auto& c : x.ch) walk(c); };
      walk(branches[b]);
      for (auto& e : m.TakeEvents())
        if (e.kind == 'X') alone[b].push_back(LeafText(pre[static_cast<size_t>(e.id)]->Attr("id"), e.text));
    }
    if (!finite) { Count("skipped: never finishes"); continue; }
    auto proc = BuildProc(p);
    RecUI ui;
    Trace tr;
    SetTrace(&tr);
    proc->Setup();
    auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(60);
    while (!IsFinishedStatus(proc->GetStatus()) && std::chrono::steady_clock::now() < deadline)
    {
      proc->ExecuteSingle(ui);
      if (proc->GetStatus() == ES::RUNNING) std::this_thread::yield();
    }
    auto st = proc->GetStatus();
    bool may_s = S >= es, may_f = F >= ef;
    // when both thresholds can be reached the timing decides; when the success threshold is 0 it is immediate
    bool ok = (st == ES::SUCCESS && may_s) || (st == ES::FAILURE && may_f && es > 0);
    HX_CHECK(ok, "flow:parallel:result", text << " ended " << StatusChar(st) << " with branches succeeding " << S << " failing " << F << " thresholds " << es << "/" << ef);
    proc->Reset(ui);   // waits for the branches
    std::vector<std::vector<std::string>> seen(branches.size());
    for (auto& e : tr.Get())
      if (e.kind == K::kEnter)
      {
        auto b = static_cast<size_t>(e.id[0] - 'A');
        seen[b].push_back(LeafText(e.id, e.text.empty() ? "" : e.text.substr(e.text.rfind('=') + 1)));
      }
    for (size_t b = 0; b < branches.size(); ++b)
    {
      bool prefix = seen[b].size() <= alone[b].size() && std::equal(seen[b].begin(), seen[b].end(), alone[b].begin());
      HX_CHECK(prefix, "flow:parallel:branch", "branch " << b << " of " << text << " executed " << seen[b].size() << " leaves, not a prefix of the " << alone[b].size() << " it executes alone");
      // with no early exit possible every branch runs to its end
      if (es + ef == N + 1 && !(st == ES::SUCCESS && S > es) && !(st == ES::FAILURE && F > ef) && ((st == ES::SUCCESS && F == N - S && S == es && es == N) || (st == ES::FAILURE && ef == N)))
        HX_CHECK(seen[b] == alone[b], "flow:parallel:complete", "branch " << b << " of " << text);
    }
    SetTrace(nullptr);
    Eval();
    Distinct(text);
    Count("parallel procedures");
    Beat();
  }
}
// Listen: the child runs once at first and then after every change of a listed variable, never otherwise
void Listening()
{
  Section s("listen");
  if (!s.run) return;
  Rng r(Opt().seed + 77);
  const long n = Scale(1500, 10, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    struct V { long value; bool avail; };
    std::vector<V> vars, cache;
    std::vector<bool> cached;
    ProcSpec p;
    int nv = r.range(1, 4), listed = r.range(1, nv);
    std::string names;
    for (int i = 0; i < nv; ++i)
    {
      vars.push_back({static_cast<long>(r.below(2)), r.chance(4, 5)});
      p.vars.push_back({"HxVar", "v" + std::to_string(i), {{"type", "{\"type\":\"int32\"}"}, {"value", std::to_string(vars.back().value)}, {"avail", vars.back().avail ? "1" : "0"}}});
      if (i < listed) names += std::string(names.empty() ? "" : ",") + (r.chance(1, 5) ? "," : "") + "v" + std::to_string(i);
    }
    cache.resize(vars.size());
    cached.resize(vars.size());
    std::string script;
    int runs = r.range(1, 5);
    for (int i = 0; i < runs; ++i)
    {
      if (i) script += '|';
      for (int j = static_cast<int>(r.below(3)); j > 0; --j) script += r.chance(1, 2) ? 'N' : 'R';
      script += r.chance(2, 3) ? 'S' : 'F';
    }
    auto spec = Comp("Listen", {Leaf("L", script)});
    spec.Set("varNames", names);
    int force = static_cast<int>(r.below(3));
    if (force) spec.Set("forceSuccess", force == 1 ? "true" : "false");
    Number(spec);
    p.roots = {spec};
    std::string text = ToText(spec);
    Case(text);
    std::vector<std::string> sc(1);
    for (char c : script)
      if (c == '|') sc.emplace_back();
      else sc.back() += c;
    auto proc = BuildProc(p);
    RecUI ui;
    Trace tr;
    SetTrace(&tr);
    proc->Setup();
    size_t run = 0, pos = 0;
    char child = '-';
    long executions = 0, changes = 0;
    std::string history;
    bool done = false;
    for (int tick = 0; tick < 14 && !done; ++tick)
    {
      for (int w = static_cast<int>(r.below(3)); w > 0; --w)
      {
        auto i = static_cast<size_t>(r.below(static_cast<unsigned>(nv)));
        if (r.chance(1, 4)) vars[i].avail = !vars[i].avail;
        else vars[i].value = static_cast<long>(r.below(3));
        DriveVar("v" + std::to_string(i), sup::dto::AnyValue{sup::dto::SignedInteger32Type, static_cast<sup::dto::int32>(vars[i].value)}, vars[i].avail);
        history += " v" + std::to_string(i) + "=" + std::to_string(vars[i].value) + (vars[i].avail ? "" : "!");
      }
      // specification
      bool execute = child == 'N' || child == 'R';
      char want = 'R';
      if (!execute)
      {
        if (child == 'S' || child == 'F') { ++run; pos = 0; }
        for (int i = 0; i < listed; ++i)
        {
          auto j = static_cast<size_t>(i);
          if (!vars[j].avail || (cached[j] && cache[j].value == vars[j].value)) continue;
          cache[j] = vars[j];
          cached[j] = true;
          execute = true;
        }
        if (execute) ++changes;
        child = '-';
      }
      if (execute)
      {
        auto& now = sc[std::min(run, sc.size() - 1)];
        child = now[std::min(pos++, now.size() - 1)];
        ++executions;
        want = child == 'S' || (child == 'F' && force == 1) ? 'N' : child;
      }
      history += std::string(" tick:") + want;
      proc->ExecuteSingle(ui);
      char got = StatusChar(proc->RootInstruction()->GetStatus());
      long ran = static_cast<long>(tr.Of(K::kEnter).size());
      HX_CHECK(ran == executions, "flow:listen:executions", text << " after" << history << ": the child was executed " << ran << " times instead of " << executions);
      HX_CHECK(got == want, "flow:listen:status", text << " after" << history << ": status " << got);
      if (ran != executions || got != want) break;
      done = want == 'F';
    }
    Count("listen: ticks with a change", changes);
    Count("listen: executions of the child", executions);
    if (done) Count("listen: ended by a failure");
    proc->Reset(ui);
    SetTrace(nullptr);
    Eval();
    if (executions > 1) Distinct(text + history);
    Beat();
  }
}

// For over arrays of every element type, with an element variable of the same type, of another one, missing or
// unavailable, whole variable or field
void Elements()
{
  Section s("elements");
  if (!s.run) return;
  const std::vector<std::string> types{"int8", "uint16", "int32", "float64", "string", "bool"};
  auto text = [](const std::string& t, int k) { return t == "string" ? "\"" + std::to_string(k % 2) + "\"" : t == "bool" ? (k % 2 ? "true" : "false") : std::to_string(k % 2) + (t[0] == 'f' ? ".5" : ""); };
  for (auto& ta : types)
    for (auto& te : types)
      for (int n = 0; n <= 3; ++n)
        for (int where = 0; where < 5; ++where)   // 0 variable, 1 field, 2 missing, 3 missing field, 4 unavailable
          for (int stop = 0; stop < 2; ++stop)
          {
            std::string arr = "[";
            for (int k = 0; k < n; ++k) arr += (k ? "," : "") + text(ta, k);
            ProcSpec p;
            p.vars = {LocalVar("arr", "{\"type\":\"\",\"element\":{\"type\":\"" + ta + "\"}}", arr + "]"), LocalVar("bad", ta, text(ta, 1)),
                      LocalVar("el", te, text(te, 0)), LocalVar("st", "{\"type\":\"\",\"attributes\":[{\"el\":{\"type\":\"" + te + "\"}}]}", "{\"el\":" + text(te, 0) + "}")};
            VarSpec h;
            h.type = "HxVar";
            h.name = "off";
            h.attrs = {{"type", "{\"type\":\"" + te + "\"}"}, {"value", text(te, 0)}, {"avail", "0"}};
            p.vars.push_back(h);
            std::string el = where == 0 ? "el" : where == 1 ? "st.el" : where == 2 ? "none" : where == 3 ? "st.none" : "off";
            auto show = Comp("Output", {});
            show.Set("fromVar", el);
            std::vector<Spec> kids{show};
            if (stop)
            {
              auto eq = Comp("Equals", {});
              eq.Set("leftVar", el).Set("rightVar", "bad");
              kids.push_back(Comp("Inverter", {eq}));
            }
            auto spec = Comp("For", {Comp("Sequence", kids)});
            spec.Set("arrayVar", "arr").Set("elementVar", el);
            p.roots = {spec};
            auto what = "For over " + arr + "] of " + ta + " with element " + el + " of " + te + (stop ? ", stopped" : "");
            Case(what);
            auto proc = BuildProc(p);
            RecUI ui;
            proc->Setup();
            for (int t = 0; t < 50 && !IsFinishedStatus(proc->GetStatus()); ++t) proc->ExecuteSingle(ui);
            std::vector<std::string> want, got;
            bool ok = n == 0 || (where < 2 && ta == te);
            bool good = ok;
            for (int k = 0; ok && k < n; ++k)
            {
              want.push_back(text(ta, k));
              if (stop && k % 2 == 1)
              {
                good = false;
                break;
              }
            }
            for (auto& e : ui.trace.Of(K::kPut)) got.push_back(e.text.substr(0, e.text.find('|')));
            std::string a, b;
            for (auto& x : want) a += x + " ";
            for (auto& x : got) b += x + " ";
            HX_CHECK(proc->GetStatus() == (good ? ES::SUCCESS : ES::FAILURE), "for:result", what << " ends in " << StatusChar(proc->GetStatus()));
            HX_CHECK(want.size() == got.size(), "for:elements", what << " iterated over " << b << "instead of " << a);
            for (size_t k = 0; k < want.size() && k < got.size(); ++k)
              HX_CHECK(got[k].find(want[k]) != std::string::npos, "for:elements", what << " iterated over " << b << "instead of " << a);
            if (!ok) HX_CHECK(!ui.trace.Of(K::kLog).empty(), "for:silent", what << " failed without a message");
            proc->Reset(ui);
            Eval();
            Distinct(what);
            Count(good ? "loops over elements completed" : ok ? "loops over elements stopped" : "loops over elements refused");
          }
}
}  // namespace

HX_MAIN([] {
  Rule("a distinct case is a tree (structure, attributes, scripts) in which more than one leaf was executed");
  Small();
  Random();
  Parallel();
  Listening();
  Elements();
})

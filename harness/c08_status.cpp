// Status life cycle: an online automaton over the stream of status notifications.
#include "fx.h"

using namespace fx;
using namespace hx;

namespace
{
bool Fin(ES s) { return s == ES::SUCCESS || s == ES::FAILURE; }

// ---- the automaton --------------------------------------------------------------------------
struct Monitor
{
  Monitor(const Spec& spec, std::vector<Instruction*> n, std::string t) : nodes(std::move(n)), text(std::move(t))
  {
    std::function<void(const Spec&, int)> walk = [&](const Spec& s, int par) {
      int me = static_cast<int>(specs.size());
      specs.push_back(&s);
      parent.push_back(par);
      kids.emplace_back();
      if (par >= 0) kids[static_cast<size_t>(par)].push_back(me);
      for (auto& c : s.ch) walk(c, me);
    };
    walk(spec, -1);
    if (nodes.size() != specs.size()) throw std::logic_error("tree and specification differ");
    for (size_t k = 0; k < nodes.size(); ++k) ids[nodes[k]] = static_cast<int>(k);
    last.assign(nodes.size(), ES::NOT_STARTED);
    pending.assign(nodes.size(), 0);
  }
  void Bad(const std::string& key, const std::string& d)
  {
    if (failed) return;
    failed = true;
    std::string h;
    size_t from = history.size() > 30 ? history.size() - 30 : 0;
    for (size_t k = from; k < history.size(); ++k) h += " " + history[k];
    Violation("status:" + key, d + " in " + text + "; latest events:" + h);
  }
  std::string Name(int id) const { return std::to_string(id) + "(" + specs[static_cast<size_t>(id)]->type + ")"; }
  int CountKids(int id, ES st) const
  {
    int n = 0;
    for (auto c : kids[static_cast<size_t>(id)]) n += last[static_cast<size_t>(c)] == st;
    return n;
  }
  bool ResetAllowed(int id) const
  {
    if (in_reset) return true;
    for (int p = parent[static_cast<size_t>(id)]; p >= 0; p = parent[static_cast<size_t>(p)])
    {
      auto& t = specs[static_cast<size_t>(p)]->type;
      if (t == "Repeat" || t == "For" || t == "Listen" || t[0] == 'R') return true;
    }
    return false;
  }
  void OnStatus(int id, ES st)
  {
    auto k = static_cast<size_t>(id);
    auto old = last[k];
    auto& type = specs[k]->type;
    history.push_back(std::to_string(id) + ":" + StatusChar(old) + StatusChar(st));
    std::string step = std::string(1, StatusChar(old)) + "->" + StatusChar(st);
    if (old == st) Bad("repeated", "instruction " + Name(id) + " reported " + step + ", which is no change");
    bool ok;
    if (st == ES::NOT_STARTED) ok = old != ES::NOT_STARTED;
    else if (old == ES::NOT_STARTED) ok = st == ES::NOT_FINISHED || st == ES::FAILURE;
    else ok = !Fin(old);
    if (!ok) Bad("order", "instruction " + Name(id) + " went " + step);
    if (pending[k])
    {
      // a leaf has returned a status different from the last reported one
      if (pending[k] != StatusChar(st)) Bad("skipped", "instruction " + Name(id) + " returned " + std::string(1, pending[k]) + " but reports " + step);
      pending[k] = 0;
    }
    int par = parent[k];
    if (st == ES::NOT_STARTED)
    {
      if (!ResetAllowed(id)) Bad("reset-unasked", "instruction " + Name(id) + " went back to not started without a reset");
      if (CountKids(id, ES::NOT_STARTED) != static_cast<int>(kids[k].size()))
        Bad("reset-children", "instruction " + Name(id) + " reported reset before its children");
    }
    else if (par >= 0 && old == ES::NOT_STARTED)
    {
      auto ps = last[static_cast<size_t>(par)];
      if (ps == ES::NOT_STARTED) Bad("parent", "instruction " + Name(id) + " started before its parent was reported");
      // no child is started by a finished parent (parallel parents may finish while children start)
      bool par_is_async = specs[static_cast<size_t>(par)]->type == "ParallelSequence" || specs[static_cast<size_t>(par)]->type == "Async";
      if (Fin(ps) && !par_is_async) Bad("parent-finished", "instruction " + Name(id) + " started after its parent finished");
    }
    if (Fin(st) && !kids[k].empty() && old != ES::NOT_STARTED)
    {
      int n = static_cast<int>(kids[k].size()), S = CountKids(id, ES::SUCCESS), F = CountKids(id, ES::FAILURE);
      bool good = true;
      bool suc = st == ES::SUCCESS;
      if (type == "Sequence" || type == "ReactiveSequence") good = suc ? S == n : F >= 1;
      else if (type == "Fallback" || type == "ReactiveFallback") good = suc ? S >= 1 : F == n;
      else if (type == "Inverter") good = suc ? F == 1 : S == 1;
      else if (type == "Async") good = suc ? S == 1 : F == 1;
      else if (type == "ForceSuccess") good = suc && S + F == 1;
      else if (type == "Repeat") good = suc ? (S == 1 || specs[k]->Attr("maxCount").empty() || specs[k]->Attr("maxCount")[0] == '@' || specs[k]->Attr("maxCount") == "0") : F == 1;
      else if (type == "ParallelSequence")
      {
        int sth = specs[k]->Has("successThreshold") ? std::min(n, std::atoi(specs[k]->Attr("successThreshold").c_str())) : -1;
        int fth = specs[k]->Has("failureThreshold") ? std::min(n, std::atoi(specs[k]->Attr("failureThreshold").c_str())) : -1;
        int es = sth >= 0 ? sth : fth >= 0 ? n + 1 - fth : n;
        int ef = fth >= 0 ? fth : 1;
        if (sth >= 0) ef = std::min(ef, n - es + 1);
        good = suc ? S >= es : F >= ef;
      }
      if (!good) Bad("children", "instruction " + Name(id) + " reported " + StatusChar(st) + " while " + std::to_string(S) + " children were reported successful and " + std::to_string(F) + " failed");
    }
    last[k] = st;
    ++changes;
  }
  void Feed(const std::vector<Ev>& evs)
  {
    for (auto& e : evs)
    {
      if (failed) return;
      if (e.kind == K::kMark) in_reset = e.flag;
      if (e.kind == K::kState) in_reset = IsFinishedJobState(static_cast<JobState>(e.num));
      auto it = e.instr ? ids.find(e.instr) : ids.end();
      if (it == ids.end())
      {
        if (e.kind == K::kStatus) Bad("unknown", "status of an instruction that is not in the procedure");
        continue;
      }
      int id = it->second;
      auto k = static_cast<size_t>(id);
      switch (e.kind)
      {
      case K::kStatus: OnStatus(id, e.st); break;
      case K::kInit:
        if (last[k] != ES::NOT_STARTED) Bad("init", "instruction " + Name(id) + " was initialised while " + StatusChar(last[k]));
        break;
      case K::kEnter:
        if (last[k] != ES::NOT_FINISHED && last[k] != ES::RUNNING) Bad("enter", "instruction " + Name(id) + " executed while reported " + StatusChar(last[k]));
        if (e.num != 1) Bad("twice", "instruction " + Name(id) + " is executed by two threads at once");
        if (pending[k]) Bad("skipped", "instruction " + Name(id) + " returned " + std::string(1, pending[k]) + ", never reported");
        history.push_back(std::to_string(id) + ":x");
        break;
      case K::kExit:
        if (e.st != last[k]) pending[k] = StatusChar(e.st);
        break;
      default: break;
      }
    }
  }
  void Quiet()
  {
    for (size_t k = 0; k < nodes.size() && !failed; ++k)
    {
      if (pending[k]) Bad("skipped", "instruction " + Name(static_cast<int>(k)) + " returned " + std::string(1, pending[k]) + ", never reported");
      if (nodes[k]->GetStatus() != last[k])
        Bad("last", "instruction " + Name(static_cast<int>(k)) + " is " + StatusChar(nodes[k]->GetStatus()) + " but " + StatusChar(last[k]) + " was reported last");
    }
  }
  std::vector<const Spec*> specs;
  std::vector<Instruction*> nodes;
  std::vector<int> parent;
  std::vector<std::vector<int>> kids;
  std::map<const Instruction*, int> ids;
  std::vector<ES> last;
  std::vector<char> pending;
  std::vector<std::string> history;
  std::string text;
  bool in_reset = false;
  bool failed = false;
  long changes = 0;
};

void Mark(RecUI& ui, bool on)
{
  Ev e;
  e.kind = K::kMark;
  e.flag = on;
  ui.trace.Add(std::move(e));
}

// ---- exact stream of synchronous procedures ---------------------------------------------------
void Sync()
{
  Section s("sync");
  if (!s.run) return;
  Rng r(Opt().seed * 131 + 5);
  long n = Scale(6000, 12, 6);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    GenOpt o;
    o.max_nodes = r.chance(1, 12) ? 40 : r.range(2, 16);
    o.max_depth = r.range(1, 5);
    ProcSpec p;
    ModelVars mv;
    auto spec = GenTree(r, o, p, mv);
    p.roots = {spec};
    auto text = ToText(spec);
    Case(text);
    auto proc = BuildProc(p);
    RecUI ui;
    ui.record_var = false;
    SetTrace(&ui.trace);
    proc->Setup();
    Monitor mon(spec, Preorder(proc->RootInstruction()), text);
    Model m(spec, mv);
    int resets = 0;
    std::string shape;
    bool use_model = true;
    for (int tick = 0; tick < 400; ++tick)
    {
      std::string op;
      bool reset = r.chance(1, 12) || (IsFinishedStatus(proc->GetStatus()) && r.chance(1, 2));
      if (IsFinishedStatus(proc->GetStatus()) && !reset) break;
      if (reset && ++resets > 4) break;
      ui.trace.Clear();
      m.TakeEvents();
      if (reset)
      {
        Mark(ui, true);
        proc->Reset(ui);
        Mark(ui, false);
        m.Reset();
        // the model's variables are not reset: restart them
        if (!mv.scalars.empty()) use_model = use_model && true;
      }
      else
      {
        proc->ExecuteSingle(ui);
        m.Tick();
      }
      auto evs = ui.trace.Get();
      mon.Feed(evs);
      std::string real, model;
      for (auto& e : evs)
        if (e.kind == K::kStatus) real += " " + std::to_string(mon.ids[e.instr]) + StatusChar(e.st);
      for (auto& e : m.TakeEvents())
        if (e.kind == 'S') model += " " + std::to_string(e.id) + StatusChar(e.st);
      if (real != model)
        mon.Bad("stream", std::string(reset ? "reset" : "tick") + " reported [" + real + " ] instead of [" + model + " ]");
      mon.Quiet();
      shape += reset ? 'r' : 't';
      Eval();
      if (mon.failed) break;
    }
    Count("status changes checked against the reference stream", mon.changes);
    Count("resets", resets);
    if (mon.changes > 3) Distinct(text + shape);
    Sample(text);
    SetTrace(nullptr);
    Beat();
  }
}

// ---- parallel and asynchronous procedures, ticked directly, halted and reset from anywhere -----
void Par()
{
  Section s("parallel");
  if (!s.run) return;
  Rng r(Opt().seed * 977 + 11);
  long n = Scale(700, 10, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    GenOpt o;
    o.max_nodes = r.range(3, 18);
    o.max_depth = r.range(1, 4);
    o.parallel = true;
    o.waits = true;
    o.blocking = r.chance(1, 2);
    o.us = r.chance(1, 2) ? 100 : 0;
    ProcSpec p;
    ModelVars mv;
    auto spec = GenTree(r, o, p, mv);
    p.roots = {spec};
    auto text = ToText(spec);
    Case(text);
    PerturbOn(r.next(), 24, 80);
    auto proc = BuildProc(p);
    RecUI ui;
    ui.record_var = false;
    SetTrace(&ui.trace);
    proc->Setup();
    Monitor mon(spec, Preorder(proc->RootInstruction()), text);
    std::atomic<bool> stop{false};
    // halts come from another thread at random times
    std::atomic<int> allow{0};
    uint64_t hs = r.next();
    std::thread halter([&] {
      Rng q(hs);
      while (!stop)
      {
        std::this_thread::sleep_for(std::chrono::microseconds(q.below(6000)));
        if (allow.load() > 0)
        {
          --allow;
          proc->Halt();
        }
      }
    });
    int runs = r.range(1, 3);
    for (int run = 0; run < runs; ++run)
    {
      // blocking leaves need a halt that comes again when the first one falls into a reset
      if (o.blocking) allow = 1000000;
      else if (r.chance(1, 2)) allow = 1;
      double limit = Now() + 0.02 * r.range(0, 2);
      int ticks = 0, max_ticks = r.range(1, 400);
      while (!IsFinishedStatus(proc->GetStatus()) && ++ticks < max_ticks && Now() < limit)
      {
        proc->ExecuteSingle(ui);
        if (proc->GetStatus() == ES::RUNNING) std::this_thread::sleep_for(std::chrono::microseconds(50));
      }
      // stop blocking leaves of asynchronous branches: the reset does
      Mark(ui, true);
      proc->Reset(ui);
      Mark(ui, false);
      Count(ticks >= max_ticks || Now() >= limit ? "runs cut short" : "runs to the end");
    }
    stop = true;
    halter.join();
    // a halt may arrive after the last reset
    auto evs = ui.trace.Get();
    mon.Feed(evs);
    mon.Quiet();
    Count("status changes of parallel procedures", mon.changes);
    DistinctHash(InterleavingHash());
    PerturbOff();
    SetTrace(nullptr);
    Eval();
    Sample(text);
    Beat();
  }
}

// ---- under a job ------------------------------------------------------------------------------
void Job()
{
  Section s("job");
  if (!s.run) return;
  Rng r(Opt().seed * 499 + 3);
  long n = Scale(500, 10, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    GenOpt o;
    o.max_nodes = r.range(3, 18);
    o.max_depth = r.range(1, 4);
    o.parallel = r.chance(1, 2);
    o.waits = true;
    o.us = r.chance(1, 2) ? 60 : 0;
    ProcSpec p;
    ModelVars mv;
    auto spec = GenTree(r, o, p, mv);
    p.roots = {spec};
    p.attrs = {{"tickTimeout", "0.0002"}};
    auto text = ToText(spec);
    std::string script;
    RecUI ui;
    ui.record_var = false;
    SetTrace(&ui.trace);
    PerturbOn(r.next(), 24, 60);
    auto proc = BuildProc(p);
    std::unique_ptr<Monitor> mon;
    {
      AsyncRunner runner(*proc, ui);
      mon = std::make_unique<Monitor>(spec, Preorder(proc->RootInstruction()), "");
      int cmds = r.range(2, 14);
      for (int c = 0; c < cmds; ++c)
      {
        int w = static_cast<int>(r.below(10));
        if (w < 3) { script += 'g'; runner.Start(); }
        else if (w < 5) { script += 's'; runner.Step(); }
        else if (w < 6) { script += 'p'; runner.Pause(); }
        else if (w < 8) { script += 'h'; runner.Halt(); }
        else { script += 'r'; runner.Reset(); }
        if (r.chance(2, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500)));
      }
      Case(text + " commands " + script);
    }
    PerturbOff();
    // the job is gone, the procedure is still there: wait for its asynchronous branches
    Mark(ui, true);
    proc->Reset(ui);
    mon->text = text + " commands " + script;
    mon->Feed(ui.trace.Get());
    mon->Quiet();
    Count("status changes under jobs", mon->changes);
    SetTrace(nullptr);
    Eval();
    Distinct(text + script);
    Beat();
  }
}
}  // namespace

HX_MAIN([] {
  Rule("a distinct case is a procedure with the sequence of ticks, resets or commands applied, or (parallel) a distinct order of lock operations");
  Sync();
  Par();
  Job();
})

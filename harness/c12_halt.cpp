// Halting: injected at every event the job reports, and from other threads at any time.
#include "fx.h"

using namespace fx;
using namespace hx;

namespace
{
// ---- procedures that would take for ever ---------------------------------------------------
struct Forever
{
  Rng& r;
  bool async;        // parallel branches and Async decorators allowed
  int leaves = 0;
  int budget = 10;
  std::set<std::string> kinds;

  Spec Quick()
  {
    auto s = Leaf("q" + std::to_string(leaves++), r.chance(1, 5) ? "F" : r.chance(1, 4) ? "NS" : "S");
    if (r.chance(1, 3)) s.Set("us", "200");
    return s;
  }
  Spec Block()
  {
    Spec s;
    switch (r.below(9))
    {
    case 0:
      s.type = "Wait";
      s.Set("timeout", "1000000");
      s.Set("blocking", "true");
      break;
    case 1:
      s.type = "Wait";
      s.Set("timeout", "1000000");
      break;
    case 2:
      s.type = "WaitForVariable";
      s.Set("varName", r.chance(1, 2) ? "num" : "off");
      s.Set("timeout", "1000000");
      if (s.Attr("varName") == "num" || r.chance(1, 2)) s.Set("equalsVar", "never");
      break;
    case 3:
      s.type = "WaitForVariables";
      s.Set("varType", "HxVar");
      s.Set("timeout", "1000000");
      break;
    case 4:
      s.type = "Input";
      s.Set("outputVar", "num");
      s.Set("description", "never answered");
      break;
    case 5:
      s.type = "UserConfirmation";
      s.Set("description", "never answered");
      break;
    case 6:
      s.type = "UserChoice";
      s.Set("description", "never answered");
      s.ch = {Quick(), Quick()};
      break;
    case 7:
      s.type = "Listen";
      s.Set("varNames", "num,never");
      s.ch = {Leaf("q" + std::to_string(leaves++), "S")};
      break;
    default:
      s = Leaf("b" + std::to_string(leaves++), r.chance(1, 2) ? "B" : "NB");
      break;
    }
    kinds.insert(s.type == "HxLeaf" ? "leaf" : s.type + (s.Has("blocking") ? " blocking" : ""));
    return s;
  }
  // endless = the tree never finishes by itself (as long as its quick leaves succeed or not)
  Spec Make(int depth)
  {
    --budget;
    if (depth >= 4 || budget <= 0) return r.chance(1, 2) ? Quick() : Block();
    std::vector<std::string> t{"Sequence", "Sequence", "Fallback", "Repeat", "Inverter", "ForceSuccess", "ReactiveSequence", "ReactiveFallback", "Choice", "For", "Listen", "UserChoice"};
    if (async) t.insert(t.end(), {"ParallelSequence", "ParallelSequence", "Async"});
    auto type = r.pick(t);
    Spec s;
    s.type = type;
    if (type == "Repeat") s.Set("maxCount", r.chance(1, 2) ? "-1" : std::to_string(r.range(1, 5)));
    if (type == "Choice") s.Set("varName", "zero");
    if (type == "UserChoice") s.Set("description", "answered");
    if (type == "Listen")
    {
      s.Set("varNames", "num");
      if (r.chance(1, 2)) s.Set("forceSuccess", "true");
    }
    if (type == "For")
    {
      s.Set("arrayVar", "arr");
      s.Set("elementVar", "el");
    }
    bool compound = type.find("Sequence") != std::string::npos || type.find("Fallback") != std::string::npos || type == "Choice" || type == "UserChoice";
    int n = compound ? r.range(1, 3) : 1;
    for (int k = 0; k < n; ++k) s.ch.push_back(r.chance(1, 3) ? (r.chance(1, 2) ? Block() : Quick()) : Make(depth + 1));
    return s;
  }
};

bool HasAsync(const Spec& s)
{
  if (s.type == "ParallelSequence" || s.type == "Async") return true;
  for (auto& c : s.ch)
    if (HasAsync(c)) return true;
  return false;
}

ProcSpec WithVars(Spec spec)
{
  ProcSpec p;
  p.roots = {spec};
  p.attrs = {{"tickTimeout", "0.0005"}, {"timingAccuracy", "0.001"}};
  p.vars.push_back(LocalVar("num", "int32", "1"));
  p.vars.push_back(LocalVar("never", "int32", "77"));
  p.vars.push_back(LocalVar("zero", "uint32", "0"));
  p.vars.push_back(LocalVar("el", "int32", "0"));
  p.vars.push_back(LocalVar("arr", "{\"type\":\"\",\"element\":{\"type\":\"int32\"}}", "[1,2,3]"));
  VarSpec off;
  off.type = "HxVar";
  off.name = "off";
  off.attrs = {{"type", "{\"type\":\"int32\"}"}, {"value", "5"}, {"avail", "0"}};
  p.vars.push_back(off);
  return p;
}

std::unique_ptr<IUserInputFuture> Answer(const UserInputRequest& rq)
{
  UserInputReply rep;
  rep.m_request_type = rq.m_request_type;
  bool ready = false;
  if (rq.m_request_type == InputRequestType::kUserChoice)
  {
    std::vector<std::string> options;
    sup::dto::AnyValue md;
    if (ParseUserChoiceRequest(rq, options, md) && md.HasField("text") && md["text"].As<std::string>() == "answered") ready = true;
    rep = CreateUserChoiceReply(true, 0);
  }
  return std::make_unique<ScriptedFuture>(rep, ready ? 0.0 : 1e9);
}

std::string Tail(const std::vector<Ev>& evs, std::map<const Instruction*, int>& ids)
{
  std::string tail;
  for (size_t x = evs.size() > 60 ? evs.size() - 60 : 0; x < evs.size(); ++x)
  {
    auto& v = evs[x];
    if (v.kind == K::kMark) tail += std::string(" ") + static_cast<char>(v.num);
    if (v.kind == K::kEnter) tail += " ." + std::to_string(ids[v.instr]);
    if (v.kind == K::kExit) tail += " /" + std::to_string(ids[v.instr]);
    if (v.kind == K::kTick) tail += " |";
    if (v.kind == K::kStatus) tail += " " + std::to_string(ids[v.instr]) + StatusChar(v.st);
    if (v.kind == K::kState) tail += " [" + ToString(static_cast<JobState>(v.num)) + "]";
  }
  return tail;
}

// One run of a job that is halted; checks everything about the halt.
struct Run
{
  ProcSpec p;
  std::string text;
  bool has_async = false;
  long at = -1;            // halt from the callback of this event
  double after = -1;       // halt from another thread after this time
  long events = 0;         // events seen until the end
  bool injected = false;
  double latency = 0;

  void Go(Rng& r, bool perturb)
  {
    auto proc = BuildProc(p);
    RecUI ui;
    ui.on_input = Answer;
    SetTrace(&ui.trace);
    std::map<const Instruction*, int> ids;
    std::atomic<AsyncRunner*> runner{nullptr};
    std::atomic<long> n{0};
    std::atomic<bool> done{false};
    std::atomic<double> halted_at{0};
    auto mark = [&](char c) {
      Ev e;
      e.kind = K::kMark;
      e.num = c;
      ui.trace.Add(std::move(e));
    };
    std::recursive_mutex hit_mtx;
    bool armed = at >= 0;
    const long target = at;
    auto hit = [&] {
      auto k = n.fetch_add(1);
      if (k != target) return;
      std::lock_guard<std::recursive_mutex> lk(hit_mtx);
      if (!armed || !runner.load()) return;
      mark('h');
      halted_at = Now();
      runner.load()->Halt();
      mark('e');
      done = true;
    };
    ui.on_status = [&](const Instruction*, ES) { hit(); };
    ui.on_state = [&](JobState s) { if (s != JobState::kInitial && !IsFinishedJobState(s)) hit(); };
    ui.on_tick = [&](const Procedure&) { if (!IsFinishedJobState(ui.State())) hit(); };
    bool finished = false;
    auto disarm = [&] {
      std::lock_guard<std::recursive_mutex> lk(hit_mtx);
      armed = false;
      return done.load();
    };
    if (perturb) PerturbOn(r.next(), 24, 60);
    {
      AsyncRunner run(*proc, ui);
      auto nodes = Preorder(proc->RootInstruction());
      for (size_t x = 0; x < nodes.size(); ++x) ids[nodes[x]] = static_cast<int>(x);
      runner = &run;
      run.Start();
      if (at < 0)
      {
        double until = Now() + after;
        while (Now() < until) std::this_thread::yield();
        mark('h');
        halted_at = Now();
        run.Halt();
        mark('e');
        done = true;
        injected = true;
      }
      else
      {
        // wait for the event to come, for the end, or for the tree to have nothing to report any more
        long last = -1;
        double since = Now();
        while (!done && !IsFinishedJobState(ui.State()))
        {
          if (n.load() != last) { last = n.load(); since = Now(); }
          if (Now() - since > 0.03) break;
          std::this_thread::sleep_for(std::chrono::microseconds(200));
        }
        injected = disarm();
        if (!done && !IsFinishedJobState(ui.State()))
        {
          at = -1;
          mark('h');
          halted_at = Now();
          run.Halt();
          mark('e');
          done = true;
        }
      }
      finished = ui.WaitFinished(40);
      events = n.load();
      if (!finished)
        Violation("halt:stuck", text + " does not end after a halt" + (injected ? " at event " + std::to_string(at) : "") + "; events:" + Tail(ui.trace.Get(), ids));
      else if (done) latency = Now() - halted_at.load();
      auto evs = ui.trace.Get();
      // final state
      auto state = ui.State();
      ES root = ES::NOT_STARTED;
      size_t mh = evs.size(), me = evs.size();
      std::map<const Instruction*, ES> last;
      std::map<const Instruction*, int> enters_after;
      for (size_t x = 0; x < evs.size(); ++x)
      {
        auto& e = evs[x];
        if (e.kind == K::kMark && e.num == 'h') mh = x;
        if (e.kind == K::kMark && e.num == 'e') me = x;
      }
      for (size_t x = 0; x < evs.size(); ++x)
      {
        auto& e = evs[x];
        if (e.kind == K::kStatus)
        {
          if (e.instr == run_root(nodes)) root = e.st;
          last[e.instr] = e.st;
        }
        if (e.kind == K::kEnter && x > me)
        {
          ++enters_after[e.instr];
          ES l = last.count(e.instr) ? last[e.instr] : ES::NOT_STARTED;
          // Without parallel branches the callback that halts runs in the thread that executes.
          if (!has_async && at >= 0 && injected)
            HX_CHECK(false, "halt:executes-after", text << " executes leaf " << e.id << " after the halt at event " << at << "; events:" << Tail(evs, ids));
          // Otherwise a leaf that the engine had already decided to execute may still start, once.
          HX_CHECK(l != ES::NOT_STARTED, "halt:starts-after", text << " executes leaf " << e.id << " that had not been started, after the halt; events:" << Tail(evs, ids));
          HX_CHECK(enters_after[e.instr] <= 1, "halt:again-after", text << " executes leaf " << e.id << " again and again after the halt; events:" << Tail(evs, ids));
        }
      }
      if (finished && mh < evs.size())
      {
        bool ok = state == JobState::kHalted || (state == JobState::kSucceeded && root == ES::SUCCESS) || (state == JobState::kFailed && root == ES::FAILURE);
        HX_CHECK(ok, "halt:state", text << " ends as " << ToString(state) << " with a procedure " << StatusChar(root) << "; events:" << Tail(evs, ids));
        if (state != JobState::kHalted)
        {
          // only the tick in progress may finish the procedure
          long ticks = 0;
          for (size_t x = mh; x < evs.size(); ++x)
            if (evs[x].kind == K::kTick) ++ticks;
          HX_CHECK(ticks <= 2, "halt:finishes-later", text << " goes on for " << ticks << " ticks after the halt; events:" << Tail(evs, ids));
          Count("procedure finished in the tick that was halted");
        }
        else Count("halted");
        Count("leaf executions before the halt", static_cast<long>(std::count_if(evs.begin(), evs.begin() + static_cast<long>(mh), [](const Ev& e) { return e.kind == K::kEnter; })));
      }
      if (finished)
      {
        run.Reset();
        bool init = ui.WaitState([](JobState s) { return s == JobState::kInitial; }, 40);
        HX_CHECK(init, "halt:reset", text << " cannot be reset after a halt");
        if (init)
          for (auto i : nodes)
          {
            HX_CHECK(i->GetStatus() == ES::NOT_STARTED, "halt:reset-status", text << ": instruction " << ids[i] << " is " << StatusChar(i->GetStatus()) << " after a halt and a reset");
            HX_CHECK(!i->IsHaltRequested(), "halt:reset-flag", text << ": instruction " << ids[i] << " still is to halt after a reset");
          }
      }
      runner = nullptr;
    }
    if (perturb)
    {
      DistinctHash(InterleavingHash());
      PerturbOff();
    }
    SetTrace(nullptr);
    CountMax("longest halt, microseconds", static_cast<long>(latency * 1e6));
    Beat();
  }
  static const Instruction* run_root(const std::vector<Instruction*>& n) { return n[0]; }
};

// the halt falls on every event of a procedure in turn
void Inject()
{
  Section s("inject");
  if (!s.run) return;
  Rng r(Opt().seed * 13 + 1);
  long n = Scale(150, 12, 3);
  std::map<std::string, long> kinds;
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    Forever f{r, k % 3 == 2};
    auto spec = f.Make(0);
    if (spec.ch.empty()) spec = Comp("Sequence", {spec});
    Number(spec);
    for (auto& x : f.kinds) ++kinds[x];
    Run run;
    run.p = WithVars(spec);
    run.text = ToText(spec);
    run.has_async = HasAsync(spec);
    long limit = Opt().thorough ? 60 : 24;
    for (long at = 0; at < limit; ++at)
    {
      Case(run.text + " halted at event " + std::to_string(at));
      auto one = run;
      one.at = at;
      one.Go(r, false);
      Eval();
      if (one.injected) Distinct(run.text + "@" + std::to_string(at));
      else break;
    }
  }
  for (auto& [x, c] : kinds) Count("procedures with " + x, c);
}

// the halt comes from another thread
void Outside()
{
  Section s("outside");
  if (!s.run) return;
  Rng r(Opt().seed * 19 + 2);
  long n = Scale(1600, 10, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    Forever f{r, k % 2 == 1};
    auto spec = f.Make(0);
    if (spec.ch.empty()) spec = Comp("Sequence", {spec});
    Number(spec);
    Run run;
    run.p = WithVars(spec);
    run.text = ToText(spec);
    run.has_async = HasAsync(spec);
    run.after = 1e-6 * static_cast<double>(r.below(r.chance(1, 3) ? 5000 : 400));
    Case(run.text + " halted after " + std::to_string(run.after));
    run.Go(r, true);
    Eval();
    if (k % 50 == 0) Sample(run.text + " halted after " + std::to_string(run.after) + " s");
  }
}

// each blocking instruction, halted once it certainly waits; then again after a reset
void Each()
{
  Section s("each");
  if (!s.run) return;
  Rng r(Opt().seed * 37 + 4);
  long n = Scale(12, 8, 2);
  std::vector<Spec> blocks;
  auto add = [&](const std::string& type, std::vector<std::pair<std::string, std::string>> at, std::vector<Spec> ch = {}) {
    Spec b;
    b.type = type;
    b.attrs = std::move(at);
    b.ch = std::move(ch);
    blocks.push_back(b);
  };
  add("Wait", {{"timeout", "1000000"}, {"blocking", "true"}});
  add("Wait", {{"timeout", "1000000"}, {"blocking", "false"}});
  add("WaitForVariable", {{"varName", "off"}, {"timeout", "1000000"}});
  add("WaitForVariable", {{"varName", "num"}, {"timeout", "1000000"}, {"equalsVar", "never"}});
  add("WaitForVariables", {{"varType", "HxVar"}, {"timeout", "1000000"}});
  add("Input", {{"outputVar", "num"}, {"description", "x"}});
  add("UserConfirmation", {{"description", "x"}});
  add("UserChoice", {{"description", "x"}}, {Leaf("q", "S"), Leaf("w", "S")});
  add("UserChoice", {{"description", "answered"}}, {Leaf("q", "B")});
  add("Listen", {{"varNames", "num"}}, {Leaf("q", "S")});
  add("Listen", {{"varNames", "num"}}, {Leaf("q", "B")});
  blocks.push_back(Leaf("b", "B"));
  std::vector<std::string> around{"", "Sequence", "Fallback", "Repeat", "Inverter", "ForceSuccess", "ParallelSequence", "Async", "ReactiveSequence", "ReactiveFallback", "Choice", "For", "UserChoice", "Repeat2"};
  for (auto& b : blocks)
    for (auto& a : around)
    {
      if (TooMany()) return;
      Spec spec = b;
      if (a == "Repeat2") spec = Comp("Repeat", {Comp("Sequence", {Leaf("p", "S"), b, Leaf("after", "S")})}).Set("maxCount", "-1");
      else if (a == "Sequence" || a == "Fallback" || a == "ParallelSequence" || a.find("Reactive") == 0)
        spec = Comp(a, {Leaf("p", a.find("Fallback") != std::string::npos ? "F" : "S"), b, Leaf("after", a == "ParallelSequence" ? "B" : "S")});
      else if (!a.empty()) spec = Comp(a, {b});
      if (a == "Repeat") spec.Set("maxCount", "-1");
      if (a == "Choice") spec.Set("varName", "zero");
      if (a == "UserChoice") spec.Set("description", "answered");
      if (a == "For") spec.Set("arrayVar", "arr").Set("elementVar", "el");
      Number(spec);
      auto p = WithVars(spec);
      auto text = ToText(spec);
      Case(text + " halted while it waits, twice");
      auto proc = BuildProc(p);
      RecUI ui;
      std::atomic<long> open{0};
      std::mutex req_mtx;
      ui.on_input = [&](const UserInputRequest& rq) -> std::unique_ptr<IUserInputFuture> {
        auto f = Answer(rq);
        if (f->IsReady()) return f;
        ++open;
        return std::make_unique<ScriptedFuture>(UserInputReply(), 1e9, [&] { --open; });
      };
      SetTrace(&ui.trace);
      {
        AsyncRunner run(*proc, ui);
        auto nodes = Preorder(proc->RootInstruction());
        const Instruction* block = nullptr;
        for (auto i : nodes)
          if (i->GetType() == b.type && !block && (b.type != "UserChoice" || i->GetAttributeString("description") == b.Attr("description")) && (b.type != "HxLeaf" || i->GetAttributeString("id") == "b")) block = i;
        for (long round = 0; round < n; ++round)
        {
          ui.trace.Clear();
          run.Start();
          bool there = WaitUntil([&] { return block->GetStatus() == ES::RUNNING || block->GetStatus() == ES::NOT_FINISHED; }, 40);
          if (!there) { Violation("halt:never-waits", text + " does not come to its waiting instruction"); break; }
          if (r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
          if (round == 0) std::this_thread::sleep_for(std::chrono::milliseconds(3));
          double t0 = Now();
          run.Halt();
          bool fin = ui.WaitFinished(40);
          CountMax("longest halt, microseconds", static_cast<long>((Now() - t0) * 1e6));
          HX_CHECK(fin, "halt:stuck", text << " does not end after a halt");
          if (!fin) break;
          auto st = ui.State();
          // the instruction that waits ends the procedure when it fails
          HX_CHECK(st == JobState::kHalted || st == JobState::kFailed || st == JobState::kSucceeded, "halt:state", text << " ends as " << ToString(st));
          for (auto& e : ui.trace.Of(K::kEnter))
            HX_CHECK(e.id != "after" || a == "ParallelSequence", "halt:starts-after", text << " executes what follows the halted instruction");
          run.Reset();
          bool init = ui.WaitState([](JobState x) { return x == JobState::kInitial; }, 40);
          HX_CHECK(init, "halt:reset", text << " cannot be reset after a halt");
          if (!init) break;
          HX_CHECK(open.load() == 0, "halt:request-open", text << " leaves a request to the user pending after halt and reset");
          Eval();
          Beat();
          Distinct(text + "#" + std::to_string(round));
        }
      }
      SetTrace(nullptr);
    }
  Exhaustive("every blocking instruction within every kind of compound or decorator, halted while it waits");
}

// a halted and reset procedure runs as a fresh one
void Rerun()
{
  Section s("rerun");
  if (!s.run) return;
  Rng r(Opt().seed * 43 + 6);
  long n = Scale(2000, 10, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    GenOpt o;
    o.max_nodes = r.range(2, 12);
    o.max_depth = r.range(1, 4);
    o.multi_run = false;
    o.init_failures = false;
    ProcSpec p;
    ModelVars mv;
    auto spec = GenTree(r, o, p, mv);
    p.roots = {spec};
    p.attrs = {{"tickTimeout", "0.0001"}};
    auto text = ToText(spec);
    {
      // reactive trees may go on for ever
      Model m(spec, mv);
      for (int t = 0; t < 300 && !IsFinishedStatus(m.Status()); ++t) m.Tick();
      if (!IsFinishedStatus(m.Status())) continue;
    }
    auto proc = BuildProc(p);
    RecUI ui;
    SetTrace(&ui.trace);
    std::map<const Instruction*, int> ids;
    auto nodes = Preorder(proc->RootInstruction());
    for (size_t x = 0; x < nodes.size(); ++x) ids[nodes[x]] = static_cast<int>(x);
    std::atomic<long> left{-1};
    std::atomic<AsyncRunner*> runner{nullptr};
    auto hit = [&] {
      if (left.fetch_sub(1) == 0) runner.load()->Halt();
    };
    ui.on_status = [&](const Instruction*, ES) { hit(); };
    ui.on_tick = [&](const Procedure&) { if (!IsFinishedJobState(ui.State())) hit(); };
    {
      AsyncRunner run(*proc, ui);
      runner = &run;
      int rounds = r.range(1, 3);
      std::string ats;
      bool ok = true;
      for (int round = 0; round < rounds && ok; ++round)
      {
        bool outside = r.chance(1, 3);
        long at = static_cast<long>(r.below(r.chance(1, 2) ? 6 : 30));
        ats += (outside ? " t" : " e") + std::to_string(at);
        Case(text + " halted and reset" + ats);
        left = outside ? -1 : at;
        run.Start();
        if (outside)
        {
          double until = Now() + 1e-5 * static_cast<double>(at);
          while (Now() < until) std::this_thread::yield();
          run.Halt();
        }
        ok = ui.WaitFinished(40);
        HX_CHECK(ok, "halt:stuck", text << " does not end after" << ats);
        left = -1;
        if (!ok) break;
        Count(ui.State() == JobState::kHalted ? "rerun after a halt" : "rerun after an end");
        run.Reset();
        ok = ui.WaitState([](JobState x) { return x == JobState::kInitial; }, 40);
        HX_CHECK(ok, "halt:reset", text << " cannot be reset after" << ats);
      }
      if (ok)
      {
        ui.trace.Clear();
        left = -1;
        run.Start();
        if (ui.WaitFinished(60))
        {
          std::string seen, want;
          for (auto& e : ui.trace.Get())
          {
            if (e.kind == K::kStatus) seen += " " + std::to_string(ids[e.instr]) + StatusChar(e.st);
            if (e.kind == K::kEnter) seen += " ." + std::to_string(ids[e.instr]) + e.text.substr(e.text.rfind('=') == std::string::npos ? 0 : e.text.rfind('=') + 1);
          }
          Model m(spec, mv);
          while (!IsFinishedStatus(m.Status())) m.Tick();
          for (auto& e : m.TakeEvents())
          {
            if (e.kind == 'S') want += " " + std::to_string(e.id) + StatusChar(e.st);
            if (e.kind == 'X') want += " ." + std::to_string(e.id) + e.text;
          }
          HX_CHECK(seen == want, "halt:rerun", text << " after" << ats << " and a reset runs" << seen << " instead of" << want);
          HX_CHECK((ui.State() == JobState::kSucceeded) == (m.Status() == ES::SUCCESS), "halt:rerun-result", text << " after" << ats);
          Distinct(text + ats);
        }
        else Violation("halt:rerun-stuck", text + " after" + ats + " and a reset does not end");
      }
      runner = nullptr;
    }
    SetTrace(nullptr);
    Eval();
    Beat();
  }
}

// the plain runner: halted from a callback, it returns and executes nothing any more
void Plain()
{
  Section s("plain");
  if (!s.run) return;
  Rng r(Opt().seed * 53 + 8);
  long n = Scale(1500, 12, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    GenOpt o;
    o.max_nodes = r.range(2, 12);
    o.multi_run = false;
    o.init_failures = false;
    ProcSpec p;
    ModelVars mv;
    auto spec = GenTree(r, o, p, mv);
    p.roots = {spec};
    auto text = ToText(spec);
    {
      Model m(spec, mv);
      for (int t = 0; t < 300 && !IsFinishedStatus(m.Status()); ++t) m.Tick();
      if (!IsFinishedStatus(m.Status())) continue;
    }
    auto proc = BuildProc(p);
    RecUI ui;
    SetTrace(&ui.trace);
    Runner runner(ui);
    runner.SetProcedure(proc.get());
    long at = static_cast<long>(r.below(20));
    long left = at;
    bool halted = false;
    ui.on_status = [&](const Instruction*, ES) {
      if (left-- == 0)
      {
        runner.Halt();
        halted = true;
        Ev e;
        e.kind = K::kMark;
        e.num = 'e';
        ui.trace.Add(std::move(e));
      }
    };
    Case(text + " plain runner halted at event " + std::to_string(at));
    runner.ExecuteProcedure();
    bool after = false;
    for (auto& e : ui.trace.Get())
    {
      if (e.kind == K::kMark) after = true;
      if (after) HX_CHECK(e.kind != K::kEnter, "halt:executes-after", text << " in a plain runner executes leaf " << e.id << " after the halt at event " << at);
    }
    HX_CHECK(halted || IsFinishedStatus(proc->GetStatus()), "halt:plain-stopped", text << " was left unfinished without a halt");
    if (halted)
    {
      HX_CHECK(runner.IsFinished(), "halt:plain-finished", text << " is not finished after a halt");
      Distinct(text + std::to_string(at));
    }
    SetTrace(nullptr);
    Eval();
    Beat();
  }
}

// instructions that take their time to be told to halt give the others time to go on meanwhile
struct SlowHalt : public Instruction
{
  static const std::string Type;
  SlowHalt() : Instruction(Type) {}
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    // waits for a halt, if so asked
    double limit = Now() + (HasAttribute("until") ? 60 : 0);
    while (!IsHaltRequested() && Now() < limit) std::this_thread::sleep_for(std::chrono::microseconds(20));
    return HasAttribute("fail") ? ES::FAILURE : ES::SUCCESS;
  }
  void HaltImpl() override { std::this_thread::sleep_for(std::chrono::microseconds(std::stoi(GetAttributeString("us")))); }
};
const std::string SlowHalt::Type = "SlowHalt";
Spec SlowTree(Rng& r, int depth)
{
  auto slow = [&]
  {
    Spec x = Leaf("s", "S");
    x.type = "SlowHalt";
    x.attrs = {{"us", std::to_string(r.below(4000))}};
    if (r.chance(1, 4)) x.Set("fail", "1");
    return x;
  };
  auto wait = [&]
  {
    Spec w = Leaf("w", "S");
    w.type = "Wait";
    w.attrs = {{"timeout", "3600"}};
    if (r.chance(1, 3)) w.Set("blocking", "true");
    return r.chance(1, 4) ? w : Comp("ForceSuccess", {w});
  };
  if (depth == 0) return r.chance(1, 2) ? slow() : wait();
  static const char* const types[] = {"Sequence", "Sequence", "Fallback", "ParallelSequence", "ReactiveSequence", "Repeat", "Inverter", "Async"};
  std::string t = types[r.below(8)];
  if (t == "Repeat" || t == "Inverter" || t == "Async")
  {
    Spec c = Comp(t, {SlowTree(r, depth - 1)});
    if (t == "Repeat") c.attrs = {{"maxCount", "-1"}};
    return c;
  }
  std::vector<Spec> ch;
  for (int n = r.range(1, 3); n > 0; --n) ch.push_back(SlowTree(r, depth - 1));
  if (r.chance(2, 3)) ch.push_back(slow());
  if (r.chance(1, 3)) ch.insert(ch.begin(), wait());
  return Comp(t, ch);
}
void Slow()
{
  Section s("slow");
  if (!s.run) return;
  static bool registered = RegisterGlobalInstruction<SlowHalt>();
  (void)registered;
  Rng r(Opt().seed * 29 + 11);
  long n = Scale(500, 8, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    Spec body = SlowTree(r, r.range(1, 3));
    bool directed = r.chance(1, 3);
    if (directed)
    {
      // when the wait ends by the halt, all that follows succeeds and the loop comes round again
      Spec w = Leaf("w", "S");
      w.type = "SlowHalt";
      w.attrs = {{"us", "0"}, {"until", "halted"}};
      std::vector<Spec> ch{Comp("ForceSuccess", {w})};
      for (int i = r.range(1, 3); i > 0; --i)
      {
        Spec x = Leaf("s", "S");
        x.type = "SlowHalt";
        x.attrs = {{"us", std::to_string(500 + r.below(3000))}};
        ch.push_back(x);
      }
      body = Comp("Sequence", ch);
      if (r.chance(1, 3)) body = Comp("Inverter", {Comp("Inverter", {body})});
    }
    Spec root = Comp("Repeat", {body});
    root.attrs = {{"maxCount", "-1"}};
    ProcSpec p;
    p.roots = {root};
    auto text = ToText(root);
    Case(text);
    auto proc = std::make_shared<std::unique_ptr<Procedure>>(BuildProc(p));
    auto ui = std::make_shared<RecUI>();
    auto runner = std::make_shared<Runner>(*ui);
    ui->record_var = false;
    runner->SetProcedure(proc->get());
    runner->SetTickCallback([](const Procedure& q) { if (q.GetStatus() == ES::RUNNING) std::this_thread::sleep_for(std::chrono::microseconds(50)); });
    auto done = std::make_shared<std::atomic<int>>(0);
    std::thread t([=] {
      runner->ExecuteProcedure();
      *done = 1;
    });
    std::this_thread::sleep_for(std::chrono::microseconds(r.below(2500)));
    int how = directed ? static_cast<int>(r.below(2)) : static_cast<int>(r.below(3));   // 0: only the procedure
    if (how == 0) (*proc)->Halt();
    else runner->Halt();
    bool ended = WaitUntil([&] { return done->load() == 1; }, 20);
    HX_CHECK(ended, "halt:slow", "not ended 20 s after a halt: " << text);
    if (!ended)
    {
      // leave the thread alone
      t.detach();
      static std::vector<std::shared_ptr<void>> kept;
      kept.push_back(proc);
      kept.push_back(ui);
      kept.push_back(runner);
      return;
    }
    t.join();
    // executed again in part, then reset or destroyed while branches still execute
    (*proc)->Reset(*ui);
    for (int ticks = r.range(0, 3); ticks > 0 && !IsFinishedStatus((*proc)->GetStatus()); --ticks)
    {
      if (text.find("blocking") != std::string::npos || text.find("until") != std::string::npos) break;
      (*proc)->ExecuteSingle(*ui);
    }
    double t0 = Now();
    (*proc)->Reset(*ui);
    HX_CHECK(Now() - t0 < 20, "halt:slow", "a reset took " << Now() - t0 << " s: " << text);
    // branches that block are given up by a reset
    if (r.chance(1, 2))
    {
      ProcSpec q;
      Spec w = Leaf("w", "S");
      w.type = "Wait";
      w.attrs = {{"timeout", "30"}, {"blocking", "true"}};
      Spec par = Comp(r.chance(1, 2) ? "ParallelSequence" : "Async", {w});
      if (r.chance(1, 2)) par = Comp("Sequence", {par});
      if (r.chance(1, 3)) par = Comp("Inverter", {par});
      q.roots = {par};
      auto blocked = BuildProc(q);
      blocked->Setup();
      for (int ticks = r.range(1, 3); ticks > 0; --ticks) blocked->ExecuteSingle(*ui);
      t0 = Now();
      bool destroy = r.chance(1, 2);
      if (destroy) blocked.reset();
      else blocked->Reset(*ui);
      if (!HX_CHECK(Now() - t0 < 15, "halt:withdrawn", ToText(par) << ": " << (destroy ? "destroying" : "resetting") << " it while its branch waited took " << Now() - t0 << " s")) return;
      Count("procedures withdrawn while a branch was blocked");
    }
    Count("halts while others were slow to halt");
    Eval();
    Distinct("slow " + text);
    Beat();
  }
}
}  // namespace

HX_MAIN([] {
  RegisterFixtures();
  Rule("a distinct case is a procedure with the event at which it was halted, or a distinct order of lock operations");
  Plain();
  Each();
  Inject();
  Outside();
  Rerun();
  Slow();
})

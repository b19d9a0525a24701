// Breakpoints: where a job must pause, computed by the reference interpreter.
#include "fx.h"

using namespace fx;
using namespace hx;

namespace
{
char StateChar(JobState s) { return "IPTRSFH"[static_cast<int>(s)]; }

// What a job with breakpoints does, for synchronous procedures controlled while idle.
struct BpModel
{
  BpModel(const Spec& s, const ModelVars& mv) : m(s, mv) {}
  Model m;
  std::string out = "I";
  char state = 'I';
  std::map<int, bool> bps;   // id -> released
  bool endless = false;
  long hits = 0;
  void To(char c) { state = c; out += c; }
  void Tick()
  {
    m.TakeEvents();
    m.Tick();
    for (auto& e : m.TakeEvents())
      if (e.kind == 'X') out += "." + std::to_string(e.id);
    for (auto& [id, rel] : bps) rel = false;
  }
  bool Final()
  {
    if (!IsFinishedStatus(m.Status())) return false;
    To(m.Status() == ES::SUCCESS ? 'S' : 'F');
    return true;
  }
  void Start()
  {
    if (state != 'I' && state != 'P') return;
    To('R');
    for (long n = 0; n < 300; ++n)
    {
      bool hit = false;
      for (auto id : m.Next())
      {
        auto it = bps.find(id);
        if (it != bps.end() && !it->second) hit = it->second = true;
      }
      if (hit)
      {
        ++hits;
        To('P');
        return;
      }
      Tick();
      if (Final()) return;
    }
    endless = true;
  }
  void Step()
  {
    if (state != 'I' && state != 'P') return;
    To('T');
    Tick();
    if (!Final()) To('P');
  }
  void Reset()
  {
    if (state != 'S' && state != 'F' && state != 'H') return;
    m.Reset();
    m.TakeEvents();
    for (auto& [id, rel] : bps) rel = false;
    To('I');
  }
  void Halt()
  {
    if (state == 'I' || state == 'P') To('H');
  }
};

std::string Observed(const std::vector<Ev>& evs, const std::map<const Instruction*, int>& ids)
{
  std::string s;
  for (auto& e : evs)
  {
    if (e.kind == K::kState) s += StateChar(static_cast<JobState>(e.num));
    if (e.kind == K::kEnter) s += "." + std::to_string(ids.at(e.instr));
  }
  return s;
}

void Sync()
{
  Section s("predicted");
  if (!s.run) return;
  Rng r(Opt().seed * 61 + 3);
  long n = Scale(2500, 12, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    GenOpt o;
    o.max_nodes = r.range(2, 14);
    o.max_depth = r.range(1, 4);
    o.init_failures = false;
    o.multi_run = r.chance(1, 2);
    ProcSpec p;
    ModelVars mv;
    auto spec = GenTree(r, o, p, mv);
    p.roots = {spec};
    p.attrs = {{"tickTimeout", "0.0001"}};
    auto text = ToText(spec);
    bool local = k % 4 == 3;
    auto proc = BuildProc(p);
    auto nodes = Preorder(proc->RootInstruction());
    std::map<const Instruction*, int> ids;
    for (size_t x = 0; x < nodes.size(); ++x) ids[nodes[x]] = static_cast<int>(x);
    RecUI ui;
    ui.record_var = false;
    RecJobIO io;
    Trace& tr = local ? io.trace : ui.trace;
    SetTrace(&tr);
    BpModel bm(spec, mv);
    std::string cmds;
    long breaks_expected = 0;
    std::unique_ptr<AsyncRunner> runner;
    std::unique_ptr<LocalJob> job;
    std::map<const Instruction*, unsigned> index;   // of the local job
    if (local)
    {
      auto root = proc->RootInstruction();
      auto flat = FlattenBFS(CreateFullInstructionTree(root));
      for (size_t x = 0; x < flat.size(); ++x) index[flat[x]] = static_cast<unsigned>(x);
      job = std::make_unique<LocalJob>(std::move(proc), io);
    }
    else runner = std::make_unique<AsyncRunner>(*proc, ui);
    auto set = [&](int id) {
      cmds += " +" + std::to_string(id);
      if (local) job->SetBreakpoint(index[nodes[static_cast<size_t>(id)]]);
      else runner->SetBreakpoint(nodes[static_cast<size_t>(id)]);
      if (!bm.bps.count(id))
      {
        bm.bps[id] = false;
        ++breaks_expected;
      }
    };
    auto remove = [&](int id) {
      cmds += " -" + std::to_string(id);
      if (local) job->RemoveBreakpoint(index[nodes[static_cast<size_t>(id)]]);
      else runner->RemoveBreakpoint(nodes[static_cast<size_t>(id)]);
      if (bm.bps.erase(id)) ++breaks_expected;
    };
    auto some = [&] { return static_cast<int>(r.below(nodes.size())); };
    int first = r.range(0, 3);
    for (int x = 0; x < first; ++x) set(some());
    int count = r.range(2, 14);
    bool ok = true;
    for (int c = 0; c < count && ok; ++c)
    {
      if (r.chance(1, 4)) set(some());
      if (r.chance(1, 6))
      {
        if (!bm.bps.empty() && r.chance(2, 3))
        {
          auto it = bm.bps.begin();
          std::advance(it, static_cast<long>(r.below(bm.bps.size())));
          remove(it->first);
        }
        else remove(some());
      }
      if (r.chance(1, 16))
      {
        // an instruction or index that does not exist changes nothing
        if (local) job->SetBreakpoint(1000000);
        else
        {
          auto foreign = GlobalInstructionRegistry().Create("Succeed");
          runner->SetBreakpoint(foreign.get());
          runner->RemoveBreakpoint(foreign.get());
          runner->SetBreakpoint(nullptr);
        }
      }
      int w = static_cast<int>(r.below(12));
      auto before = bm.out;
      char cmd;
      if (bm.state == 'S' || bm.state == 'F' || bm.state == 'H') cmd = 'r';
      else cmd = w < 7 ? 'g' : w < 11 ? 's' : 'h';
      switch (cmd)
      {
      case 'g': bm.Start(); break;
      case 's': bm.Step(); break;
      case 'h': bm.Halt(); break;
      default: bm.Reset(); break;
      }
      if (bm.endless) break;
      cmds += std::string(" ") + cmd;
      Case(text + cmds);
      switch (cmd)
      {
      case 'g': local ? job->Start() : runner->Start(); break;
      case 's': local ? job->Step() : runner->Step(); break;
      case 'h': local ? job->Halt() : runner->Halt(); break;
      default: local ? job->Reset() : runner->Reset(); break;
      }
      ok = WaitUntil([&] { return Observed(tr.Get(), ids).size() >= bm.out.size(); }, 60);
      // a job that goes on for longer than predicted shows more
      if (ok && (bm.state == 'P' || r.chance(1, 8))) std::this_thread::sleep_for(std::chrono::microseconds(150));
      auto seen = Observed(tr.Get(), ids);
      if (seen != bm.out)
      {
        Violation("bp:sequence", "commands" + cmds + (local ? " (local job)" : "") + " on " + text + " gave " + seen + " instead of " + bm.out);
        ok = false;
      }
      // the instructions carrying a breakpoint that stopped the job are known
    }
    if (ok && !bm.endless && !local)
    {
      auto changes = ui.trace.Of(K::kBreak);
      HX_CHECK(static_cast<long>(changes.size()) == breaks_expected, "bp:notified", "commands" << cmds << " on " << text << " notified " << changes.size() << " breakpoint changes instead of " << breaks_expected);
    }
    if (ok && !bm.endless && local)
    {
      auto obs = io.Get();
      for (auto& [i, idx] : index)
      {
        bool want = bm.bps.count(ids[i]) > 0;
        bool have = obs.instr.count(idx) && obs.instr[idx].m_breakpoint_set;
        HX_CHECK(want == have, "bp:shown", "commands" << cmds << " on " << text << ": breakpoint of instruction " << ids[i] << " is shown as " << have);
      }
    }
    job.reset();
    runner.reset();
    if (ok && !bm.endless)
    {
      auto seen = Observed(tr.Get(), ids);
      // the destruction halts: nothing else may have happened
      HX_CHECK(seen == bm.out, "bp:sequence", "commands" << cmds << " on " << text << " gave " << seen << " instead of " << bm.out);
      Count("pauses at breakpoints", bm.hits);
      if (bm.hits) Distinct(text + cmds);
      Sample(text + cmds + " -> " + bm.out);
    }
    SetTrace(nullptr);
    Eval();
    Beat();
  }
}

// branches of a parallel sequence, each leaf executed once
void Parallel()
{
  Section s("parallel");
  if (!s.run) return;
  Rng r(Opt().seed * 71 + 9);
  long n = Scale(250, 10, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    int B = r.range(1, 4);
    std::vector<Spec> br;
    std::vector<std::vector<std::string>> names;
    for (int b = 0; b < B; ++b)
    {
      std::vector<Spec> ch;
      names.emplace_back();
      int L = r.range(1, 4);
      for (int i = 0; i < L; ++i)
      {
        names.back().push_back(std::string(1, static_cast<char>('A' + b)) + std::to_string(i));
        ch.push_back(Leaf(names.back().back(), r.chance(1, 4) ? "NS" : "S").Set("us", "100"));
      }
      br.push_back(Comp("Sequence", ch));
    }
    auto spec = Comp("ParallelSequence", br);
    ProcSpec p;
    p.roots = {spec};
    p.attrs = {{"tickTimeout", "0.0001"}};
    auto proc = BuildProc(p);
    RecUI ui;
    SetTrace(&ui.trace);
    std::set<std::string> bp;
    std::string text = ToText(spec) + " breakpoints";
    {
      AsyncRunner runner(*proc, ui);
      for (auto i : Preorder(proc->RootInstruction()))
        if (i->GetType() == "HxLeaf" && r.chance(1, 3))
        {
          bp.insert(i->GetAttributeString("id"));
          text += " " + i->GetAttributeString("id");
          runner.SetBreakpoint(i);
        }
      Case(text);
      PerturbOn(r.next(), 16, 60);
      runner.Start();
      double limit = Now() + 60;
      while (Now() < limit)
      {
        if (!ui.WaitState([](JobState st) { return IsFinishedJobState(st) || st == JobState::kPaused; }, 60)) break;
        if (IsFinishedJobState(ui.State())) break;
        long before = static_cast<long>(ui.trace.Of(K::kState).size());
        if (r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(500)));
        runner.Start();
        if (!WaitUntil([&] { return static_cast<long>(ui.trace.Of(K::kState).size()) > before; }, 60)) break;
      }
      PerturbOff();
      HX_CHECK(ui.State() == JobState::kSucceeded, "bp:parallel-end", text << " ended in state " << StateChar(ui.State()));
    }
    auto evs = ui.trace.Get();
    long pauses = 0;
    std::map<std::string, size_t> first_enter, last_exit;
    for (size_t x = 0; x < evs.size(); ++x)
    {
      if (evs[x].kind == K::kState && evs[x].num == static_cast<int>(JobState::kPaused)) ++pauses;
      if (evs[x].kind == K::kEnter && !first_enter.count(evs[x].id)) first_enter[evs[x].id] = x;
      if (evs[x].kind == K::kExit) last_exit[evs[x].id] = x;
    }
    for (auto& branch : names)
      for (size_t i = 0; i < branch.size(); ++i)
        if (bp.count(branch[i]) && first_enter.count(branch[i]))
        {
          size_t from = i ? last_exit[branch[i - 1]] : 0;
          bool paused = false;
          for (size_t x = from; x < first_enter[branch[i]]; ++x)
            paused = paused || (evs[x].kind == K::kState && evs[x].num == static_cast<int>(JobState::kPaused));
          HX_CHECK(paused, "bp:parallel-missed", text << ": leaf " << branch[i] << " was executed without a pause before it");
          Count("leaves with a breakpoint in parallel branches");
        }
    // a leaf that stays not finished is announced again and stops the job again
    long most = 0;
    for (auto& b : br)
      for (auto& l : b.ch)
        if (bp.count(l.Attr("id"))) most += static_cast<long>(l.Attr("script").size());
    HX_CHECK(pauses <= most, "bp:parallel-extra", text << ": " << pauses << " pauses");
    if (bp.empty()) HX_CHECK(pauses == 0, "bp:parallel-extra", text << ": " << pauses << " pauses");
    SetTrace(nullptr);
    Eval();
    if (!bp.empty()) Distinct(text);
    Beat();
  }
}

// other threads set and remove breakpoints elsewhere while the job runs
void Concurrent()
{
  Section s("concurrent");
  if (!s.run) return;
  Rng r(Opt().seed * 83 + 5);
  long n = Scale(150, 10, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    int L = r.range(4, 12);
    std::vector<Spec> ch;
    for (int i = 0; i < L; ++i) ch.push_back(Leaf("L" + std::to_string(i), r.chance(1, 4) ? "NS" : "S").Set("us", "60"));
    auto spec = Comp("Sequence", ch);
    ProcSpec p;
    p.roots = {spec};
    auto proc = BuildProc(p);
    auto nodes = Preorder(proc->RootInstruction());
    RecUI ui;
    SetTrace(&ui.trace);
    std::set<int> fixed;
    int m = r.range(1, 3);
    while (static_cast<int>(fixed.size()) < m) fixed.insert(r.range(1, L - 1));
    std::string text = std::to_string(L) + " leaves, breakpoints at";
    for (auto f : fixed) text += " " + std::to_string(f);
    Case(text);
    PerturbOn(r.next(), 12, 50);
    {
      AsyncRunner runner(*proc, ui);
      for (auto f : fixed) runner.SetBreakpoint(nodes[static_cast<size_t>(f) + 1]);
      std::atomic<bool> stop{false};
      std::vector<std::thread> th;
      for (int t = 0; t < 2; ++t)
        th.emplace_back([&, seed = r.next()] {
          Rng q(seed);
          while (!stop)
          {
            int i = q.range(0, L - 1);
            if (fixed.count(i)) continue;
            auto instr = nodes[static_cast<size_t>(i) + 1];
            if (q.chance(1, 2)) runner.SetBreakpoint(instr);
            else runner.RemoveBreakpoint(instr);
          }
        });
      double limit = Now() + 60;
      while (Now() < limit && !IsFinishedJobState(ui.State()))
      {
        runner.Start();
        ui.WaitState([](JobState st) { return IsFinishedJobState(st) || st == JobState::kPaused; }, 0.002);
      }
      stop = true;
      for (auto& t : th) t.join();
      HX_CHECK(ui.State() == JobState::kSucceeded, "bp:concurrent-end", text << " ended in state " << StateChar(ui.State()));
    }
    DistinctHash(InterleavingHash());
    PerturbOff();
    auto evs = ui.trace.Get();
    bool paused = false;
    std::string order;
    std::set<int> met;
    for (auto& e : evs)
    {
      if (e.kind == K::kState) paused = paused || e.num == static_cast<int>(JobState::kPaused);
      if (e.kind == K::kEnter)
      {
        int i = std::atoi(e.id.c_str() + 1);
        if (fixed.count(i) && !met.count(i)) HX_CHECK(paused, "bp:concurrent-missed", text << ": leaf " << i << " was executed without a pause before it");
        met.insert(i);
      }
      if (e.kind == K::kExit) paused = false;
    }
    SetTrace(nullptr);
    Eval();
    Count("breakpoint changes while running", static_cast<long>(ui.trace.Of(K::kBreak).size()));
    Beat();
  }
}

// the first instructions of the body of a loop, in every iteration
void Loops()
{
  Section s("loops");
  if (!s.run) return;
  for (auto type : {"Repeat", "For"})
    for (int at = 0; at < 3; ++at)
      for (int iterations = 2; iterations <= 4; ++iterations)
      {
        ProcSpec p;
        auto body = Comp("Sequence", {Leaf("A", "S"), Leaf("B", "S")});
        Spec spec = Comp(type, {body});
        if (std::string(type) == "Repeat") spec.Set("maxCount", std::to_string(iterations));
        else
        {
          std::string arr = "[0";
          for (int i = 1; i < iterations; ++i) arr += "," + std::to_string(i);
          p.vars = {LocalVar("arr", "{\"type\":\"\",\"element\":{\"type\":\"int32\"}}", arr + "]"), LocalVar("el", "int32", "0")};
          spec.Set("arrayVar", "arr").Set("elementVar", "el");
        }
        p.roots = {spec};
        auto proc = BuildProc(p);
        auto nodes = Preorder(proc->RootInstruction());
        RecUI ui;
        SetTrace(&ui.trace);
        Case(ToText(spec) + " breakpoint at " + std::to_string(at));
        {
          AsyncRunner runner(*proc, ui);
          runner.SetBreakpoint(nodes[static_cast<size_t>(at) + 1]);   // the body, its first leaf, its second leaf
          double limit = Now() + 60;
          while (!IsFinishedJobState(ui.State()) && Now() < limit)
          {
            long before = static_cast<long>(ui.trace.Of(K::kState).size());
            runner.Start();
            WaitUntil([&] { return static_cast<long>(ui.trace.Of(K::kState).size()) >= before + 2; }, 60);
          }
        }
        std::string seen;
        for (auto& e : ui.trace.Get())
        {
          if (e.kind == K::kState && e.num == static_cast<int>(JobState::kPaused)) seen += "P";
          if (e.kind == K::kEnter) seen += e.id;
        }
        std::string want;
        for (int i = 0; i < iterations; ++i) want += at == 0 ? "PAPB" : at == 1 ? "PAB" : "APB";
        HX_CHECK(seen == want, std::string("bp:loop-") + type + "-" + (at == 0 ? "body" : at == 1 ? "first" : "second"),
                 "breakpoint at " << (at == 0 ? "the body" : at == 1 ? "the first leaf" : "the second leaf") << " of " << ToText(spec) << " gave " << seen << " instead of " << want);
        SetTrace(nullptr);
        Eval();
        Beat();
      }
}

// a runner that has not been given a procedure has nothing to run; one given another procedure forgets the first
void Unset()
{
  Section s("unset");
  if (!s.run) return;
  Rng r(Opt().seed + 91);
  for (int k = 0; k < 200 && !TooMany(); ++k)
  {
    RecUI ui;
    ProcSpec p;
    p.roots = {Comp("Sequence", {Leaf("a", "S"), Leaf("b", "S")})};
    auto one = BuildProc(p), two = BuildProc(p);
    auto leaf = [](Procedure& q) { return q.RootInstruction()->ChildInstructions()[1]; };
    Runner runner{ui};
    long ticks = 0;
    runner.SetTickCallback([&](const Procedure&) { ++ticks; });
    auto refused = [&](const Instruction* i)
    {
      try { runner.SetBreakpoint(i); }
      catch (const InvalidOperationException&) { return true; }
      return false;
    };
    for (int n = r.range(1, 12); n > 0; --n)
      switch (r.below(6))
      {
      case 0: HX_CHECK(refused(r.chance(1, 2) ? nullptr : leaf(*one)), "unset:set", "a breakpoint is accepted without a procedure"); break;
      case 1: HX_CHECK(!runner.RemoveBreakpoint(leaf(*one)) && runner.GetBreakpoints().empty(), "unset:list", ""); break;
      case 2: runner.ExecuteProcedure(); break;
      case 3: runner.ExecuteSingle(); break;
      case 4: if (r.chance(1, 2)) runner.Halt(); else runner.Pause(); break;
      default: runner.ResetBreakpoints(); break;
      }
    HX_CHECK(ticks == 0 && runner.IsFinished() && !runner.IsRunning(), "unset:state", "");
    runner.SetProcedure(one.get());
    HX_CHECK(refused(nullptr) && refused(leaf(*two)), "unset:set", "a breakpoint outside of the procedure is accepted");
    HX_CHECK(runner.SetBreakpoint(leaf(*one)) && !runner.SetBreakpoint(leaf(*one)), "unset:set-twice", "");
    bool early = r.chance(1, 2);
    if (early)
    {
      runner.ExecuteProcedure();
      HX_CHECK(ticks == 1 && !runner.IsFinished() && runner.GetCurrentBreakpointInstructions() == std::vector<const Instruction*>{leaf(*one)}, "unset:stop", ticks << " ticks");
      one->Reset(ui);
    }
    runner.SetProcedure(two.get());
    HX_CHECK(runner.GetBreakpoints().empty() && refused(leaf(*one)), "unset:forgets", "the breakpoints of the former procedure are kept");
    ticks = 0;
    runner.ExecuteProcedure();
    HX_CHECK(ticks == 2 && runner.IsFinished() && two->GetStatus() == ES::SUCCESS && one->GetStatus() == ES::NOT_STARTED, "unset:second", ticks << " ticks");
    HX_CHECK(runner.GetCurrentBreakpointInstructions().empty(), "unset:current", "");
    two->Reset(ui);
    Eval();
    Count("runners without a procedure, then with two in turn");
    Beat();
  }
}

// breakpoints on instructions that are only there after the setup
void Included()
{
  Section s("included");
  if (!s.run) return;
  Rng r(Opt().seed + 77);
  for (int k = 0; k < 300 && !TooMany(); ++k)
  {
    ProcSpec p;
    int before = r.range(0, 2), inside = r.range(1, 3), levels = r.range(1, 3);
    Spec main = Comp("Sequence", {});
    for (int i = 0; i < before; ++i) main.ch.push_back(Leaf("a" + std::to_string(i), "S"));
    auto include = [](const std::string& path) { Spec i = Comp("Include", {}); i.Set("path", path); return i; };
    main.ch.push_back(include("sub0"));
    main.ch.push_back(Leaf("z", "S"));
    main.Set("isRoot", "true");
    p.roots = {main};
    for (int l = 0; l < levels; ++l)
    {
      Spec sub = Comp("Sequence", {});
      sub.Set("name", "sub" + std::to_string(l));
      for (int i = 0; i < inside; ++i) sub.ch.push_back(Leaf("s" + std::to_string(l) + std::to_string(i), "S"));
      if (l + 1 < levels) sub.ch.push_back(include("sub" + std::to_string(l + 1)));
      p.roots.push_back(sub);
    }
    auto proc = BuildProc(p);
    RecUI ui;
    Runner runner{ui};
    runner.SetProcedure(proc.get());
    std::vector<Instruction*> leaves;
    for (auto i : Preorder(proc->RootInstruction()))
      if (i->ChildInstructions().empty()) leaves.push_back(i);
    std::string text = std::to_string(before) + "+" + std::to_string(levels) + "x" + std::to_string(inside) + ":";
    std::set<const Instruction*> bp;
    for (auto i : leaves)
      if (r.chance(1, 3))
      {
        bp.insert(i);
        bool set = false;
        try { set = runner.SetBreakpoint(i); }
        catch (const std::exception&) {}
        HX_CHECK(set, "bp:included", text << " refuses a breakpoint on " << i->GetAttributeString("id"));
        text += " " + i->GetAttributeString("id");
      }
    std::vector<const Instruction*> stops, want;
    for (auto i : leaves)
      if (bp.count(i)) want.push_back(i);
    for (int n = 0; n < 40 && !runner.IsFinished(); ++n)
    {
      runner.ExecuteProcedure();
      auto cur = runner.GetCurrentBreakpointInstructions();
      if (cur.size() == 1) { stops.push_back(cur[0]); HX_CHECK(cur[0]->GetStatus() == ES::NOT_STARTED, "bp:included", text << ": stopped after " << cur[0]->GetAttributeString("id")); }
      else HX_CHECK(cur.empty() && runner.IsFinished(), "bp:included", text << ": " << cur.size() << " breakpoints at once");
    }
    HX_CHECK(stops == want && proc->GetStatus() == ES::SUCCESS, "bp:included", text << ": " << stops.size() << " pauses for " << want.size() << " breakpoints");
    proc->Reset(ui);
    Eval();
    Distinct("included " + text);
    Count("breakpoints on included instructions");
    Beat();
  }
}
}  // namespace

HX_MAIN([] {
  Rule("a distinct case is a procedure with its breakpoints and commands in which the job paused at a breakpoint, or a distinct order of lock operations");
  Sync();
  Parallel();
  Concurrent();
  Loops();
  Unset();
  Included();
})

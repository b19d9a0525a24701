// Job control protocol: predicted state sequences, and a trace automaton under concurrent commands.
#include "fx.h"

using namespace fx;
using namespace hx;

namespace
{
enum Cmd { kGo, kStp, kPau, kRes, kHlt };
const char* const kLetters = "gsprh";

char StateChar(JobState s)
{
  switch (s)
  {
  case JobState::kInitial: return 'I';
  case JobState::kPaused: return 'P';
  case JobState::kStepping: return 'T';
  case JobState::kRunning: return 'R';
  case JobState::kSucceeded: return 'S';
  case JobState::kFailed: return 'F';
  case JobState::kHalted: return 'H';
  }
  return '?';
}

// The protocol, for synchronous procedures and commands that are all queued before the tick in
// progress ends (or given when the job is idle).
struct Protocol
{
  Protocol(const Spec& s, const ModelVars& mv) : spec(s), m(s, mv), vars(mv) {}
  const Spec& spec;
  Model m;
  ModelVars vars;
  std::string out = "I";     // state letters, with the executed leaves in between
  char state = 'I';
  long ticks = 0;
  std::deque<int> queue;
  bool endless = false;

  void To(char s) { state = s; out += s; }
  void Tick()
  {
    m.TakeEvents();
    m.Tick();
    ++ticks;
    for (auto& e : m.TakeEvents())
      if (e.kind == 'X') out += "." + std::to_string(e.id);
  }
  bool Final()
  {
    if (!IsFinishedStatus(m.Status())) return false;
    To(m.Status() == ES::SUCCESS ? 'S' : 'F');
    return true;
  }
  void Run()
  {
    long n = 0;
    while (true)
    {
      Tick();
      if (++n > 400) { endless = true; return; }
      if (Final()) return;
      if (queue.empty()) continue;
      int c = queue.front();
      queue.pop_front();
      if (c == kPau || c == kStp) { To('P'); return; }
      if (c == kHlt) { To('H'); return; }
    }
  }
  void Drain()
  {
    while (!queue.empty() && !endless)
    {
      int c = queue.front();
      queue.pop_front();
      bool idle = state == 'I' || state == 'P';
      if (idle && c == kGo) { To('R'); Run(); }
      else if (idle && c == kStp)
      {
        To('T');
        Tick();
        if (!Final()) To('P');
      }
      else if (idle && c == kHlt) To('H');
      else if (!idle && c == kRes)
      {
        m.Reset();
        m.TakeEvents();
        To('I');
      }
    }
  }
};

std::string Observed(const std::vector<Ev>& evs, const std::map<const Instruction*, int>& ids)
{
  std::string s;
  for (auto& e : evs)
  {
    if (e.kind == K::kState) s += StateChar(static_cast<JobState>(e.num));
    if (e.kind == K::kEnter)
    {
      auto it = ids.find(e.instr);
      s += "." + (it == ids.end() ? "?" : std::to_string(it->second));
    }
  }
  return s;
}

struct Setup
{
  ProcSpec p;
  ModelVars mv;
  Spec spec;
};
Setup RandomSetup(Rng& r, bool small)
{
  Setup s;
  GenOpt o;
  o.max_nodes = small ? r.range(2, 8) : r.range(2, 14);
  o.max_depth = r.range(1, 4);
  o.multi_run = false;
  o.init_failures = false;
  s.spec = GenTree(r, o, s.p, s.mv);
  s.p.roots = {s.spec};
  s.p.attrs = {{"tickTimeout", "0.0001"}};
  return s;
}

// commands given to an idle job, one by one
void Idle()
{
  Section s("idle");
  if (!s.run) return;
  Rng r(Opt().seed * 17 + 3);
  long n = Scale(1500, 12, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    auto su = RandomSetup(r, true);
    auto text = ToText(su.spec);
    bool local = k % 3 == 2;
    RecUI ui;
    ui.record_var = false;
    RecJobIO io;
    auto proc = BuildProc(su.p);
    std::map<const Instruction*, int> ids;
    auto nodes = Preorder(proc->RootInstruction());
    for (size_t x = 0; x < nodes.size(); ++x) ids[nodes[x]] = static_cast<int>(x);
    Protocol pr(su.spec, su.mv);
    std::string cmds;
    Trace& tr = local ? io.trace : ui.trace;
    SetTrace(&tr);
    {
      std::unique_ptr<AsyncRunner> runner;
      std::unique_ptr<LocalJob> job;
      if (local)
      {
        job = std::make_unique<LocalJob>(std::move(proc), io);
        if (r.chance(1, 3))
        {
          LocalJob other(std::move(*job));   // a job can be moved
          *job = std::move(other);
        }
      }
      else runner = std::make_unique<AsyncRunner>(*proc, ui);
      bool undrained = false;   // a command the job ignores may still be queued
      int count = r.range(1, 12);
      for (int c = 0; c < count; ++c)
      {
        int w = static_cast<int>(r.below(10));
        int cmd = w < 2 ? kGo : w < 5 ? kStp : w < 6 ? kPau : w < 8 ? kRes : kHlt;
        if (cmd == kHlt && undrained) cmd = kStp;   // a halt overtakes what is queued
        auto before = pr.out;
        pr.queue.push_back(cmd);
        pr.Drain();
        if (pr.endless) break;
        cmds += kLetters[cmd];
        Case(text + " commands " + cmds + (local ? " local" : ""));
        switch (cmd)
        {
        case kGo: local ? job->Start() : runner->Start(); break;
        case kStp: local ? job->Step() : runner->Step(); break;
        case kPau: local ? job->Pause() : runner->Pause(); break;
        case kRes: local ? job->Reset() : runner->Reset(); break;
        case kHlt: local ? job->Halt() : runner->Halt(); break;
        }
        if (pr.out == before)
        {
          undrained = true;
          continue;
        }
        undrained = false;
        auto done = [&] { return Observed(tr.Get(), ids).size() >= pr.out.size(); };
        if (!WaitUntil(done, 60))
        {
          Violation("job:stuck", "after commands " + cmds + " the job " + text + " shows " + Observed(tr.Get(), ids) + " instead of " + pr.out);
          break;
        }
        if (cmd == kRes)
        {
          for (auto i : nodes) HX_CHECK(i->GetStatus() == ES::NOT_STARTED, "job:reset-status", text << " commands " << cmds);
        }
      }
      if (!pr.endless)
      {
        // every command before this one has been handled when this one is: an ignored command
        // must not show any effect later on
        int last = pr.state == 'I' || pr.state == 'P' ? kStp : kRes;
        pr.queue.push_back(last);
        pr.Drain();
        cmds += kLetters[last];
        Case(text + " commands " + cmds);
        if (last == kStp) local ? job->Step() : runner->Step();
        else local ? job->Reset() : runner->Reset();
        auto done = [&] { return Observed(tr.Get(), ids).size() >= pr.out.size(); };
        HX_CHECK(WaitUntil(done, 60), "job:stuck", "after commands " << cmds << " the job " << text << " shows " << Observed(tr.Get(), ids) << " instead of " << pr.out);
        job.reset();
        runner.reset();
        auto seen = Observed(tr.Get(), ids);
        HX_CHECK(seen == pr.out, "job:sequence", "commands " << cmds << (local ? " (local job)" : "") << " on " << text << " gave " << seen << " instead of " << pr.out);
        auto ticks = static_cast<long>(tr.Of(K::kTick).size());
        HX_CHECK(ticks == pr.ticks, "job:ticks", "commands " << cmds << " on " << text << " executed " << pr.ticks << " ticks but " << ticks << " were notified");
        Count("state changes", static_cast<long>(tr.Of(K::kState).size()));
        Count("ticks", ticks);
        Distinct(text + cmds);
        Sample(text + " commands " + cmds + " -> " + pr.out);
      }
    }
    SetTrace(nullptr);
    Eval();
    Beat();
  }
}

// commands given while a tick is in progress
void Blocked()
{
  Section s("blocked");
  if (!s.run) return;
  Rng r(Opt().seed * 29 + 5);
  long n = Scale(700, 12, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    CloseGates();
    int L = r.range(2, 6);
    std::vector<Spec> ch;
    for (int i = 0; i < L; ++i)
    {
      auto leaf = Leaf("L" + std::to_string(i), r.chance(1, 6) ? "F" : r.chance(1, 4) ? "NS" : r.chance(1, 6) ? "RS" : "S");
      leaf.Set("gate", "g" + std::to_string(i));
      ch.push_back(leaf);
    }
    auto spec = Comp(r.chance(1, 4) ? "Fallback" : "Sequence", ch);
    if (r.chance(1, 4)) spec = Comp("Repeat", {spec}).Set("maxCount", "2");
    Number(spec);
    ProcSpec p;
    p.roots = {spec};
    p.attrs = {{"tickTimeout", "0.0001"}};
    auto text = ToText(spec);
    int stop = r.range(0, L - 1);
    std::vector<int> cmds;
    int count = r.range(1, 5);
    for (int c = 0; c < count; ++c) cmds.push_back(static_cast<int>(r.below(4)));
    std::string ctext;
    for (auto c : cmds) ctext += kLetters[c];
    // prediction: run until leaf `stop` is entered, then the queue holds the commands
    Protocol pr(spec, {});
    pr.To('R');
    int target = -1;
    {
      int id = 0;
      std::function<void(const Spec&)> walk = [&](const Spec& x) {
        if (x.Attr("id") == "L" + std::to_string(stop)) target = id;
        ++id;
        for (auto& c : x.ch) walk(c);
      };
      walk(spec);
    }
    bool reached = false, over = false;
    while (!reached && !over)
    {
      auto from = pr.out.size();
      pr.Tick();
      reached = pr.out.find("." + std::to_string(target), from) != std::string::npos;
      if (pr.Final()) over = true;
      if (!over && reached)
      {
        for (auto c : cmds) pr.queue.push_back(c);
        // the first command is taken at the end of this tick
        int c = pr.queue.front();
        pr.queue.pop_front();
        if (c == kPau || c == kStp) pr.To('P');
        else pr.Run();
      }
      else if (over && reached)
        for (auto c : cmds) pr.queue.push_back(c);
    }
    if (!reached) continue;
    pr.Drain();
    if (pr.endless) continue;
    // commands that are ignored show nothing: the last command, given later, always does something
    auto first_part = pr.out;
    int last = pr.state == 'I' || pr.state == 'P' ? kStp : kRes;
    pr.queue.push_back(last);
    pr.Drain();
    Case(text + " blocked in L" + std::to_string(stop) + " commands " + ctext);
    auto proc = BuildProc(p);
    RecUI ui;
    SetTrace(&ui.trace);
    std::map<const Instruction*, int> ids;
    auto nodes = Preorder(proc->RootInstruction());
    for (size_t x = 0; x < nodes.size(); ++x) ids[nodes[x]] = static_cast<int>(x);
    {
      AsyncRunner runner(*proc, ui);
      for (int i = 0; i < stop; ++i) OpenGate("g" + std::to_string(i));
      runner.Start();
      WaitUntil([&] {
        for (auto& e : ui.trace.Of(K::kEnter))
          if (e.id == "L" + std::to_string(stop)) return true;
        return false;
      }, 60);
      for (auto c : cmds)
        switch (c)
        {
        case kGo: runner.Start(); break;
        case kStp: runner.Step(); break;
        case kPau: runner.Pause(); break;
        default: runner.Reset(); break;
        }
      // the job is still inside the leaf: nothing has happened
      HX_CHECK(ui.trace.Of(K::kState).size() == 2, "job:during-tick", text << " changed state during a tick");
      for (int i = 0; i < L; ++i) OpenGate("g" + std::to_string(i));
      WaitUntil([&] { return Observed(ui.trace.Get(), ids).size() >= first_part.size(); }, 60);
      if (last == kStp) runner.Step();
      else runner.Reset();
      WaitUntil([&] { return Observed(ui.trace.Get(), ids).size() >= pr.out.size(); }, 60);
    }
    auto seen = Observed(ui.trace.Get(), ids);
    HX_CHECK(seen == pr.out, "job:queued", "commands " << ctext << kLetters[last] << " given inside leaf " << stop << " of " << text << " gave " << seen << " instead of " << pr.out);
    Distinct(text + ctext + std::to_string(stop));
    Sample(text + " in L" + std::to_string(stop) + " commands " + ctext + kLetters[last] + " -> " + pr.out);
    SetTrace(nullptr);
    Eval();
    Beat();
  }
}

// any number of clients, any timing: the trace automaton
void Free()
{
  Section s("free");
  if (!s.run) return;
  Rng r(Opt().seed * 41 + 7);
  long n = Scale(900, 12, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    auto su = RandomSetup(r, false);
    auto text = ToText(su.spec);
    RecUI ui;
    ui.record_var = false;
    SetTrace(&ui.trace);
    auto proc = BuildProc(su.p);
    std::map<const Instruction*, int> ids;
    auto nodes = Preorder(proc->RootInstruction());
    for (size_t x = 0; x < nodes.size(); ++x) ids[nodes[x]] = static_cast<int>(x);
    int clients = r.range(1, 3);
    std::vector<std::string> scripts;
    for (int c = 0; c < clients; ++c)
    {
      std::string t;
      int m = r.range(2, 16);
      for (int x = 0; x < m; ++x) t += "ggsspprrh"[r.below(9)];
      scripts.push_back(t);
    }
    std::string all;
    for (auto& t : scripts) all += " " + t;
    Case(text + " clients" + all);
    PerturbOn(r.next(), 16, 60);
    {
      AsyncRunner runner(*proc, ui);
      std::vector<std::thread> th;
      for (int c = 0; c < clients; ++c)
        th.emplace_back([&, c, seed = r.next()] {
          Rng q(seed);
          for (char ch : scripts[static_cast<size_t>(c)])
          {
            Ev e;
            e.kind = K::kMark;
            e.num = ch;
            ui.trace.Add(std::move(e));
            switch (ch)
            {
            case 'g': runner.Start(); break;
            case 's': runner.Step(); break;
            case 'p': runner.Pause(); break;
            case 'r': runner.Reset(); break;
            default:
              runner.Halt();
              e = Ev();
              e.kind = K::kMark;
              e.num = 'e';   // the call has returned
              ui.trace.Add(std::move(e));
              break;
            }
            if (q.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(400)));
          }
        });
      for (auto& t : th) t.join();
      // whatever happened, the job still answers: halt it, reset it, step it
      auto mark = [&](char c) {
        Ev e;
        e.kind = K::kMark;
        e.num = c;
        ui.trace.Add(std::move(e));
      };
      if (r.chance(2, 3))
      {
        double limit = Now() + 60;
        bool fin = false;
        while (!fin && Now() < limit)
        {
          mark('h');
          runner.Halt();
          mark('e');
          fin = ui.WaitFinished(0.05);
        }
        HX_CHECK(fin, "job:no-halt", text << " with clients" << all << " does not halt");
        // wait for commands queued behind to be ignored or taken, then reset
        limit = Now() + 60;
        bool init = false;
        while (!init && Now() < limit)
        {
          mark('r');
          runner.Reset();
          init = ui.WaitState([](JobState s) { return s == JobState::kInitial; }, 0.05);
          if (!init && !IsFinishedJobState(ui.State())) { mark('h'); runner.Halt(); mark('e'); }
        }
        HX_CHECK(init, "job:no-reset", text << " with clients" << all << " does not reset");
        Count("halted, reset");
      }
      mark('h');   // the destruction halts
    }
    DistinctHash(InterleavingHash());
    PerturbOff();
    // the automaton
    auto evs = ui.trace.Get();
    Model m(su.spec, su.mv);
    std::map<char, long> given, states;
    char st = '0';
    bool halted = false;      // a halt was called since the last reset
    long ticks_in_step = -1;
    long in_flight = 0;       // halt calls that have not returned
    std::string enters, path;
    ES root = ES::NOT_STARTED;
    bool bad = false;
    auto fail = [&](const std::string& key, const std::string& d) {
      if (bad) return;
      bad = true;
      std::string tail;
      for (size_t x = evs.size() > 120 ? evs.size() - 120 : 0; x < evs.size(); ++x)
      {
        auto& v = evs[x];
        if (v.kind == K::kMark) tail += std::string(" ") + static_cast<char>(v.num);
        if (v.kind == K::kEnter) tail += " ." + std::to_string(ids[v.instr]);
        if (v.kind == K::kTick) tail += " |";
        if (v.kind == K::kStatus) tail += " " + std::to_string(ids[v.instr]) + StatusChar(v.st);
        if (v.kind == K::kState) tail += std::string(" [") + StateChar(static_cast<JobState>(v.num)) + "]";
      }
      Violation("job:" + key, d + "; latest events:" + tail + "; states so far " + path + " of " + text + " with clients" + all);
    };
    for (auto& e : evs)
    {
      if (bad) break;
      if (e.kind == K::kMark)
      {
        ++given[static_cast<char>(e.num)];
        if (e.num == 'h') { halted = true; ++in_flight; }
        if (e.num == 'e') --in_flight;
      }
      else if (e.kind == K::kStatus && e.instr == nodes[0]) root = e.st;
      else if (e.kind == K::kEnter)
      {
        if (st != 'R' && st != 'T') fail("executes", std::string("a leaf is executed in state ") + st);
        enters += "." + std::to_string(ids[e.instr]);
      }
      else if (e.kind == K::kTick)
      {
        if (st == 'T') ++ticks_in_step;
        m.TakeEvents();
        m.Tick();
        std::string want;
        for (auto& x : m.TakeEvents())
          if (x.kind == 'X') want += "." + std::to_string(x.id);
        bool ok = halted ? want.compare(0, enters.size(), enters) == 0 : want == enters;
        if (!ok) fail("executed", "a tick executed [" + enters + "] instead of [" + want + "]");
        if (halted && want != enters)
        {
          // the rest of this run is cut short by the halt: only resynchronise at the next reset
          want.clear();
        }
        enters.clear();
      }
      else if (e.kind == K::kState)
      {
        char to = StateChar(static_cast<JobState>(e.num));
        std::string step = std::string(1, st) + to;
        path += to;
        static const std::set<std::string> allowed{"0I", "IR", "IT", "IH", "TP", "TS", "TF", "RP", "RS", "RF", "RH", "PR", "PT", "PH", "SI", "FI", "HI"};
        if (!allowed.count(step)) fail("transition", "state changed " + step);
        ++states[to];
        if (states['R'] > given['g']) fail("unasked", "running without a start command");
        if (states['T'] > given['s']) fail("unasked", "stepping without a step command");
        if (states['H'] > given['h']) fail("unasked", "halted without a halt command");
        if (states['I'] - 1 > given['r']) fail("unasked", "reset without a reset command");
        if (step == "RP" && ++states['x'] > given['p'] + given['s']) fail("unasked", "paused without a command");
        if (st == 'T' && ticks_in_step != 1) fail("step-ticks", "a step executed " + std::to_string(ticks_in_step) + " ticks");
        if (to == 'T') ticks_in_step = 0;
        if (to == 'S' && root != ES::SUCCESS) fail("result", "the job succeeded but its procedure is " + std::string(1, StatusChar(root)));
        if (to == 'F' && root != ES::FAILURE) fail("result", "the job failed but its procedure is " + std::string(1, StatusChar(root)));
        if (to == 'I' && root != ES::NOT_STARTED) fail("reset", "the job was reset but its procedure is " + std::string(1, StatusChar(root)));
        if (to == 'I' && st != '0')
        {
          m.Reset();
          m.TakeEvents();
          enters.clear();
          // a halt called before the reset has no effect any more, one called during it may have
          halted = in_flight > 0;
          for (auto it = &e; it >= &evs.front(); --it)
          {
            if (it->kind == K::kMark && (it->num == 'h' || it->num == 'e')) { halted = true; break; }
            if (it->kind == K::kState && it != &e) break;
          }
        }
        st = to;
      }
    }
    Count("state changes", states['I'] + states['P'] + states['T'] + states['R'] + states['S'] + states['F'] + states['H']);
    Count("commands", given['g'] + given['s'] + given['p'] + given['r'] + given['h']);
    if (states['H'] && states['P']) Count("histories with a pause and a halt");
    Distinct(path);
    SetTrace(nullptr);
    Eval();
    Sample(text + " clients" + all + " -> " + path);
    Beat();
  }
}
}  // namespace

HX_MAIN([] {
  Rule("a distinct case is a procedure with its commands (idle, blocked), or (free) a distinct order of lock operations or sequence of job states");
  Idle();
  Blocked();
  Free();
})

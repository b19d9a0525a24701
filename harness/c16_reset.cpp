// Reset: a run after a reset equals the run of a fresh copy.
#include "full.h"

using namespace fx;
using namespace hx;

namespace
{
struct Recorder
{
  std::map<const Instruction*, int> ids;
  Trace leaf;
  std::vector<std::string> ev;
  std::string var;

  static std::string Text(const Ev& e, std::map<const Instruction*, int>& ids)
  {
    std::string s = std::to_string(static_cast<int>(e.kind));
    if (e.instr)
    {
      auto it = ids.find(e.instr);
      s += " #" + (it == ids.end() ? "?" : std::to_string(it->second));
    }
    return s + " " + StatusChar(e.st) + " " + e.name + " " + e.id + " " + e.text + (e.flag ? " +" : "");
  }
};

// Deterministic replies: the n-th request of a run gets the n-th reply.
struct Policy
{
  uint64_t seed;
  int n = 0;
  std::unique_ptr<IUserInputFuture> operator()(const UserInputRequest& rq)
  {
    Rng r(seed * 1000 + static_cast<uint64_t>(__atomic_fetch_add(&n, 1, __ATOMIC_RELAXED)));
    UserInputReply rep;
    if (rq.m_request_type == InputRequestType::kUserChoice) rep = CreateUserChoiceReply(!r.chance(1, 8), r.range(-1, 2));
    else
    {
      sup::dto::AnyValue v;
      std::string d;
      ParseUserValueRequest(rq, v, d);
      rep = CreateUserValueReply(!r.chance(1, 6), v);
    }
    return std::make_unique<ScriptedFuture>(rep, 0);
  }
};

struct Subject
{
  std::unique_ptr<Procedure> proc;
  RecUI ui;
  Trace leaf;
  Policy policy;
  std::map<const Instruction*, int> ids;
  std::vector<Instruction*> nodes;
  std::vector<std::string> vars;
  std::mutex mtx;
  bool armed = false;

  Subject(const std::string& xml_file, uint64_t seed) : policy{seed}
  {
    proc = ParseProcedureFile(xml_file);
    proc->Setup();
    nodes = Preorder(const_cast<Instruction*>(proc->RootInstruction()));
    for (size_t k = 0; k < nodes.size(); ++k) ids[nodes[k]] = static_cast<int>(k);
    ui.on_input = [this](const UserInputRequest& rq) { return policy(rq); };
    proc->RegisterGenericCallback(
      [this](const std::string& n, const sup::dto::AnyValue& v, bool c)
      {
        std::lock_guard<std::mutex> lk(mtx);
        if (armed) vars.push_back(n + "=" + Json(v) + (c ? "+" : "-"));
      },
      this);
  }
  ~Subject() { proc->Reset(ui); }
  void Begin()
  {
    policy.n = 0;
    ui.trace.Clear();
    leaf.Clear();
    std::lock_guard<std::mutex> lk(mtx);
    vars.clear();
    armed = true;
  }
  // per tick: everything that happened
  std::vector<std::string> Run(int limit)
  {
    Begin();
    SetTrace(&leaf);
    std::vector<std::string> out;
    for (int t = 0; t < limit && !IsFinishedStatus(proc->GetStatus()); ++t)
    {
      proc->ExecuteSingle(ui);
      std::string s = std::string(1, StatusChar(proc->GetStatus())) + ":";
      for (auto& e : ui.trace.Get()) s += " [" + Recorder::Text(e, ids) + "]";
      for (auto& e : leaf.Get())
        if (e.kind != K::kReset) s += " {" + Recorder::Text(e, ids) + "}";
      std::lock_guard<std::mutex> lk(mtx);
      for (auto& v : vars) s += " <" + v + ">";
      vars.clear();
      ui.trace.Clear();
      leaf.Clear();
      out.push_back(s);
    }
    SetTrace(nullptr);
    return out;
  }
  std::string State()
  {
    std::string s;
    for (auto n : nodes) s += StatusChar(n->GetStatus());
    s += std::string(" ") + StatusChar(proc->GetStatus());
    for (auto& n : proc->GetWorkspace().VariableNames())
    {
      sup::dto::AnyValue v;
      s += " " + n + "=" + (proc->GetWorkspace().GetValue(n, v) ? Json(v) : "none");
      s += proc->GetWorkspace().GetVariable(n)->IsAvailable() ? "+" : "-";
    }
    return s;
  }
};

FullOpt Options(Rng& r)
{
  FullOpt o;
  o.dir = Opt().scratch;
  o.max_nodes = r.range(4, 30);
  o.max_depth = r.range(2, 6);
  o.async = o.endless = o.blocking = o.waits = o.files = o.hxvars = false;
  return o;
}
void SingleRun(Spec& s)
{
  if (s.type == "HxLeaf")
  {
    auto sc = s.Attr("script");
    s.Set("script", sc.substr(0, sc.find('|')));
  }
  for (auto& c : s.ch) SingleRun(c);
}

void Same()
{
  Section s("same");
  if (!s.run) return;
  Rng r(Opt().seed * 77 + 1);
  long n = Scale(1300, 12, 4);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    auto p = GenFull(r, Options(r));
    for (auto& t : p.roots) SingleRun(t);
    auto file = Opt().scratch + "/p.xml";
    auto xml = ToXml(p);
    WriteFile(file, xml);
    Case(xml);
    uint64_t seed = r.next() % 1000;
    Subject fresh(file, seed), again(file, seed);
    auto initial = fresh.State();
    int limit = 300;
    auto want = fresh.Run(limit);
    auto end = fresh.State();
    HX_CHECK(again.State() == initial, "reset:initial", "two fresh copies differ: " << initial << " and " << again.State() << "\n" << xml);
    int passes = r.range(1, 4);
    std::string what;
    for (int pass = 0; pass < passes; ++pass)
    {
      int ticks = r.chance(1, 3) ? limit : r.range(0, 8);
      again.Run(ticks);
      bool halted = r.chance(1, 3);
      if (halted) again.proc->Halt();
      if (r.chance(1, 4)) again.Run(3);
      what += (halted ? " h" : " ") + std::to_string(ticks);
      again.proc->Reset(again.ui);
      if (r.chance(1, 6)) again.proc->Reset(again.ui);
      auto st = again.State();
      if (!HX_CHECK(st == initial, "reset:state", "after resets at ticks" << what << " the state is\n" << st << "\ninstead of\n" << initial << "\n" << xml)) break;
      Count("resets compared with the initial state");
    }
    auto got = again.Run(limit);
    size_t at = 0;
    while (at < got.size() && at < want.size() && got[at] == want[at]) ++at;
    if (at < got.size() || at < want.size())
      Violation("reset:trace", "after resets at ticks" + what + ", tick " + std::to_string(at) + " is\n" + (at < got.size() ? got[at] : "none") + "\ninstead of\n" + (at < want.size() ? want[at] : "none") + "\n" + xml);
    else HX_CHECK(again.State() == end, "reset:result", "after resets at ticks" << what << " the run ends in\n" << again.State() << "\ninstead of\n" << end << "\n" << xml);
    Eval();
    Count("ticks compared", static_cast<long>(want.size()));
    if (want.size() > 1) Distinct(xml);
    Sample(ToText(p.roots.back()));
    Beat();
  }
}

// whole instruction set with asynchronous branches: after a reset everything is as at the beginning
void Async()
{
  Section s("async");
  if (!s.run) return;
  Rng r(Opt().seed * 79 + 2);
  long n = Scale(500, 12, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    FullOpt o;
    o.dir = Opt().scratch;
    o.max_nodes = r.range(4, 24);
    o.files = o.hxvars = false;
    o.us = 200;
    auto p = GenFull(r, o);
    auto file = Opt().scratch + "/q.xml";
    auto xml = ToXml(p);
    WriteFile(file, xml);
    Case(xml);
    Subject a(file, 1);
    auto initial = a.State();
    for (int pass = 0; pass < 3; ++pass)
    {
      int ticks = r.range(1, 12);
      SetTrace(&a.leaf);
      // an instruction that blocks in this thread is halted from another
      std::atomic<bool> done{false};
      std::thread stop(
        [&]
        {
          auto until = Clock::now() + std::chrono::milliseconds(30);
          while (!done && Clock::now() < until) std::this_thread::sleep_for(std::chrono::milliseconds(1));
          while (!done)
          {
            a.proc->Halt();
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
          }
        });
      for (int t = 0; t < ticks && !IsFinishedStatus(a.proc->GetStatus()); ++t)
      {
        a.proc->ExecuteSingle(a.ui);
        if (r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
      }
      done = true;
      stop.join();
      a.proc->Halt();
      a.proc->Reset(a.ui);
      auto st = a.State();
      HX_CHECK(st == initial, "reset:async-state", "after " << ticks << " ticks and a reset the state is\n" << st << "\ninstead of\n" << initial << "\n" << xml);
      std::this_thread::sleep_for(std::chrono::microseconds(r.below(500)));
      HX_CHECK(a.State() == initial, "reset:changed-later", "the state changed after the reset\n" << xml);
      Count("resets of procedures with asynchronous branches");
      Eval();
    }
    SetTrace(nullptr);
    Distinct("async " + xml);
    Beat();
  }
}

// through the job: several complete runs are the same
void Jobs()
{
  Section s("jobs");
  if (!s.run) return;
  Rng r(Opt().seed * 83 + 3);
  long n = Scale(120, 12, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    auto o = Options(r);
    o.input = false;
    o.max_nodes = 14;
    auto p = GenFull(r, o);
    for (auto& t : p.roots) SingleRun(t);
    auto file = Opt().scratch + "/j.xml";
    auto xml = ToXml(p);
    WriteFile(file, xml);
    Case(xml);
    Subject a(file, 1);
    a.armed = true;
    std::vector<std::string> first;
    {
      RecUI ui;
      ui.record_var = false;
      auto proc = ParseProcedureFile(file);
      AsyncRunner runner(*proc, ui, ui);
      auto nodes = Preorder(const_cast<Instruction*>(proc->RootInstruction()));
      std::map<const Instruction*, int> ids;
      for (size_t i = 0; i < nodes.size(); ++i) ids[nodes[i]] = static_cast<int>(i);
      for (int pass = 0; pass < 3; ++pass)
      {
        ui.trace.Clear();
        Trace leaf;
        SetTrace(&leaf);
        runner.Start();
        if (!ui.WaitFinished(2.0))
        {
          runner.Halt();
          ui.WaitFinished(20);
          SetTrace(nullptr);
          Count("jobs that did not finish");
          break;
        }
        std::this_thread::sleep_for(std::chrono::microseconds(200));
        std::vector<std::string> out;
        for (auto& e : leaf.Get())
          if (e.kind != K::kReset) out.push_back(Recorder::Text(e, ids));
        for (auto& e : ui.trace.Get())
          if (e.kind == K::kStatus || e.kind == K::kMsg || e.kind == K::kLog || e.kind == K::kPut) out.push_back(Recorder::Text(e, ids));
        SetTrace(nullptr);
        if (pass == 0) first = out;
        else
        {
          size_t at = 0;
          while (at < out.size() && at < first.size() && out[at] == first[at]) ++at;
          HX_CHECK(out == first, "reset:job", "run " << pass << " of the job differs from the first at event " << at << ": " << (at < out.size() ? out[at] : "none") << " instead of " << (at < first.size() ? first[at] : "none") << "\n" << xml);
        }
        Count("job runs compared");
        runner.Reset();
        ui.WaitState([](JobState st) { return st == JobState::kInitial; }, 20);
        Eval();
      }
    }
    Distinct("job " + xml);
    Beat();
  }
}

// an instruction with a time limit gets the whole of it again after a reset, however late the reset comes
void Waits()
{
  Section s("waits");
  if (!s.run) return;
  Rng r(Opt().seed * 81 + 5);
  auto now = [] { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); };
  std::vector<std::thread> pool;
  for (int w = 0; w < 8; ++w)
    pool.emplace_back(
      [&, q = Rng(r.next())]() mutable
      {
        for (long k = Scale(14, 12, 1); k > 0 && !TooMany(); --k)
        {
          double timeout = 0.05 + 1e-3 * q.range(0, 60);
          Spec sp = Comp("Wait", {});
          sp.Set("timeout", std::to_string(timeout));
          if (int kind = q.range(0, 2))
          {
            sp = Comp(kind == 1 ? "WaitForVariable" : "WaitForVariables", {});
            sp.Set("timeout", std::to_string(timeout));
            if (kind == 1) sp.Set("varName", "off"); else sp.Set("varType", "HxVar");
          }
          ProcSpec p;
          p.roots = {q.chance(1, 2) ? sp : Comp("Inverter", {sp})};
          VarSpec h;
          h.type = "HxVar";
          h.name = "off";
          h.attrs = {{"type", "{\"type\":\"int32\"}"}, {"value", "1"}, {"avail", "0"}};
          p.vars.push_back(h);
          auto proc = BuildProc(p);
          RecUI ui;
          proc->Setup();
          std::string what = ToText(p.roots[0]);
          for (int pass = q.range(2, 4); pass > 0; --pass)
          {
            bool whole = pass == 1 || q.chance(1, 2);
            double t0 = now();
            double stop = whole ? t0 + 60 : t0 + timeout * 1e-2 * q.range(0, 90);
            do
            {
              proc->ExecuteSingle(ui);
              std::this_thread::sleep_for(std::chrono::milliseconds(1));
            } while (!IsFinishedStatus(proc->GetStatus()) && now() < stop);
            double took = now() - t0;
            if (IsFinishedStatus(proc->GetStatus())) HX_CHECK(took >= timeout - 1e-4, "reset:time", what << " ended after " << took << " s\n");
            else if (whole) Violation("reset:time", what + " does not end");
            what += whole ? " whole" : " part";
            if (q.chance(1, 2)) std::this_thread::sleep_for(std::chrono::milliseconds(q.range(0, 130)));
            if (q.chance(1, 3)) proc->Halt();
            proc->Reset(ui);
          }
          Eval();
          Beat();
          Count("waits run again after a reset");
        }
      });
  for (auto& t : pool) t.join();
}

// the workspaces of other procedures that are in use, or not, before a reset are so after it
std::map<std::string, int> g_up;   // variable -> set up and not torn down
struct UpVar : public Variable
{
  static const std::string Type;
  UpVar() : Variable(Type) {}
  bool GetValueImpl(sup::dto::AnyValue& v) const override { return sup::dto::TryAssign(v, sup::dto::AnyValue{sup::dto::SignedInteger32Type, 1}); }
  bool SetValueImpl(const sup::dto::AnyValue&) override { return false; }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    if (HasAttribute("bad")) throw VariableSetupException("this variable cannot be set up");
    g_up[GetName()] = 1;
    SetupTeardownActions a;
    auto id = GetName();
    a.m_identifier = id;
    a.m_setup = [id] { ++g_up["action " + id]; };
    a.m_teardown = [id] { --g_up["action " + id]; };
    return a;
  }
  void TeardownImpl() override { g_up[GetName()] = 0; }   // also called for variables that were not set up

};
const std::string UpVar::Type = "UpVar";
void Others()
{
  Section s("others");
  if (!s.run) return;
  static bool registered = RegisterGlobalVariable<UpVar>();
  (void)registered;
  Rng r(Opt().seed * 19 + 3);
  const std::string head = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p\">";
  for (int k = 0; k < 400 && !TooMany(); ++k)
  {
    g_up.clear();
    int files = r.range(1, 3);
    std::vector<bool> used(static_cast<size_t>(files), false);
    std::vector<std::string> uses;
    std::string body, text;
    for (int n = r.range(1, 4); n > 0; --n)
    {
      int f = static_cast<int>(r.below(static_cast<unsigned>(files)));
      auto name = "o" + std::to_string(f) + ".xml";
      switch (r.below(3))
      {
      case 0: body += "<Include file=\"" + name + "\" path=\"t\"/>"; text += " tree" + std::to_string(f); break;
      case 1: body += "<IncludeProcedure file=\"" + name + "\"/>"; used[static_cast<size_t>(f)] = true; text += " procedure" + std::to_string(f); break;
      default: body += "<CopyFromProcedure file=\"" + name + "\" inputVar=\"v" + std::to_string(f) + "\" outputVar=\"x\"/>"; used[static_cast<size_t>(f)] = true; text += " copy" + std::to_string(f);
      }
    }
    for (int f = 0; f < files; ++f)
    {
      // a workspace that is not used may be one that cannot be set up
      bool bad = !used[static_cast<size_t>(f)] && r.chance(1, 2);
      WriteFile(Opt().scratch + "/o" + std::to_string(f) + ".xml", head + "<Sequence name=\"t\"><Succeed/><Succeed/></Sequence><Workspace><UpVar name=\"v" + std::to_string(f) + "\"/>" +
        (bad ? "<UpVar name=\"w\" bad=\"1\"/>" : "") + "</Workspace></Procedure>");
      text += bad ? " bad" : "";
    }
    auto file = Opt().scratch + "/m.xml";
    WriteFile(file, head + "<Sequence>" + body + "</Sequence><Workspace><UpVar name=\"own\"/><Local name=\"x\" type='{\"type\":\"int32\"}'/></Workspace></Procedure>");
    Case(text);
    {
      auto proc = ParseProcedureFile(file);
      proc->Setup();
      RecUI ui;
      auto before = g_up;
      HX_CHECK(before["own"] == 1 && before["action own"] == 1, "reset:others", "the own workspace is not set up:" << text);
      for (int f = 0; f < files; ++f)
        HX_CHECK(before["v" + std::to_string(f)] == (used[static_cast<size_t>(f)] ? 1 : 0), "reset:others", "variables of procedure " << f << " set up " << before["v" + std::to_string(f)] << " times:" << text);
      for (int pass = r.range(1, 3); pass > 0; --pass)
      {
        for (int n = r.range(0, 20); n > 0; --n) proc->ExecuteSingle(ui);
        std::string error;
        try { proc->Reset(ui); }
        catch (const std::exception& e) { error = e.what(); }
        HX_CHECK(error.empty(), "reset:others", "a reset fails:" << text << ": " << error);
        for (auto& [name, n] : g_up) HX_CHECK(n == before[name], "reset:others", name << " is set up " << n << " times after a reset and " << before[name] << " times before:" << text);
        Count("resets of procedures that use others");
      }
      for (int n = 0; n < 60; ++n) proc->ExecuteSingle(ui);
      HX_CHECK(proc->GetStatus() == ES::SUCCESS, "reset:others", "ends as " << StatusChar(proc->GetStatus()) << ":" << text);
    }
    for (auto& [name, n] : g_up) HX_CHECK(n == 0, "reset:others-end", name << " is still set up after the end of the procedure:" << text);
    Eval();
    Distinct(text);
    Beat();
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("one generated procedure and sequence of reset points; distinct by the text of the procedure");
    RegisterFixtures();
    Same();
    Async();
    Jobs();
    Waits();
    Others();
  })

// What an observer of a job learns, compared with the job itself.
#include "full.h"

#include <sup/oac-tree/instruction_info.h>
#include <sup/oac-tree/instruction_info_utils.h>
#include <sup/oac-tree/instruction_map.h>
#include <sup/oac-tree/instruction_state.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/job_info_utils.h>
#include <sup/oac-tree/job_map.h>
#include <sup/oac-tree/variable_info.h>
#include <sup/oac-tree/variable_utils.h>
#include <sup/oac-tree/workspace_info.h>

using namespace fx;
using namespace hx;
namespace dto = sup::dto;
using Attrs = std::vector<std::pair<std::string, std::string>>;

namespace
{
std::string Show(Attrs a)
{
  std::string s;
  for (auto& x : a) s += x.first + "=" + x.second + ";";
  return s;
}

std::string TextOf(const ProcSpec& p)
{
  std::string text;
  for (auto& x : p.roots) text += ToText(x) + " ";
  return text;
}

// index -> instruction, from a walk of the two trees side by side
bool CompareTree(const Instruction* i, const InstructionInfo* n, std::map<unsigned, const Instruction*>& idx, const std::string& text)
{
  Eval();
  if (n == nullptr)
  {
    Violation("info:tree", "a node without description in " + text);
    return false;
  }
  bool ok = HX_CHECK(n->GetType() == i->GetType(), "info:type", "instruction " << i->GetType() << " described as " << n->GetType() << " in " << text);
  ok = HX_CHECK(n->GetCategory() == i->GetCategory(), "info:category", "category of " << i->GetType() << " is described as " << static_cast<int>(n->GetCategory())) && ok;
  Attrs real = i->GetStringAttributes(), got = n->GetAttributes();
  ok = HX_CHECK(real == got, "info:attributes", i->GetType() << " has attributes " << Show(real) << " but is described with " << Show(got)) && ok;
  ok = HX_CHECK(idx.emplace(n->GetIndex(), i).second, "info:index", "index " << n->GetIndex() << " is used twice in " << text) && ok;
  auto ic = i->ChildInstructions();
  auto nc = n->Children();
  if (!HX_CHECK(ic.size() == nc.size(), "info:children", i->GetType() << " has " << ic.size() << " children but is described with " << nc.size())) return false;
  for (size_t k = 0; k < ic.size(); ++k) ok = CompareTree(ic[k], nc[k], idx, text) && ok;
  return ok;
}

struct Live
{
  Procedure* proc = nullptr;
  std::map<unsigned, const Instruction*> instr;
  std::map<unsigned, std::string> vars;
};

bool CheckDescription(const JobInfo& info, Live& l, const std::string& text)
{
  bool ok = CompareTree(l.proc->RootInstruction(), info.GetRootInstructionInfo(), l.instr, text);
  unsigned n = info.GetNumberOfInstructions();
  ok = HX_CHECK(l.instr.size() == n && (n == 0 || l.instr.rbegin()->first == n - 1), "info:dense",
                "the indices of " << text << " are not 0.." << n << ": " << l.instr.size() << " instructions, last index " << l.instr.rbegin()->first) && ok;
  auto& ws = l.proc->GetWorkspace();
  auto names = ws.VariableNames();
  std::map<std::string, int> left;
  for (auto& x : names) ++left[x];
  auto infos = info.GetWorkspaceInfo().GetVariableInfos();
  ok = HX_CHECK(infos.size() == names.size() && info.GetNumberOfVariables() == names.size(), "info:variables",
                "the workspace has " << names.size() << " variables, " << infos.size() << " are described") && ok;
  for (auto& v : infos)
  {
    ok = HX_CHECK(--left[v.first] == 0, "info:variables", "variable " << v.first << " described twice or unknown") && ok;
    ok = HX_CHECK(l.vars.emplace(v.second.GetIndex(), v.first).second, "info:index", "variable index " << v.second.GetIndex() << " used twice") && ok;
    ok = HX_CHECK(v.second.GetIndex() < names.size(), "info:dense", "variable index " << v.second.GetIndex() << " of " << names.size()) && ok;
    const Variable* real = ws.GetVariable(v.first);
    if (!HX_CHECK(real != nullptr, "info:variables", "variable " << v.first << " does not exist")) return false;
    ok = HX_CHECK(real->GetType() == v.second.GetType(), "info:type", "variable " << v.first << " is described as " << v.second.GetType()) && ok;
    Attrs a = real->GetStringAttributes(), b = v.second.GetAttributes();
    ok = HX_CHECK(a == b, "info:attributes", "variable " << v.first << " has attributes " << Show(a) << " but is described with " << Show(b)) && ok;
  }
  ok = HX_CHECK(info.GetProcedureName() == GetProcedureName(*l.proc), "info:name", "name " << info.GetProcedureName()) && ok;
  return ok;
}

void Copies(const JobInfo& info, const std::string& text)
{
  Eval();
  JobInfo a(info);
  HX_CHECK(a == info && !(a != info), "info:copy", "a copy differs from the original " << text);
  HX_CHECK(a.GetRootInstructionInfo() != info.GetRootInstructionInfo(), "info:copy", "a copy shares its tree");
  JobInfo b(std::move(a));
  HX_CHECK(b == info && b.GetNumberOfInstructions() == info.GetNumberOfInstructions(), "info:copy", "moving changes the description " << text);
  auto av = utils::ToAnyValue(b);
  JobInfo c = utils::ToJobInfo(av);
  HX_CHECK(c == info, "info:roundtrip", "the description of " << text << " is changed by the translation to a value and back");
  HX_CHECK(Json(utils::ToAnyValue(c)) == Json(av), "info:roundtrip", "translating twice gives another value for " << text);
  b = c;
  HX_CHECK(b == info, "info:copy", "assignment changes the description");
  c = std::move(b);
  HX_CHECK(c == info, "info:copy", "move assignment changes the description");
}

std::unique_ptr<LocalJob> MakeJob(const ProcSpec& p, RecJobIO& io, Live& l, const std::string& text)
{
  auto proc = BuildProc(p);
  l.proc = proc.get();
  try
  {
    return std::make_unique<LocalJob>(std::move(proc), io);
  }
  catch (const std::exception& e)
  {
    Violation("info:setup", std::string("a procedure of the generator is refused: ") + e.what() + " " + text);
    return {};
  }
}

void Static()
{
  Section s("static");
  if (!s.run) return;
  Rng r(Opt().seed * 103 + 1);
  long n = Scale(700, 10, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    FullOpt o;
    o.dir = Opt().scratch;
    o.max_nodes = r.chance(1, 8) ? r.range(40, 120) : r.range(1, 25);
    o.max_depth = r.chance(1, 4) ? 12 : 5;
    auto p = GenFull(r, o);
    auto text = TextOf(p);
    Case(text);
    Distinct(text);
    RecJobIO io;
    Live l;
    auto job = MakeJob(p, io, l, text);
    if (!job) continue;
    auto& info = job->GetInfo();
    if (!CheckDescription(info, l, text)) continue;
    HX_CHECK(io.Get().n_instr == static_cast<long>(info.GetNumberOfInstructions()), "info:init",
             "the observer is told " << io.Get().n_instr << " instructions, there are " << info.GetNumberOfInstructions());
    Copies(info, text);
    // a second description of the same procedure is the same
    InstructionMap m(l.proc->RootInstruction());
    HX_CHECK(utils::CreateJobInfo(*l.proc, m) == info, "info:again", "two descriptions of " << text << " differ");
    CountMax("largest tree", static_cast<long>(info.GetNumberOfInstructions()));
    Count("instructions described", info.GetNumberOfInstructions());
    // every index addresses the instruction it describes
    for (unsigned i = 0; i < info.GetNumberOfInstructions(); ++i)
    {
      auto before = io.Get().n_instr_upd;
      job->SetBreakpoint(i);
      auto o1 = io.Get();
      HX_CHECK(o1.n_instr_upd == before + 1 && o1.instr[i].m_breakpoint_set, "info:breakpoint", "setting a breakpoint at index " << i << " of " << text << " is not reported for that index");
      job->RemoveBreakpoint(i);
      auto o2 = io.Get();
      HX_CHECK(o2.n_instr_upd == before + 2 && !o2.instr[i].m_breakpoint_set, "info:breakpoint", "removing a breakpoint at index " << i << " of " << text << " is not reported for that index");
    }
    auto before = io.Get().n_instr_upd;
    job->SetBreakpoint(info.GetNumberOfInstructions());
    job->RemoveBreakpoint(info.GetNumberOfInstructions() + 17);
    HX_CHECK(io.Get().n_instr_upd == before, "info:breakpoint", "a breakpoint outside of the tree is reported");
    job->SetBreakpoint(0);
    HX_CHECK(io.Get().instr[0].m_breakpoint_set, "info:breakpoint", "a breakpoint is not reported any more");
  }
}

// ---- malformed descriptions --------------------------------------------------------------
struct Node
{
  std::vector<std::string> path;   // of the node
  unsigned index;
  size_t children;
};
void Nodes(const InstructionInfo* n, std::vector<std::string> path, std::vector<Node>& out)
{
  out.push_back({path, n->GetIndex(), n->Children().size()});
  auto c = n->Children();
  for (size_t i = 0; i < c.size(); ++i)
  {
    auto q = path;
    q.push_back("children");
    q.push_back(utils::CreateIndexedInstrChildName(i));
    Nodes(c[i], q, out);
  }
}

// Rebuilds a structure, letting f change the named members at a path.
dto::AnyValue Edit(const dto::AnyValue& v, const std::vector<std::string>& path, size_t at,
                   const std::function<dto::AnyValue(const dto::AnyValue&)>& f)
{
  if (at == path.size()) return f(v);
  auto out = dto::EmptyStruct(v.GetTypeName());
  for (auto& m : v.MemberNames()) out.AddMember(m, m == path[at] ? Edit(v[m], path, at + 1, f) : dto::AnyValue(v[m]));
  return out;
}
dto::AnyValue WithMember(const dto::AnyValue& v, const std::string& name, const dto::AnyValue* value, const std::string& rename = {})
{
  auto out = dto::EmptyStruct(v.GetTypeName());
  for (auto& m : v.MemberNames())
  {
    if (m != name) out.AddMember(m, dto::AnyValue(v[m]));
    else if (!rename.empty()) out.AddMember(rename, dto::AnyValue(v[m]));
    else if (value != nullptr) out.AddMember(m, *value);
  }
  return out;
}

void Malformed()
{
  Section s("malformed");
  if (!s.run) return;
  Rng r(Opt().seed * 107 + 5);
  long n = Scale(2500, 10, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    FullOpt o;
    o.dir = Opt().scratch;
    o.max_nodes = r.range(2, 10);
    o.includes = false;
    auto p = GenFull(r, o);
    auto text = TextOf(p);
    RecJobIO io;
    Live l;
    auto job = MakeJob(p, io, l, text);
    if (!job) continue;
    auto& info = job->GetInfo();
    auto av = utils::ToAnyValue(info);
    auto base = Json(av);
    std::string tree_field, ws_field, name_field;
    for (auto& m : av.MemberNames())
    {
      if (!dto::IsStructValue(av[m])) name_field = m;
      else if (av[m].HasField("children") || av[m].HasField("category")) tree_field = m;
      else ws_field = m;
    }
    std::vector<Node> nodes;
    Nodes(info.GetRootInstructionInfo(), {tree_field}, nodes);
    auto& nd = r.pick(nodes);
    dto::AnyValue bad;
    std::string what;
    auto u32 = [](unsigned x) { return dto::AnyValue{dto::UnsignedInteger32Type, x}; };
    auto member = [&](const char* name, const dto::AnyValue& v) {
      bad = Edit(av, nd.path, 0, [&](const dto::AnyValue& x) { return WithMember(x, name, &v); });
    };
    switch (r.below(14))
    {
    case 0:
      if (nodes.size() < 2) continue;
      {
        auto& other = r.pick(nodes);
        if (other.index == nd.index) continue;
        what = "duplicate index";
        member("index", u32(other.index));
      }
      break;
    case 1: what = "index out of range"; member("index", u32(static_cast<unsigned>(nodes.size() + r.below(5)))); break;
    case 2: what = "huge index"; member("index", u32(0xffffffffu)); break;
    case 3: what = "index of a wrong type"; member("index", r.chance(1, 2) ? dto::AnyValue{dto::SignedInteger32Type, 0} : dto::AnyValue(std::string("0"))); break;
    case 4: what = "type that is no string"; member("type", u32(1)); break;
    case 5: what = "category of a wrong type"; member("category", dto::AnyValue(std::string("kAction"))); break;
    case 6: what = "attributes that are no structure"; member("attributes", dto::AnyValue(std::string("x"))); break;
    case 7:
    {
      what = "attribute that is no string";
      dto::AnyValue a = dto::EmptyStruct();
      a.AddMember("x", u32(3));
      member("attributes", a);
      break;
    }
    case 8:
    {
      static const char* const f[] = {"index", "type", "category", "attributes"};
      auto name = f[r.below(4)];
      what = std::string("missing ") + name;
      bad = Edit(av, nd.path, 0, [&](const dto::AnyValue& x) { return WithMember(x, name, nullptr); });
      break;
    }
    case 9:
      if (nd.children == 0) continue;
      what = "wrong name of a child";
      {
        auto q = nd.path;
        q.push_back("children");
        bad = Edit(av, q, 0, [&](const dto::AnyValue& x) {
          auto names = x.MemberNames();
          return WithMember(x, names[r.below(names.size())], nullptr, r.chance(1, 2) ? "child" : utils::CreateIndexedInstrChildName(nd.children + 1));
        });
      }
      break;
    case 10:
      if (nd.children == 0) continue;
      what = "action with children";
      member("category", u32(static_cast<unsigned>(Instruction::kAction)));
      break;
    case 11:
      if (nd.children < 2) continue;
      what = "decorator with several children";
      member("category", u32(static_cast<unsigned>(Instruction::kDecorator)));
      break;
    case 12:
      what = "missing part";
      bad = WithMember(av, r.pick(av.MemberNames()), nullptr);
      break;
    default:
    {
      // variables: an index that does not fit
      auto names = av[ws_field].MemberNames();
      if (names.empty()) continue;
      auto v = r.pick(names);
      what = "variable index";
      auto bad_index = u32(static_cast<unsigned>(names.size() + r.below(3)));
      bad = Edit(av, {ws_field, v}, 0, [&](const dto::AnyValue& x) { return WithMember(x, "index", &bad_index); });
      break;
    }
    }
    Eval();
    Count("refused: " + what);
    Case(what + " in " + text);
    bool thrown = false, other = false;
    try
    {
      auto ji = utils::ToJobInfo(bad);
    }
    catch (const MessageException&)
    {
      thrown = true;
    }
    catch (const std::exception&)
    {
      other = true;
    }
    HX_CHECK(thrown, "info:malformed", "a description with " << what << (other ? " raises an unrelated exception" : " is accepted") << ": " << text);
    HX_CHECK(Json(av) == base, "info:malformed", "the given value was changed");
    // and the untouched one still is accepted
    HX_CHECK(utils::ToJobInfo(av) == info, "info:roundtrip", "the description of " << text << " is changed by the translation");
  }
  for (int st = 0; st < 5; ++st)
    for (bool bp : {false, true})
    {
      InstructionState a{bp, static_cast<ES>(st)};
      auto b = ToInstructionState(ToAnyValue(a));
      HX_CHECK(a == b && !(a != b) && b.m_breakpoint_set == bp && b.m_execution_status == static_cast<ES>(st), "info:state", "state " << st << "," << bp << " is changed by the translation");
      InstructionState c{!bp, static_cast<ES>(st)}, d{bp, static_cast<ES>((st + 1) % 5)};
      HX_CHECK(a != c && a != d && !(a == c) && !(a == d), "info:state", "different states compare equal");
    }
}

// ---- the stream of updates ---------------------------------------------------------------
std::string Differs(const Live& l, const RecJobIO::Obs& o, const std::map<unsigned, bool>& bps)
{
  std::ostringstream out;
  for (auto& [idx, instr] : l.instr)
  {
    auto it = o.instr.find(idx);
    auto st = it == o.instr.end() ? ES::NOT_STARTED : it->second.m_execution_status;
    bool bp = it != o.instr.end() && it->second.m_breakpoint_set;
    auto real = instr->GetStatus();
    if (st != real) out << " status of " << idx << ":" << instr->GetType() << " is " << StatusChar(real) << ", observed " << StatusChar(st) << ";";
    auto want = bps.find(idx);
    if (bp != (want != bps.end() && want->second)) out << " breakpoint of " << idx << " observed " << bp << ";";
  }
  for (auto& it : o.instr) if (!l.instr.count(it.first)) out << " update of an unknown instruction " << it.first << ";";
  auto& ws = l.proc->GetWorkspace();
  for (auto& [idx, name] : l.vars)
  {
    dto::AnyValue v;
    bool readable = ws.GetValue(name, v);
    auto it = o.vars.find(idx);
    const bool avail = ws.GetVariable(name)->IsAvailable();
    if (it == o.vars.end())
    {
      if (readable) out << " variable " << name << " has a value that was never published;";
      continue;
    }
    if (it->second.second != avail) out << " variable " << name << " is " << (avail ? "" : "not ") << "available, observed " << it->second.second << ";";
    if (readable ? Json(it->second.first) != Json(v) : it->second.second && !dto::IsEmptyValue(it->second.first))
      out << " variable " << name << " is " << (readable ? Json(v) : "unreadable") << ", observed " << Json(it->second.first) << ";";
  }
  for (auto& it : o.vars) if (!l.vars.count(it.first)) out << " update of an unknown variable " << it.first << ";";
  return out.str();
}

void Dynamic()
{
  Section s("dynamic");
  if (!s.run) return;
  Rng r(Opt().seed * 109 + 9);
  long n = Scale(500, 10, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    FullOpt o;
    o.dir = Opt().scratch;
    o.max_nodes = r.range(2, 20);
    o.async = r.chance(1, 2);
    o.us = r.chance(1, 3) ? 200 : 0;
    auto p = GenFull(r, o);
    auto text = TextOf(p);
    Case(text);
    Distinct(text);
    RecJobIO io;
    io.keep_trace = false;
    Rng user(r.next());
    std::mutex user_mtx;
    io.on_value = [&](dto::uint64, dto::AnyValue&, const std::string&) { std::lock_guard<std::mutex> lk(user_mtx); return user.chance(3, 4); };
    io.on_choice = [&](dto::uint64, const std::vector<std::string>& opt) { std::lock_guard<std::mutex> lk(user_mtx); return static_cast<int>(user.below(opt.size() + 1)) - 1; };
    bool perturb = r.chance(1, 2);
    if (perturb) PerturbOn(r.next(), 30, 60);
    Live l;
    auto job = MakeJob(p, io, l, text);
    if (!job) { PerturbOff(); continue; }
    if (!CheckDescription(job->GetInfo(), l, text)) { PerturbOff(); continue; }
    unsigned n_instr = job->GetInfo().GetNumberOfInstructions();
    std::map<unsigned, bool> bps;
    std::string history;
    long n_next0 = 0;   // ticks reported up to the last reset
    int rounds = r.range(1, 8);
    for (int c = 0; c < rounds && !TooMany(); ++c)
    {
      auto st = io.State();
      std::string did;
      if (r.chance(1, 3))
      {
        unsigned b = static_cast<unsigned>(r.below(n_instr));
        bps[b] = r.chance(3, 4);
        bps[b] ? job->SetBreakpoint(b) : job->RemoveBreakpoint(b);
        did += "b";
      }
      auto done = [&](JobState x) { return x == JobState::kPaused || IsFinishedJobState(x); };
      auto count = [&] { return io.Get().n_state; };
      long before = count();
      if (IsFinishedJobState(st))
      {
        job->Reset();
        io.WaitState([](JobState x) { return x == JobState::kInitial; });
        WaitUntil([&] { long a = io.Get().n_next; std::this_thread::sleep_for(std::chrono::milliseconds(1)); n_next0 = io.Get().n_next; return a == n_next0; }, 5);
        did += "r";
      }
      else if (r.chance(1, 3))
      {
        job->Step();
        did += "s";
        if (!WaitUntil([&] { return count() >= before + 2 && done(io.State()); }, 0.05))
        {
          job->Halt();
          did += "h";
          WaitUntil([&] { return count() >= before + 2 && done(io.State()); }, 20);
        }
      }
      else
      {
        job->Start();
        if (r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
        else WaitUntil([&] { return count() >= before + 2 && done(io.State()); }, 0.02);
        if (r.chance(1, 3)) DriveVar("hx", dto::AnyValue{dto::SignedInteger32Type, static_cast<int>(r.below(5))}, r.chance(3, 4));
        if (r.chance(1, 2)) { job->Pause(); did += "p"; }
        if (!WaitUntil([&] { return count() >= before + 2 && done(io.State()); }, 0.05))
        {
          job->Halt();
          did += "h";
          WaitUntil([&] { return done(io.State()) && count() >= before + 2; }, 20);
        }
        did += "g";
      }
      static const char* const names[] = {"initial", "paused", "stepping", "running", "succeeded", "failed", "halted"};
      Count(std::string("compared while ") + names[static_cast<int>(io.State())]);
      history += did + " ";
      Eval();
      std::string diff;
      // asynchronous branches may still be at work; then the observer has to agree in the end
      bool same = WaitUntil([&] {
        auto state = io.State();
        auto obs = io.Get();
        diff = Differs(l, obs, bps);
        return diff.empty() && state == io.State();
      }, 10);
      HX_CHECK(same, "info:observer", "after " << history << "(state " << ToString(io.State()) << ") of " << text << ":" << diff);
      if (same && !o.async && io.State() == JobState::kPaused)
      {
        // no thread of the job is at work: the announced leaves are those of the procedure
        std::vector<unsigned> next;
        for (auto i : GetNextLeaves(*l.proc))
          for (auto& [idx, x] : l.instr) if (x == i) next.push_back(idx);
        auto seen = io.Get();
        std::vector<unsigned> got = seen.next;
        std::sort(next.begin(), next.end());
        std::sort(got.begin(), got.end());
        if (seen.n_next > n_next0)
        {
          bool ok = WaitUntil([&] { got = io.Get().next; std::sort(got.begin(), got.end()); return got == next; }, 5);
          std::ostringstream m;
          for (auto x : next) m << x << " ";
          m << "announced";
          for (auto x : got) m << " " << x;
          HX_CHECK(ok, "info:next", "after " << history << "of " << text << " the next leaves are " << m.str());
          Count("next leaves compared");
        }
      }
      Count("updates of instructions", io.Get().n_instr_upd);
      Count("updates of variables", io.Get().n_var_upd);
    }
    if (perturb) DistinctHash(InterleavingHash());
    if (k < 3) Sample(history + text);
    job.reset();
    PerturbOff();
  }
}

// Several clients set and remove breakpoints while the job runs; in the end the observer knows which are set.
void Breakpoints()
{
  Section s("breakpoints");
  if (!s.run) return;
  Rng r(Opt().seed * 113 + 2);
  long n = Scale(250, 10, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    FullOpt o;
    o.dir = Opt().scratch;
    o.max_nodes = r.range(2, 6);
    o.includes = o.input = false;
    auto p = GenFull(r, o);
    auto text = TextOf(p);
    Case("breakpoints of " + text);
    RecJobIO io;
    io.keep_trace = false;
    std::atomic<long> mine{0};   // notifications given by this thread
    io.on_any = [&mine, me = std::this_thread::get_id()] { if (std::this_thread::get_id() == me) ++mine; else MaybeDelay(); };
    PerturbOn(r.next(), 6, 60);
    Live l;
    auto job = MakeJob(p, io, l, text);
    if (!job) { PerturbOff(); continue; }
    unsigned n_instr = job->GetInfo().GetNumberOfInstructions();
    if (r.chance(1, 2)) job->Start();
    std::vector<std::thread> th;
    int m = r.range(2, 3);
    for (int c = 0; c < m; ++c)
      th.emplace_back([&, seed = r.next()] {
        Rng q(seed);
        for (int x = 0; x < 12; ++x)
        {
          unsigned b = static_cast<unsigned>(q.below(std::min(n_instr, 2u)));
          q.chance(1, 2) ? job->SetBreakpoint(b) : job->RemoveBreakpoint(b);
        }
      });
    for (auto& t : th) t.join();
    job->Halt();
    io.WaitFinished();
    // A breakpoint that is set is not reported when it is set again.
    for (unsigned b = 0; b < std::min(n_instr, 2u); ++b)
    {
      Eval();
      auto o1 = io.Get();
      bool seen = o1.instr.count(b) != 0 && o1.instr[b].m_breakpoint_set;
      long before = mine.load();
      job->RemoveBreakpoint(b);
      bool was_set = mine.load() != before;
      HX_CHECK(was_set == seen, "info:breakpoint-race", "after " << m << " clients have changed breakpoints, the one at " << b << " is " << (was_set ? "" : "not ") << "set but was reported as " << seen << " in " << text);
      Count(seen ? "concurrently set" : "concurrently removed");
    }
    DistinctHash(InterleavingHash());
    job.reset();
    PerturbOff();
  }
}

// ---- descriptions as plain objects ---------------------------------------------------------
struct Plain
{
  std::string type;
  Instruction::Category cat;
  unsigned idx = 0;
  Attrs attrs;
  std::vector<Plain> kids;
};
Attrs PlainAttrs(Rng& r)
{
  Attrs a;
  for (int n = r.range(0, 3); n > 0; --n) a.emplace_back("a" + std::to_string(n), std::to_string(r.below(3)));
  return a;
}
Plain PlainTree(Rng& r, int depth, int& budget)
{
  static const char* const types[] = {"Sequence", "Inverter", "Wait", "x"};
  Plain p{types[r.below(4)], Instruction::kAction, 0, PlainAttrs(r), {}};
  --budget;
  if (depth > 0 && budget > 0)
    switch (r.below(3))
    {
    case 0: break;
    case 1:
      p.cat = Instruction::kDecorator;
      if (r.chance(4, 5)) p.kids.push_back(PlainTree(r, depth - 1, budget));
      break;
    default:
      p.cat = Instruction::kCompound;
      for (int n = r.range(0, 4); n > 0 && budget > 0; --n) p.kids.push_back(PlainTree(r, depth - 1, budget));
      // more children than digits
      if (r.chance(1, 25))
        for (int n = r.range(9, 110); n > 0; --n) p.kids.push_back(Plain{types[r.below(4)], Instruction::kAction, 0, PlainAttrs(r), {}});
    }
  return p;
}
void AllPlain(Plain& p, std::vector<Plain*>& out)
{
  out.push_back(&p);
  for (auto& k : p.kids) AllPlain(k, out);
}
std::unique_ptr<InstructionInfo> Make(const Plain& p)
{
  auto i = std::make_unique<InstructionInfo>(p.type, p.cat, p.idx, p.attrs);
  for (auto& k : p.kids) i->AppendChild(Make(k));
  return i;
}
bool Same(const Plain& p, const InstructionInfo* i)
{
  if (i == nullptr || i->GetType() != p.type || i->GetCategory() != p.cat || i->GetIndex() != p.idx || i->GetAttributes() != p.attrs) return false;
  auto c = i->Children();
  if (c.size() != p.kids.size()) return false;
  for (size_t k = 0; k < c.size(); ++k)
    if (!Same(p.kids[k], c[k])) return false;
  return true;
}
void Numbered(Plain& p, Rng& r)
{
  std::vector<Plain*> all;
  AllPlain(p, all);
  std::vector<unsigned> idx(all.size());
  for (unsigned i = 0; i < idx.size(); ++i) idx[i] = i;
  for (size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[r.below(i)]);
  for (size_t i = 0; i < all.size(); ++i) all[i]->idx = idx[i];
}
using PlainVars = std::vector<std::pair<std::string, VariableInfo>>;
WorkspaceInfo Make(const PlainVars& v)
{
  WorkspaceInfo w;
  for (auto& x : v) w.AddVariableInfo(x.first, x.second);
  return w;
}
PlainVars SomeVars(Rng& r)
{
  PlainVars v;
  int n = r.range(0, 4);
  for (int i = 0; i < n; ++i) v.emplace_back("v" + std::to_string(i), VariableInfo(r.chance(1, 2) ? "Local" : "File", i, PlainAttrs(r)));
  return v;
}
template <class F> bool Refused(F f)
{
  try { f(); }
  catch (const InvalidOperationException&) { return true; }
  return false;
}

void Objects()
{
  Section s("objects");
  if (!s.run) return;
  Rng r(Opt().seed * 109 + 9);
  long n = Scale(3000, 10, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    Eval();
    int budget = r.range(1, 14), budget2 = r.range(1, 6);
    Plain p = PlainTree(r, 4, budget), other = PlainTree(r, 3, budget2);
    Numbered(p, r);
    Numbered(other, r);
    PlainVars vars = SomeVars(r), vars2 = SomeVars(r);
    Case("plain tree " + std::to_string(k));
    const JobInfo j("name", Make(vars), Make(p));
    HX_CHECK(Same(p, j.GetRootInstructionInfo()) && j.GetWorkspaceInfo().GetVariableInfos() == vars, "info:object", "a description differs from its parts");
    // copies and assignments onto another description, itself and a part of itself
    {
      JobInfo a("other", Make(vars2), Make(other));
      JobInfo b("third", WorkspaceInfo{}, Make(Plain{"t", Instruction::kAction, 0, {}, {}}));
      a = j;
      HX_CHECK(a == j && Same(p, a.GetRootInstructionInfo()) && a.GetProcedureName() == "name" && a.GetNumberOfVariables() == vars.size() && a.GetNumberOfInstructions() == j.GetNumberOfInstructions(),
               "info:assign", "an assigned description differs");
      HX_CHECK(a.GetRootInstructionInfo() != j.GetRootInstructionInfo(), "info:assign", "an assigned description shares its tree");
      b = std::move(a);
      HX_CHECK(b == j && Same(p, b.GetRootInstructionInfo()), "info:assign", "a moved description differs");
      auto& self = b;
      b = self;
      HX_CHECK(b == j, "info:assign", "assigning a description to itself changes it");
      InstructionInfo c(*Make(other));
      HX_CHECK(Same(other, &c), "info:assign", "a copied tree differs");
      c = *j.GetRootInstructionInfo();
      HX_CHECK(Same(p, &c) && c == *j.GetRootInstructionInfo() && !(c != *j.GetRootInstructionInfo()), "info:assign", "an assigned tree differs");
      if (!p.kids.empty())
      {
        auto at = r.below(p.kids.size());
        c = *c.Children()[at];
        HX_CHECK(Same(p.kids[at], &c), "info:assign", "a tree assigned from one of its parts differs from the part");
      }
      InstructionInfo d(std::move(c));
      c = std::move(d);
      WorkspaceInfo w = Make(vars2), w2(w);
      HX_CHECK(w == w2 && !(w != w2), "info:assign", "a copied list of variables differs");
      w = Make(vars);
      HX_CHECK(w == j.GetWorkspaceInfo(), "info:assign", "an assigned list of variables differs");
      w2 = w;
      WorkspaceInfo w3(std::move(w2));
      HX_CHECK(w3 == w && w3.GetNumberOfVariables() == vars.size(), "info:assign", "a moved list of variables differs");
      HX_CHECK(utils::ToWorkspaceInfo(utils::ToAnyValue(w)) == w, "info:roundtrip", "variables are changed by the translation to a value and back");
      auto names = utils::BuildVariableNameMap(w);
      for (size_t i = 0; i < vars.size(); ++i)
      {
        HX_CHECK(names.size() == vars.size() && names[i] == vars[i].first, "info:names", "the name of variable " << i);
        VariableInfo v("z", 77, {{"q", "w"}}), v2(vars[i].second);
        v = v2;
        HX_CHECK(v == v2 && v == vars[i].second && !(v != v2), "info:assign", "an assigned variable differs");
        VariableInfo v3(std::move(v2));
        HX_CHECK(v3 == v && v3.GetIndex() == i && v3.GetAttributes() == v.GetAttributes() && v3.GetType() == v.GetType(), "info:assign", "a moved variable differs");
      }
      // a variable with a known name or an index that does not follow is refused
      if (!vars.empty())
        HX_CHECK(Refused([&] { w.AddVariableInfo(vars[r.below(vars.size())].first, VariableInfo("Local", static_cast<unsigned>(vars.size()), {})); }) && w == w3, "info:refuse", "a second variable of one name is accepted");
      auto wrong = static_cast<unsigned>(vars.size()) + (vars.empty() || r.chance(1, 2) ? 1 + r.below(3) : static_cast<unsigned>(-1));
      HX_CHECK(Refused([&] { w.AddVariableInfo("new", VariableInfo("Local", wrong, {})); }) && w == w3, "info:refuse", "a variable with index " << wrong << " is accepted as number " << vars.size());
    }
    // one difference anywhere makes two descriptions different
    {
      Plain q = p;
      PlainVars v = vars;
      std::string name = "name";
      std::vector<Plain*> all;
      AllPlain(q, all);
      auto* x = all[r.below(all.size())];
      std::string what;
      switch (r.below(9))
      {
      case 0: what = "type"; x->type += "1"; break;
      case 1:
        what = "category";
        if (!x->kids.empty() || x->cat == Instruction::kCompound) { if (x->kids.size() > 1) continue; x->cat = x->cat == Instruction::kCompound ? Instruction::kDecorator : Instruction::kCompound; }
        else x->cat = x->cat == Instruction::kAction ? Instruction::kDecorator : Instruction::kAction;
        break;
      case 2:
      {
        what = "index";
        auto* y = all[r.below(all.size())];
        if (x == y) continue;
        std::swap(x->idx, y->idx);
        break;
      }
      case 3: what = "more attributes"; x->attrs.emplace_back("zz", ""); break;
      case 4: what = "attribute"; if (x->attrs.empty()) continue; x->attrs[r.below(x->attrs.size())].second += "1"; break;
      case 5:
        what = "more children";
        if (x->cat != Instruction::kCompound) continue;
        x->kids.push_back(Plain{"n", Instruction::kAction, static_cast<unsigned>(all.size()), {}, {}});
        break;
      case 6: what = "name"; name = "nam"; break;
      case 7: what = "more variables"; v.emplace_back("vn", VariableInfo("Local", static_cast<unsigned>(v.size()), {})); break;
      default:
        what = "variable";
        if (v.empty()) continue;
        {
          auto& e = v[r.below(v.size())];
          auto a = e.second.GetAttributes();
          switch (r.below(3))
          {
          case 0: e.first += "1"; break;
          case 1: a.emplace_back("zz", ""); e.second = VariableInfo(e.second.GetType(), e.second.GetIndex(), a); break;
          default: e.second = VariableInfo(e.second.GetType() + "1", e.second.GetIndex(), a);
          }
        }
      }
      JobInfo d(name, Make(v), Make(q));
      HX_CHECK(d != j && !(d == j), "info:equal", "descriptions that differ in: " << what << " are equal");
      HX_CHECK(Json(utils::ToAnyValue(d)) != Json(utils::ToAnyValue(j)), "info:equal", "descriptions that differ in: " << what << " have the same value");
      HX_CHECK(utils::ToJobInfo(utils::ToAnyValue(d)) == d, "info:roundtrip", "a description is changed by the translation to a value and back");
      Count("different in: " + what);
    }
    // indices that are not 0..n-1 are refused
    {
      Plain q = p;
      std::vector<Plain*> all;
      AllPlain(q, all);
      auto* x = all[r.below(all.size())];
      unsigned bad = static_cast<unsigned>(all.size() + (r.chance(1, 2) ? 0 : r.below(1000)));
      if (all.size() > 1 && r.chance(1, 2)) bad = (x->idx + 1) % all.size();
      x->idx = bad;
      HX_CHECK(Refused([&] { JobInfo d("name", Make(vars), Make(q)); }), "info:refuse", "a tree of " << all.size() << " with a wrong index " << bad << " is accepted");
      HX_CHECK(Refused([&] { ValidateInstructionInfoTree(*Make(q)); }), "info:refuse", "a tree of " << all.size() << " with a wrong index " << bad << " is valid");
      HX_CHECK(Refused([&] { utils::ToInstructionInfoTree(utils::ToAnyValueTree(*Make(q))); }), "info:refuse", "the value of a tree with a wrong index " << bad << " is accepted");
      auto good = Make(p);
      ValidateInstructionInfoTree(*good);
      auto flat = Flatten(*good);
      std::set<const InstructionInfo*> set(flat.begin(), flat.end());
      HX_CHECK(flat.size() == all.size() && set.size() == flat.size(), "info:flatten", "a tree of " << all.size() << " is flattened to " << flat.size());
      auto ordered = utils::CreateOrderedInstructionInfo(*good);
      for (unsigned i = 0; i < ordered.size(); ++i) HX_CHECK(ordered[i]->GetIndex() == i && set.count(ordered[i]) == 1, "info:ordered", "number " << i);
      // more children than the category allows, wherever in the tree
      for (auto* c : flat)
      {
        auto* m = const_cast<InstructionInfo*>(c);
        auto before = m->Children().size();
        bool allowed = m->GetCategory() == Instruction::kCompound || (m->GetCategory() == Instruction::kDecorator && before == 0);
        bool refused = Refused([&] { m->AppendChild(std::make_unique<InstructionInfo>("n", Instruction::kAction, 99, Attrs{})); });
        HX_CHECK(refused == !allowed && m->Children().size() == before + (allowed ? 1 : 0), "info:append", "a child for category " << m->GetCategory() << " with " << before << " children: " << (refused ? "refused" : "accepted"));
      }
    }
    // the state of an instruction
    {
      static const ExecutionStatus all[] = {ExecutionStatus::NOT_STARTED, ExecutionStatus::NOT_FINISHED, ExecutionStatus::RUNNING, ExecutionStatus::SUCCESS, ExecutionStatus::FAILURE};
      for (auto st : all)
        for (bool b : {false, true})
        {
          InstructionState x{b, st};
          auto av = ToAnyValue(x);
          HX_CHECK(ToInstructionState(av) == x && !(ToInstructionState(av) != x), "info:state", "state " << static_cast<int>(st) << " " << b);
          HX_CHECK((x != InstructionState{!b, st}) && !(x == InstructionState{!b, st}), "info:state", "breakpoint");
          for (auto st2 : all) HX_CHECK((x == InstructionState{b, st2}) == (st == st2), "info:state", "status");
          auto names = av.MemberNames();
          auto lost = r.pick(names);
          auto bad = WithMember(av, lost, nullptr);
          auto str = dto::AnyValue(std::string("1"));
          auto bad2 = WithMember(av, lost, &str);
          HX_CHECK(Refused([&] { ToInstructionState(bad); }) && Refused([&] { ToInstructionState(bad2); }), "info:state", "a state without a proper " << lost << " is accepted");
        }
      HX_CHECK(Refused([&] { ToInstructionState(dto::AnyValue{}); }), "info:state", "an empty state is accepted");
    }
    Distinct(Json(utils::ToAnyValue(j)));
  }
}

// ---- lookups -------------------------------------------------------------------------------
void Maps()
{
  Section s("maps");
  if (!s.run) return;
  Rng r(Opt().seed * 113 + 3);
  long n = Scale(400, 10, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    Eval();
    FullOpt o;
    o.dir = Opt().scratch;
    o.max_nodes = r.range(1, 25);
    o.includes = false;
    auto p = GenFull(r, o);
    auto text = TextOf(p);
    Case(text);
    RecUI ui;
    auto proc = BuildProc(p);
    proc->Setup();
    const Instruction* root = proc->RootInstruction();
    JobMap jm(*proc);
    // before the tree is known
    HX_CHECK(Refused([&] { jm.GetInstructionIndex(root); }) && Refused([&] { jm.GetInstructionMap(); }) && Refused([&] { jm.GetOrderedInstructions(); }) && jm.GetNumberOfInstructions() == 0,
             "map:early", "instructions are known before they are given: " << text);
    jm.InitializeInstructionTree(root);
    InstructionMap im(root), none(nullptr);
    HX_CHECK(none.GetNumberOfInstructions() == 0 && none.GetInstructionIndexMap().empty() && Refused([&] { none.FindInstructionIndex(root); }), "map:none", "a map of no tree knows instructions");
    auto list = jm.GetOrderedInstructions();
    HX_CHECK(list.size() == jm.GetNumberOfInstructions() && list.size() == im.GetNumberOfInstructions(), "map:size", "in " << text);
    std::vector<const Instruction*> walk{root};
    for (size_t i = 0; i < walk.size(); ++i)
      for (auto* c : walk[i]->ChildInstructions()) walk.push_back(c);
    HX_CHECK(std::set<const Instruction*>(walk.begin(), walk.end()) == std::set<const Instruction*>(list.begin(), list.end()) && walk.size() == list.size(), "map:all", "the map of " << text << " lists " << list.size() << " of " << walk.size() << " instructions");
    for (unsigned i = 0; i < list.size(); ++i)
      HX_CHECK(jm.GetInstructionIndex(list[i]) == i && im.FindInstructionIndex(list[i]) == i && jm.GetInstructionMap().FindInstructionIndex(list[i]) == i, "map:inverse", "index " << i << " in " << text);
    ProcSpec q;
    q.roots = {Leaf("other", "S")};
    auto stranger = BuildProc(q);
    HX_CHECK(Refused([&] { jm.GetInstructionIndex(stranger->RootInstruction()); }) && Refused([&] { jm.GetInstructionIndex(nullptr); }), "map:stranger", "an instruction of another tree is known");
    auto wrong = im.GetInstructionIndexMap();
    auto& entry = std::next(wrong.begin(), r.below(wrong.size()))->second;
    entry = wrong.size() > 1 && r.chance(1, 2) ? (entry + 1) % wrong.size() : static_cast<unsigned>(wrong.size() + r.below(9));
    HX_CHECK(Refused([&] { GetReverseMap(wrong); }), "map:reverse", "a map with a wrong index is reversed");
    auto names = proc->GetWorkspace().VariableNames();
    HX_CHECK(jm.GetNumberOfVariables() == names.size() && jm.GetVariableMap().GetVariableIndexMap().size() == names.size(), "map:variables", "in " << text);
    std::set<unsigned> seen;
    for (auto& x : names) seen.insert(jm.GetVariableIndex(x));
    HX_CHECK(seen.size() == names.size() && (seen.empty() || *seen.rbegin() == names.size() - 1), "map:variables", "the variables of " << text << " do not have the indices 0.." << names.size());
    HX_CHECK(Refused([&] { jm.GetVariableIndex("no such variable"); }), "map:variables", "an unknown variable is known");
    // a description of a tree by the map of another one, or without tree
    HX_CHECK(Refused([&] { utils::CreateJobInfo(*stranger, im); }), "map:stranger", "a tree is described with the indices of another");
    Procedure bare;
    HX_CHECK(Refused([&] { utils::CreateJobInfo(bare, none); }), "map:none", "a procedure without a tree is described");
    Distinct(text);
    Count("indices looked up", list.size());
    proc->Reset(ui);
  }
}
}  // namespace

HX_MAIN([] {
  RegisterFixtures();
  Rule("the description of a job lists every instruction and variable once with unique dense indices, the real structure, types and attributes");
  Rule("every index addresses the instruction it describes, for breakpoints and for updates");
  Rule("copies, moves and the translation to a value and back keep a description; a malformed description is refused");
  Rule("whenever the job is quiet, an observer that applied all updates has the statuses, values, availability, breakpoints and next leaves of the procedure");
  Static();
    Objects();
  Maps();
  Malformed();
  Dynamic();
  Breakpoints();
})

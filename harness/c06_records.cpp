// Passive records: exceptions keep their message and family, the preamble keeps its entries,
// breakpoints keep their instruction and status.
#include "hx.h"

#include <sup/oac-tree/breakpoint.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/procedure_preamble.h>

#include <list>

using namespace sup::oac_tree;
using namespace hx;

namespace
{
std::string RandomText(Rng& r)
{
  int len = r.chance(1, 6) ? 0 : r.chance(1, 4) ? r.range(200, 3000) : r.range(1, 40);
  std::string s;
  for (int i = 0; i < len; ++i) s += r.chance(9, 10) ? static_cast<char>(r.range(32, 126)) : static_cast<char>(r.range(1, 255));
  return s;
}

template <typename E> void ExceptionCase(const std::string& m, const char* name)
{
  bool caught = false;
  try
  {
    std::string copy = m;
    try { throw E(copy); }
    catch (const E& e)
    {
      copy.assign(copy.size(), '#');   // the exception owns its text
      HX_CHECK(e.what() == std::string(m), "exception:message", name << " says " << Quote(e.what()) << " expected " << Quote(m));
      E dup(e);
      HX_CHECK(dup.what() == std::string(m), "exception:message", name << " copy");
      throw;
    }
  }
  catch (const MessageException& e)
  {
    caught = true;
    HX_CHECK(e.what() == std::string(m), "exception:message", name << " through its base class says " << Quote(e.what()));
    const std::exception& b = e;
    HX_CHECK(b.what() == std::string(m), "exception:message", name << " as std::exception says " << Quote(b.what()));
  }
  catch (const std::exception&) {}
  HX_CHECK(caught, "exception:family", name << " is not caught as the message exception");
  Eval();
  Distinct(std::string(name) + m);
}

template <typename E, typename F> void Unrelated(const char* a, const char* b)
{
  bool wrong = false;
  try { throw E("x"); }
  catch (const F&) { wrong = true; }
  catch (...) {}
  HX_CHECK(!wrong, "exception:family", a << " was caught by a handler for " << b);
  Eval();
}

void Exceptions()
{
  Section s("exceptions");
  if (!s.run) return;
  Rng rng(Opt().seed * 11);
  for (long n = Scale(400, 10, 3); n > 0 && !TooMany(); --n)
  {
    auto m = RandomText(rng);
    ExceptionCase<MessageException>(m, "MessageException");
    ExceptionCase<RuntimeException>(m, "RuntimeException");
    ExceptionCase<InvalidOperationException>(m, "InvalidOperationException");
    ExceptionCase<ParseException>(m, "ParseException");
    ExceptionCase<ProcedureSetupException>(m, "ProcedureSetupException");
    ExceptionCase<InstructionSetupException>(m, "InstructionSetupException");
    ExceptionCase<VariableSetupException>(m, "VariableSetupException");
  }
#define HX_PAIRS(E) \
  if (strcmp(#E, "RuntimeException")) Unrelated<E, RuntimeException>(#E, "RuntimeException"); \
  if (strcmp(#E, "InvalidOperationException")) Unrelated<E, InvalidOperationException>(#E, "InvalidOperationException"); \
  if (strcmp(#E, "ParseException")) Unrelated<E, ParseException>(#E, "ParseException"); \
  if (strcmp(#E, "ProcedureSetupException")) Unrelated<E, ProcedureSetupException>(#E, "ProcedureSetupException"); \
  if (strcmp(#E, "InstructionSetupException")) Unrelated<E, InstructionSetupException>(#E, "InstructionSetupException"); \
  if (strcmp(#E, "VariableSetupException")) Unrelated<E, VariableSetupException>(#E, "VariableSetupException");
  HX_PAIRS(RuntimeException)
  HX_PAIRS(InvalidOperationException)
  HX_PAIRS(ParseException)
  HX_PAIRS(ProcedureSetupException)
  HX_PAIRS(InstructionSetupException)
  HX_PAIRS(VariableSetupException)
}

struct PModel { std::vector<std::pair<int, std::string>> types; std::vector<std::string> plugins; };

bool Same(const ProcedurePreamble& p, const PModel& m, const std::string& hist)
{
  auto t = p.GetTypeRegistrations();
  bool ok = t.size() == m.types.size();
  for (size_t i = 0; ok && i < t.size(); ++i)
    ok = static_cast<int>(t[i].GetRegistrationMode()) == m.types[i].first && t[i].GetString() == m.types[i].second;
  if (!ok) { Violation("preamble:types", "type registrations differ from what was added (" + std::to_string(t.size()) + " kept, " + std::to_string(m.types.size()) + " added): " + hist.substr(0, 1500)); return false; }
  if (p.GetPluginPaths() != m.plugins) { Violation("preamble:plugins", "plugin paths differ from what was added: " + hist.substr(0, 1500)); return false; }
  return true;
}

void Preamble()
{
  Section s("preamble");
  if (!s.run) return;
  Rng rng(Opt().seed * 13);
  for (long n = Scale(600, 10, 3); n > 0 && !TooMany(); --n)
  {
    ProcedurePreamble p;
    PModel m;
    std::string hist;
    std::vector<std::string> pool;
    int k = rng.range(1, 6);
    for (int i = 0; i < k; ++i) pool.push_back(RandomText(rng));
    int len = rng.range(0, 40);
    bool ok = Same(p, m, hist);
    for (int i = 0; ok && i < len; ++i)
    {
      // texts repeat often: duplicates are kept, in order
      std::string x = rng.chance(2, 3) ? rng.pick(pool) : RandomText(rng);
      if (rng.chance(1, 2))
      {
        int mode = rng.chance(1, 2) ? TypeRegistrationInfo::kJSONFile : TypeRegistrationInfo::kJSONString;
        std::string y = x;
        TypeRegistrationInfo info(static_cast<TypeRegistrationInfo::RegistrationMode>(mode), y);
        y.assign(y.size(), '?');
        HX_CHECK(info.GetString() == x && static_cast<int>(info.GetRegistrationMode()) == mode, "preamble:registration", "a registration record does not return what it was given: " << Quote(x.substr(0, 200)));
        p.AddTypeRegistration(info);
        m.types.push_back({mode, x});
        hist += "T" + std::to_string(mode) + ":" + Quote(x.substr(0, 20)) + " ";
      }
      else
      {
        p.AddPluginPath(x);
        m.plugins.push_back(x);
        hist += "P:" + Quote(x.substr(0, 20)) + " ";
      }
      ok = Same(p, m, hist);
    }
    // copies and assignments are independent of the original
    if (ok)
    {
      ProcedurePreamble q(p);
      Same(q, m, hist + " (copy)");
      PModel mq = m;
      q.AddPluginPath("only in the copy");
      mq.plugins.push_back("only in the copy");
      q.AddTypeRegistration({TypeRegistrationInfo::kJSONFile, "f"});
      mq.types.push_back({TypeRegistrationInfo::kJSONFile, "f"});
      Same(q, mq, hist + " (changed copy)");
      Same(p, m, hist + " (original after the copy changed)");
      ProcedurePreamble r;
      r.AddPluginPath("gone");
      r = p;
      Same(r, m, hist + " (assigned)");
      ProcedurePreamble t(std::move(q));
      Same(t, mq, hist + " (moved)");
      // returned lists are snapshots
      auto l = p.GetPluginPaths();
      l.push_back("x");
      auto l2 = p.GetTypeRegistrations();
      l2.clear();
      Same(p, m, hist + " (after changing returned lists)");
    }
    Eval();
    if (len) Distinct(hist);
    if (n % 250 == 1) Sample("preamble built from: " + hist.substr(0, 500));
  }
}

void Breakpoints()
{
  Section s("breakpoints");
  if (!s.run) return;
  Rng rng(Opt().seed * 17);
  static int dummy[64];
  for (long n = Scale(1500, 10, 3); n > 0 && !TooMany(); --n)
  {
    std::list<Breakpoint> l;
    std::vector<std::pair<const Instruction*, int>> m;
    int k = rng.range(1, 10);
    for (int i = 0; i < k; ++i)
    {
      auto p = rng.chance(1, 10) ? nullptr : reinterpret_cast<const Instruction*>(&dummy[rng.range(0, 63)]);
      l.emplace_back(p);
      m.push_back({p, Breakpoint::kSet});
    }
    std::string hist;
    for (int i = 0; i < 30; ++i)
    {
      int j = rng.range(0, k - 1);
      auto it = std::next(l.begin(), j);
      auto st = rng.chance(1, 2) ? Breakpoint::kSet : Breakpoint::kReleased;
      int what = rng.range(0, 3);
      if (what == 0) { it->SetStatus(st); m[j].second = st; }
      else if (what == 1) { Breakpoint c(*it); c.SetStatus(st); HX_CHECK(c.GetInstruction() == m[j].first && c.GetStatus() == st, "breakpoint:copy", "copy of a breakpoint"); }
      else if (what == 2) { int o = rng.range(0, k - 1); *it = *std::next(l.begin(), o); m[j] = m[o]; }
      hist += std::to_string(what) + std::to_string(j) + std::to_string(st) + " ";
      size_t x = 0;
      for (auto& b : l)
      {
        HX_CHECK(b.GetInstruction() == m[x].first, "breakpoint:instruction", "breakpoint " << x << " names another instruction after " << hist);
        HX_CHECK(b.GetStatus() == m[x].second, "breakpoint:status", "breakpoint " << x << " has status " << b.GetStatus() << " after " << hist);
        ++x;
      }
    }
    Eval();
    Distinct(hist);
    if (n % 800 == 1) Sample("breakpoint operations (what,index,status): " + hist);
  }
}

void Body()
{
  Rule("random messages, registration lists with duplicates, and breakpoint operation sequences compared with plain "
       "containers after every operation; non-trivial: at least one entry; distinct by content");
  Exceptions();
  Preamble();
  Breakpoints();
}
}  // namespace

HX_MAIN(Body)

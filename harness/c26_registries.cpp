// Registries of instruction and variable types; data types registered by a procedure's preamble.
#include <filesystem>
#include "full.h"

#include <sup/dto/json_type_parser.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <thread>

using namespace fx;
using namespace hx;

namespace
{
const int NCTOR = 12;
template <int N>
class FakeInstruction : public Instruction
{
public:
  FakeInstruction() : Instruction("Fake" + std::to_string(N)) {}
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; }
};
template <int N>
class FakeVariable : public Variable
{
public:
  FakeVariable() : Variable("Fake" + std::to_string(N)) {}
  bool GetValueImpl(sup::dto::AnyValue&) const override { return false; }
  bool SetValueImpl(const sup::dto::AnyValue&) override { return false; }
};
template <class R>
struct Access;
template <>
struct Access<InstructionRegistry>
{
  using Ctor = InstructionRegistry::InstructionConstructor;
  template <int N>
  static Ctor Make() { return []() -> Instruction* { return new FakeInstruction<N>(); }; }
  static bool Register(InstructionRegistry& r, const std::string& n, Ctor c) { return r.RegisterInstruction(n, c); }
  static std::vector<std::string> Names(InstructionRegistry& r) { return r.RegisteredInstructionNames(); }
  static bool Is(InstructionRegistry& r, const std::string& n) { return r.IsRegisteredInstructionName(n); }
};
template <>
struct Access<VariableRegistry>
{
  using Ctor = VariableRegistry::VariableConstructor;
  template <int N>
  static Ctor Make() { return []() -> Variable* { return new FakeVariable<N>(); }; }
  static bool Register(VariableRegistry& r, const std::string& n, Ctor c) { return r.RegisterVariable(n, c); }
  static std::vector<std::string> Names(VariableRegistry& r) { return r.RegisteredVariableNames(); }
  static bool Is(VariableRegistry& r, const std::string& n) { return r.IsRegisteredVariableName(n); }
};
template <class R, int... I>
std::vector<typename Access<R>::Ctor> Ctors(std::integer_sequence<int, I...>)
{
  return {Access<R>::template Make<I>()...};
}

std::string RandomName(Rng& r)
{
  static const std::vector<std::string> fixed{"", "A", "a", "AA", "Aa", " A", "A ", "Copy", "copy", "Sequence", "B", "BA", "\xc3\xa9", "a b", "Local"};
  if (r.chance(2, 3)) return r.pick(fixed);
  std::string s;
  for (int k = 1 + static_cast<int>(r.below(3)); k > 0; --k) s += r.pick(std::vector<std::string>{"A", "a", "B", "_", "1"});
  return s;
}

template <class R>
void History(const std::string& what, Rng& r)
{
  using A = Access<R>;
  static const auto ctors = Ctors<R>(std::make_integer_sequence<int, NCTOR>{});
  R reg;
  std::map<std::string, int> model;
  std::string history;
  int n = 5 + static_cast<int>(r.below(60));
  for (int k = 0; k < n; ++k)
  {
    auto name = RandomName(r);
    bool known = model.count(name) > 0;
    switch (r.below(4))
    {
    case 0:
    {
      int c = static_cast<int>(r.below(NCTOR));
      history += "R" + name + "/" + std::to_string(c) + ";";
      bool refused = false;
      bool result = false;
      try { result = A::Register(reg, name, ctors[static_cast<size_t>(c)]); }
      catch (const MessageException&) { refused = true; }
      if (known) HX_CHECK(refused, what + ":twice", "a name could be registered twice: " << history);
      else HX_CHECK(!refused && result, what + ":register", "a registration was refused: " << history);
      if (!known) model[name] = c;
      Count("registrations");
      break;
    }
    case 1:
    {
      history += "C" + name + ";";
      std::string got;
      bool refused = false;
      try { auto p = reg.Create(name); got = p ? p->GetType() : "(null)"; }
      catch (const MessageException& e) { refused = true; got = e.what(); }
      if (known) HX_CHECK(!refused && got == "Fake" + std::to_string(model[name]), what + ":create", "name " << Quote(name) << " gives " << got << " instead of Fake" << model[name] << ": " << history);
      else HX_CHECK(refused && got.find(name) != std::string::npos, what + ":unknown", "an unknown name was not reported: " << got << ": " << history);
      Count("creations");
      break;
    }
    case 2:
      HX_CHECK(A::Is(reg, name) == known, what + ":is", "IsRegistered(" << Quote(name) << ") is wrong: " << history);
      break;
    default:
    {
      auto names = A::Names(reg);
      std::multiset<std::string> got(names.begin(), names.end());
      std::multiset<std::string> want;
      for (auto& m : model) want.insert(m.first);
      HX_CHECK(got == want, what + ":names", got.size() << " names listed, " << want.size() << " registered: " << history);
    }
    }
    Eval();
  }
  Distinct(history);
}

void Registries()
{
  Section s("registries");
  if (!s.run) return;
  Rng r(Opt().seed * 31 + 1);
  for (long k = Scale(6000, 30, 4); k > 0 && !TooMany(); --k)
  {
    History<InstructionRegistry>("instructions", r);
    History<VariableRegistry>("variables", r);
    Beat();
  }
}

// every documented type name is in the global registry and gives an object of that type, from several threads
void Global()
{
  Section s("global");
  if (!s.run) return;
  static const std::vector<std::string> docs{"Async", "Choice", "Condition", "Copy", "CopyFromProcedure", "CopyToProcedure", "Decrement", "Equals", "Fail", "Fallback", "For", "ForceSuccess", "GreaterThan", "GreaterThanOrEqual", "Include", "IncludeProcedure", "Increment", "Input", "Inverter", "LessThan", "LessThanOrEqual", "Listen", "Log", "Message", "Output", "ParallelSequence", "ReactiveFallback", "ReactiveSequence", "Repeat", "ResetVariable", "Sequence", "Succeed", "UserChoice", "UserConfirmation", "VarExists", "Wait", "WaitForVariable", "WaitForVariables", "AddElement", "AddMember"};
  auto& reg = GlobalInstructionRegistry();
  auto names = reg.RegisteredInstructionNames();
  std::set<std::string> set(names.begin(), names.end());
  HX_CHECK(set.size() == names.size(), "global:names", "a name is listed twice");
  for (auto& d : docs) HX_CHECK(set.count(d), "global:missing", "the documented instruction " << d << " is not registered");
  for (auto n : {"Local", "File"}) HX_CHECK(GlobalVariableRegistry().IsRegisteredVariableName(n), "global:variables", "the documented variable type " << n << " is not registered");
  std::atomic<long> made{0};
  std::atomic<int> wrong{0};
  PerturbOn(Opt().seed, 16, 50);
  std::vector<std::thread> ts;
  for (int t = 0; t < 6; ++t)
  {
    ts.emplace_back([&, t] {
      Rng r(Opt().seed * 7 + 100 + static_cast<unsigned>(t));
      for (long k = Scale(4000, 10, 4); k > 0; --k)
      {
        auto n = r.pick(names);
        auto i = GlobalInstructionRegistry().Create(n);
        if (!i || i->GetType() != n || !GlobalInstructionRegistry().IsRegisteredInstructionName(n)) ++wrong;
        bool refused = false;
        try { (void)GlobalInstructionRegistry().Create(n + "x"); } catch (const InvalidOperationException&) { refused = true; }
        if (!refused || GlobalInstructionRegistry().IsRegisteredInstructionName(n + "x")) ++wrong;
        auto v = GlobalVariableRegistry().Create(r.chance(1, 2) ? "Local" : "File");
        if (!v) ++wrong;
        ++made;
      }
    });
  }
  for (auto& t : ts) t.join();
  PerturbOff();
  HX_CHECK(wrong == 0, "global:create", wrong << " look-ups in the global registries were wrong");
  Count("look-ups from 6 threads", made);
  Eval(static_cast<long>(made));
}

// ---- data types ----------------------------------------------------------------------------
struct TypeDef
{
  std::string name;
  std::string json;       // as registered: refers to other types by name
  std::string expanded;   // everything written out
};
const std::vector<std::string> SCALARS{"bool", "char8", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "string"};

// a type expression: {as registered, expanded}
std::pair<std::string, std::string> TypeExpr(Rng& r, const std::vector<TypeDef>& known, int depth, const std::string& name)
{
  if (name.empty() && !known.empty() && r.chance(1, 2))
  {
    auto& t = r.pick(known);
    return {"{\"type\":\"" + t.name + "\"}", t.expanded};
  }
  if (name.empty() && (depth == 0 || r.chance(1, 2)))
  {
    std::string t = "{\"type\":\"" + r.pick(SCALARS) + "\"}";
    return {t, t};
  }
  if (r.chance(1, 3))
  {
    auto e = TypeExpr(r, known, depth - 1, "");
    auto head = "{\"type\":\"" + name + "\",\"multiplicity\":" + std::to_string(1 + r.below(4)) + ",\"element\":";
    return {head + e.first + "}", head + e.second + "}"};
  }
  auto head = "{\"type\":\"" + name + "\",\"attributes\":[";
  std::pair<std::string, std::string> res{head, head};
  int n = 1 + static_cast<int>(r.below(3));
  for (int i = 0; i < n; ++i)
  {
    auto e = TypeExpr(r, known, depth - 1, "");
    auto m = std::string(i ? "," : "") + "{\"m" + std::to_string(i) + "\":";
    res.first += m + e.first + "}";
    res.second += m + e.second + "}";
  }
  res.first += "]}";
  res.second += "]}";
  return res;
}
sup::dto::AnyType Parse(const std::string& json)
{
  sup::dto::JSONAnyTypeParser p;
  if (!p.ParseString(json)) throw std::runtime_error("harness: " + json);
  return p.MoveAnyType();
}
std::string XmlText(const std::string& s)
{
  std::string o;
  for (char c : s) o += c == '"' ? "&quot;" : c == '<' ? "&lt;" : c == '&' ? "&amp;" : std::string(1, c);
  return o;
}

struct Gen
{
  std::string xml;
  std::string refusal;                                               // why it must be refused, "" when not
  std::vector<std::pair<std::string, sup::dto::AnyType>> vars;       // variable and the type it must have
};

Gen GenProc(Rng& r, const std::string& dir, const std::string& tag, bool may_refuse, const std::string& body)
{
  Gen g;
  std::vector<TypeDef> types;
  std::map<std::string, sup::dto::AnyType> reg;
  std::string pre;
  int n = static_cast<int>(r.below(6));
  int bad = may_refuse && r.chance(1, 2) ? static_cast<int>(r.below(4)) : -1;
  auto add = [&](const std::string& json) {
    if (r.chance(1, 3))
    {
      static std::atomic<int> files{0};
      auto f = tag + std::to_string(++files) + ".json";
      WriteFile(dir + "/" + f, json);
      pre += "<RegisterType jsonfile=\"" + (r.chance(1, 2) ? f : dir + "/" + f) + "\"/>\n";
    }
    else pre += "<RegisterType jsontype=\"" + XmlText(json) + "\"/>\n";
  };
  auto define = [&](const std::string& name) {
    auto e = TypeExpr(r, types, 2, name);
    add(e.first);
    types.push_back({name, e.first, e.second});
  };
  for (int i = 0; i < n; ++i) define(std::string("T") + std::to_string(i));
  if (!types.empty() && r.chance(1, 4)) { add(r.pick(types).json); }   // the same registration once more is harmless
  if (!types.empty() && r.chance(1, 4)) { add(r.pick(types).expanded); }
  auto var = [&](const std::string& name, const std::string& json, const std::string& expanded) {
    g.xml += "<Local name=\"" + name + "\" type=\"" + XmlText(json) + "\"/>\n";
    g.vars.push_back({name, Parse(expanded)});
  };
  if (bad == 0)
  {
    add("{\"type\":\"U\",\"attributes\":[{\"x\":{\"type\":\"Unknown\"}}]}");
    g.refusal = "a registered type refers to an unknown type";
  }
  else if (bad == 1)
  {
    add("{\"type\":\"Late\",\"attributes\":[{\"x\":{\"type\":\"Later\"}}]}");
    add("{\"type\":\"Later\",\"attributes\":[{\"x\":{\"type\":\"int8\"}}]}");
    g.refusal = "a registered type refers to a type registered after it";
  }
  else if (bad == 2 && !types.empty())
  {
    auto& t = r.pick(types);
    add("{\"type\":\"" + t.name + "\",\"attributes\":[{\"other\":{\"type\":\"int8\"}}]}");
    g.refusal = "a name is registered for two different types";
  }
  int m = 1 + static_cast<int>(r.below(5));
  std::string vars;
  for (int i = 0; i < m; ++i)
  {
    auto e = TypeExpr(r, types, 2, "");
    var(tag + "v" + std::to_string(i), e.first, e.second);
  }
  if (bad == 3)
  {
    g.xml += "<Local name=\"bad\" type=\"{&quot;type&quot;:&quot;" + (r.chance(1, 2) ? "Unknown" : "T" + std::to_string(n)) + "&quot;}\"/>\n";
    g.refusal = "a variable has an unknown type";
  }
  g.xml = "<?xml version=\"1.0\"?>\n<Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p\">\n" + pre + body + "<Workspace>\n" + g.xml + "</Workspace>\n</Procedure>\n";
  return g;
}

void CheckVars(Workspace& ws, const Gen& g, const std::string& key)
{
  for (auto& [name, type] : g.vars)
  {
    sup::dto::AnyValue v;
    bool got = ws.GetValue(name, v);
    HX_CHECK(got && v.GetType() == type, key, "variable " << name << (got ? " does not have the registered type" : " has no value") << "\n" << g.xml.substr(0, 3000));
    Count("variables of registered types checked");
  }
}

void OneFamily(Rng& r, const std::string& dir, const std::string& tag)
{
  DefaultUserInterface ui;
  // two unrelated procedures with different types under the same names, the second with its own sub-procedure
  auto a = GenProc(r, dir, tag + "a", true, "<Succeed/>\n");
  // the sub-procedure is in a directory of its own, its type files beside it
  std::string place = r.chance(1, 2) ? "sub/" : "";
  auto sub = GenProc(r, dir + "/" + place, tag + "s", true, "<Succeed name=\"top\"/>\n");
  auto sub_file = place + tag + "sub.xml";
  WriteFile(dir + "/" + sub_file, sub.xml);
  bool use_sub = r.chance(1, 2);
  auto b = GenProc(r, dir, tag + "b", !use_sub, use_sub ? "<IncludeProcedure name=\"i\" file=\"" + sub_file + "\" path=\"top\"/>\n" : "<Succeed/>\n");
  WriteFile(dir + "/" + tag + "a.xml", a.xml);
  WriteFile(dir + "/" + tag + "b.xml", b.xml);
  auto pa = ParseProcedureFile(dir + "/" + tag + "a.xml");
  auto pb = ParseProcedureFile(dir + "/" + tag + "b.xml");
  auto refusal_b = use_sub && b.refusal.empty() && !sub.refusal.empty() ? "sub-procedure: " + sub.refusal : b.refusal;
  auto setup = [&](Procedure& p, const std::string& refusal, const std::string& xml) {
    std::string error;
    bool other = false;
    try { p.Setup(); }
    catch (const MessageException& e) { error = std::string("refused: ") + e.what(); }
    catch (const std::exception& e) { error = std::string("refused: ") + e.what(); other = true; }
    HX_CHECK(error.empty() == refusal.empty(), refusal.empty() ? "types:refused" : "types:accepted", (refusal.empty() ? "refused: " + error : "accepted although " + refusal) << "\n" << xml.substr(0, 3000));
    HX_CHECK(!other, "types:exception", "not an exception of the library: " << error);
    Count(error.empty() ? "procedures accepted" : "procedures refused");
    return error.empty();
  };
  bool first_a = r.chance(1, 2);
  bool oka = false;
  bool okb = false;
  if (first_a) oka = setup(*pa, a.refusal, a.xml);
  okb = setup(*pb, refusal_b, b.xml + (use_sub ? sub.xml : ""));
  if (!first_a) oka = setup(*pa, a.refusal, a.xml);
  if (oka) CheckVars(pa->GetWorkspace(), a, "types:variable");
  if (okb)
  {
    CheckVars(pb->GetWorkspace(), b, "types:variable");
    if (use_sub) CheckVars(pb->GetContext().GetWorkspace(dir + "/" + sub_file), sub, "types:sub");
  }
  // types of one procedure are unknown to the other one
  for (int i = 0; i < 7; ++i)
  {
    auto t = "T" + std::to_string(i);
    auto has = [&](const Gen& g) { return g.xml.find("{&quot;type&quot;:&quot;" + t + "&quot;,") != std::string::npos; };
    auto json_only = [&](const Gen& g) { return g.xml.find("jsonfile") == std::string::npos; };
    if (oka && json_only(a)) HX_CHECK(pa->GetTypeRegistry().HasType(t) == has(a), "types:leak", "type " << t << (has(a) ? " is not known" : " is known") << "\n" << a.xml.substr(0, 2000));
    if (okb && json_only(b)) HX_CHECK(pb->GetTypeRegistry().HasType(t) == has(b), "types:leak", "type " << t << (has(b) ? " is not known" : " is known") << "\n" << b.xml.substr(0, 2000));
  }
  // tearing down and setting up again gives the same types
  if (oka)
  {
    pa->Reset(ui);
    if (setup(*pa, "", a.xml)) CheckVars(pa->GetWorkspace(), a, "types:again");
    pa->Reset(ui);
  }
  if (okb) pb->Reset(ui);
  Eval();
  DistinctHash(std::hash<std::string>{}(a.xml + b.xml));
}

void Types()
{
  Section s("types");
  if (!s.run) return;
  auto dir = Opt().scratch + "/types";                               // never the working directory of the process
  std::filesystem::create_directories(dir + "/sub");
  Rng r(Opt().seed * 97 + 5);
  for (long k = Scale(6000, 12, 6); k > 0 && !TooMany(); --k)
  {
    OneFamily(r, dir, "f" + std::to_string(k) + "_");
    Beat();
  }
}

void Threads()
{
  Section s("threads");
  if (!s.run) return;
  auto dir = Opt().scratch + "/types";
  std::filesystem::create_directories(dir + "/sub");
  PerturbOn(Opt().seed, 32, 50);
  std::vector<std::thread> ts;
  for (int t = 0; t < 6; ++t)
  {
    ts.emplace_back([t, dir] {
      Rng r(Opt().seed * 131 + 9 + static_cast<unsigned>(t));
      for (long k = Scale(500, 12, 3); k > 0 && !TooMany(); --k)
      {
        OneFamily(r, dir, "t" + std::to_string(t) + "_" + std::to_string(k) + "_");
        Beat();
      }
    });
  }
  for (auto& t : ts) t.join();
  PerturbOff();
}

// instruction and variable type names in procedure texts
void Names()
{
  Section s("names");
  if (!s.run) return;
  Rng r(Opt().seed * 11 + 3);
  auto in = GlobalInstructionRegistry().RegisteredInstructionNames();
  for (long k = Scale(1500, 10, 5); k > 0 && !TooMany(); --k)
  {
    auto n = r.pick(in);
    auto m = n;
    switch (r.below(4))
    {
    case 0: break;
    case 1: m += "s"; break;
    case 2: m = m.substr(0, m.size() - 1) + "_"; break;
    default: m[0] = static_cast<char>(std::tolower(m[0]));
    }
    bool ok = std::find(in.begin(), in.end(), m) != in.end();
    std::string var = r.chance(1, 3) ? "Locale" : r.chance(1, 2) ? "File" : "Local";
    bool okv = GlobalVariableRegistry().IsRegisteredVariableName(var);
    auto xml = "<Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p\"><Sequence><" + m + "/></Sequence><Workspace><" + var + " name=\"v\"/></Workspace></Procedure>";
    std::string error;
    try
    {
      auto p = ParseProcedureString(xml);
      auto i = p->RootInstruction()->ChildInstructions()[0];
      HX_CHECK(i->GetType() == m, "names:type", "element " << m << " gives an instruction of type " << i->GetType());
      HX_CHECK(p->GetWorkspace().GetVariables()[0]->GetType() == var, "names:vartype", "element " << var << " gives another variable type");
    }
    catch (const MessageException& e) { error = std::string("refused: ") + e.what(); }
    HX_CHECK(error.empty() == (ok && okv), "names:outcome", "element " << m << " with variable " << var << ": " << (error.empty() ? "accepted" : error));
    if (!error.empty()) HX_CHECK(error.find(ok ? var : m) != std::string::npos || error.find(okv ? m : var) != std::string::npos, "names:message", "the unknown name is not in the error: " << error);
    Eval();
    Distinct(xml);
    Count(error.empty() ? "texts accepted" : "texts refused");
  }
}

// a plugin that cannot be loaded is an error of the procedure naming it; one that can is loaded and remembered
void Plugins()
{
  Section s("plugins");
  if (!s.run) return;
  auto loads = [](const std::string& n)
  {
    try { LoadPlugin(n); }
    catch (const MessageException&) { return false; }
    return true;
  };
  std::vector<std::pair<std::string, bool>> names{{"libm.so.6", true}, {"libz.so.1", true}, {"libpthread.so.0", true},
    {"libhx-no-such.so", false}, {"/nonexistent/x.so", false}, {"libm.so.6 ", false}, {Opt().scratch, false}, {Opt().scratch + "/text.so", false}};
  WriteFile(Opt().scratch + "/text.so", "not a library");
  HX_CHECK(!loads(""), "plugin:empty", "an empty name is accepted");
  for (int round = 0; round < 3; ++round)
  {
    for (auto& n : names) HX_CHECK(loads(n.first) == n.second, "plugin:load", n.first << (n.second ? " is refused" : " is accepted"));
    for (auto& a : names)
      for (auto& b : names)
      {
        auto xml = "<Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p\"><Plugin>" + a.first + "</Plugin><Plugin>" + b.first
          + "</Plugin><Sequence/><Workspace/></Procedure>";
        bool ok = false;
        try
        {
          auto p = ParseProcedureString(xml);
          ok = true;
          HX_CHECK(p->GetPreamble().GetPluginPaths() == std::vector<std::string>({a.first, b.first}), "plugin:paths", xml);
        }
        catch (const MessageException&) {}
        HX_CHECK(ok == (a.second && b.second), "plugin:procedure", xml << (ok ? " is accepted" : " is refused"));
        Eval();
        Distinct(xml);
        Count(ok ? "procedures with plugins accepted" : "procedures with plugins refused");
      }
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("registration histories, procedures with type registrations, texts with type names; distinct by history or text");
    Registries();
    Global();
    Types();
    Threads();
    Names();
    Plugins();
  })

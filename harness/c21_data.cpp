// Data instructions on random operands: result, effect on the workspace and nothing else, reporting.
#include "full.h"

#include <fstream>
#include <limits>
#include <sup/dto/anyvalue_operations.h>

using namespace fx;
using namespace hx;
using sup::dto::AnyValue;

namespace
{
const char* const kScalars[] = {"bool", "char8", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "string"};

// text of a value of a scalar type, with extremes
std::string ScalarText(Rng& r, const std::string& t)
{
  auto pick = [&](std::vector<std::string> v) { return r.pick(v); };
  bool small = r.chance(2, 3);
  if (t == "bool") return r.chance(1, 2) ? "true" : "false";
  if (t == "string") return pick({"\"\"", "\"a\"", "\"b\"", "\"12\"", "\"true\"", "\"&amp; <x>\""});
  if (t == "char8") return std::to_string(r.range(0, 120));
  if (t == "float32" || t == "float64") return small ? std::to_string(r.range(-3, 3)) + (r.chance(1, 2) ? ".0" : ".5") : pick({"1e30", "-1e30", "16777216.0", "0.1", "-0.0", "1e-30"});
  if (small) return std::to_string(r.range(t[0] == 'u' ? 0 : -3, 3));
  if (t == "int8") return pick({"-128", "127", "-127", "126"});
  if (t == "uint8") return pick({"255", "254", "128"});
  if (t == "int16") return pick({"-32768", "32767"});
  if (t == "uint16") return pick({"65535", "32768"});
  if (t == "int32") return pick({"-2147483648", "2147483647", "2147483646"});
  if (t == "uint32") return pick({"4294967295", "2147483648"});
  if (t == "int64") return pick({"-9223372036854775808", "9223372036854775807", "9223372036854775806", "9007199254740993", "-1"});
  return pick({"18446744073709551615", "9223372036854775808", "18446744073709551614", "9007199254740993"});
}
bool IsInt(const AnyValue& v)
{
  auto t = sup::dto::AnyTypeToJSONString(v.GetType());
  return t.find("int") != std::string::npos && sup::dto::IsScalarValue(v);
}
__int128 Exact(const AnyValue& v)
{
  return v.GetType() == sup::dto::UnsignedInteger64Type ? static_cast<__int128>(v.As<sup::dto::uint64>()) : static_cast<__int128>(v.As<sup::dto::int64>());
}
struct World
{
  Workspace ws;
  std::vector<std::string> paths;
};
struct Decl
{
  std::string name, type, value;
  bool dynamic = false;
};
std::vector<Decl> RandomVars(Rng& r)
{
  std::vector<Decl> d;
  auto scalar = [&](const std::string& n)
  {
    std::string t = kScalars[r.below(13)];
    d.push_back({n, "{\"type\":\"" + t + "\"}", ScalarText(r, t), r.chance(1, 6)});
  };
  for (auto n : {"a", "b", "c"}) scalar(n);
  std::string t1 = kScalars[r.below(13)], t2 = kScalars[r.below(13)];
  auto te = r.chance(1, 2) ? t1 : t2;
  d.push_back({"st", "{\"type\":\"r\",\"attributes\":[{\"xy\":{\"type\":\"" + t1 + "\"}},{\"y\":{\"type\":\"q\",\"attributes\":[{\"z\":{\"type\":\"" + t2 + "\"}}]}}]}",
               "{\"xy\":" + ScalarText(r, t1) + ",\"y\":{\"z\":" + ScalarText(r, t2) + "}}", r.chance(1, 2)});
  d.push_back({"su", "{\"type\":\"r\",\"attributes\":[{\"xy\":{\"type\":\"" + t1 + "\"}},{\"y\":{\"type\":\"q\",\"attributes\":[{\"z\":{\"type\":\"" + t2 + "\"}}]}}]}",
               "{\"xy\":" + ScalarText(r, t1) + ",\"y\":{\"z\":" + ScalarText(r, t2) + "}}", r.chance(1, 2)});
  std::string el;
  int n = r.range(0, 3);
  for (int k = 0; k < n; ++k) el += (k ? "," : "") + ScalarText(r, te);
  d.push_back({"ar", "{\"type\":\"\",\"element\":{\"type\":\"" + te + "\"}}", "[" + el + "]", r.chance(1, 2)});
  d.push_back({"em", "", "", r.chance(1, 2)});
  return d;
}
void Declare(Workspace& ws, const std::vector<Decl>& d)
{
  for (auto& x : d)
  {
    auto v = GlobalVariableRegistry().Create("Local");
    if (!x.type.empty())
    {
      v->AddAttribute("type", x.type);
      v->AddAttribute("value", x.value);
    }
    if (x.dynamic) v->AddAttribute("dynamicType", "true");
    v->SetName(x.name);
    ws.AddVariable(x.name, std::move(v));
  }
}
std::string State(Workspace& ws)
{
  std::string s;
  for (auto& n : ws.VariableNames())
  {
    AnyValue v;
    s += n + "=" + (ws.GetValue(n, v) ? Json(v) : "none") + "\n";
  }
  return s;
}
const std::vector<std::string> kPaths{"a", "b", "c", "a", "b", "c", "st", "st.xy", "st.y", "st.y.z", "su", "su.y", "su.xy", "ar", "ar[0]", "ar[1]", "em", "em.xy", "none", "none.xy", "st.none", "ar[7]", "a.xy"};

// type of the value at a path: "[]t" for arrays of t, "{}" for structures
std::string TypeAt(Workspace& probe, const std::string& path)
{
  AnyValue v;
  if (!probe.GetValue(path, v)) return "";
  if (sup::dto::IsStructValue(v)) return "{}";
  if (sup::dto::IsArrayValue(v)) return "[]" + sup::dto::AnyTypeToJSONString(v.GetType().ElementType());
  return sup::dto::AnyTypeToJSONString(v.GetType());
}

void Random()
{
  Section s("random");
  if (!s.run) return;
  Rng r(Opt().seed * 41 + 1);
  long n = Scale(25000, 12, 6);
  static const std::vector<std::string> types{"Copy", "Copy", "Equals", "Equals", "LessThan", "LessThanOrEqual", "GreaterThan", "GreaterThanOrEqual", "Increment", "Decrement", "AddMember", "AddElement", "VarExists", "Condition", "ResetVariable"};
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    auto decl = RandomVars(r);
    auto type = r.pick(types);
    Spec sp;
    sp.type = type;
    auto p1 = r.pick(kPaths), p2 = r.pick(kPaths);
    Workspace probe;
    Declare(probe, decl);
    probe.Setup();
    if (r.chance(1, 2))   // operands of one type more often than chance gives
      for (int x = 0; x < 12; ++x)
      {
        auto t1 = TypeAt(probe, p1), t2 = TypeAt(probe, p2);
        if (!t1.empty() && p1 != p2)
        if (type == "AddElement" ? t2 == "[]" + t1 : type == "AddMember" ? t2 == "{}" : t1 == t2) break;
        p1 = r.pick(kPaths), p2 = r.pick(kPaths);
      }
    std::string member = r.chance(1, 12) ? "" : r.pick(std::vector<std::string>{"x", "xy", "xyz", "XY", "y", "m", "m", "m"});
    bool compare = type.find("Than") != std::string::npos || type == "Equals";
    if (compare) sp.Set("leftVar", p1).Set("rightVar", p2);
    else if (type == "Copy" || type == "AddElement") sp.Set("inputVar", p1).Set("outputVar", p2);
    else if (type == "AddMember") sp.Set("inputVar", p1).Set("outputVar", p2).Set("memberName", member);
    else sp.Set("varName", p1);
    std::string text = ToText(sp) + " with";
    for (auto& d : decl) text += " " + d.name + ":" + d.type + (d.dynamic ? "(dynamic)" : "") + "=" + d.value;
    Case(text);
    auto proc = BuildProc({{sp}, {}, {}, {}});
    Declare(proc->GetWorkspace(), decl);
    Workspace ref;   // what the workspace has to be afterwards
    Declare(ref, decl);
    proc->Setup();
    ref.Setup();
    auto& ws = proc->GetWorkspace();
    // some writes beforehand, so that variables differ from their initial values
    for (int x = static_cast<int>(r.below(3)); x > 0; --x)
    {
      AnyValue v;
      auto from = r.pick(kPaths), to = r.pick(kPaths);
      if (ref.GetValue(from, v))
      {
        bool q = ref.SetValue(to, v), q2 = ws.SetValue(to, v);
        HX_CHECK(q == q2, "data:prewrite", text);
      }
    }
    HX_CHECK(State(ws) == State(ref), "data:pre", text);
    auto before = State(ws);
    AnyValue l, rv;
    bool hl = ref.GetValue(p1, l), hr = ref.GetValue(p2, rv);
    bool ok = false, log = false, skip = false;
    if (type == "Copy")
    {
      ok = hl && ref.SetValue(p2, l);
      log = !ok;
    }
    else if (compare)
    {
      log = !hl || !hr;
      if (hl && hr)
      {
        if (type == "Equals")
        {
          ok = l == rv;
          if (IsInt(l) && IsInt(rv) && l.GetType() == rv.GetType()) ok = Exact(l) == Exact(rv);
          if (l.GetType() == rv.GetType()) ok = Json(l) == Json(rv) || ok;
        }
        else
        {
          using CR = sup::dto::CompareResult;
          auto c = sup::dto::Compare(l, rv);
          if (IsInt(l) && IsInt(rv)) c = Exact(l) < Exact(rv) ? CR::Less : Exact(l) > Exact(rv) ? CR::Greater : CR::Equivalent;
          ok = type == "LessThan" ? c == CR::Less : type == "GreaterThan" ? c == CR::Greater : type == "LessThanOrEqual" ? c == CR::Less || c == CR::Equivalent : c == CR::Greater || c == CR::Equivalent;
        }
      }
    }
    else if (type == "Increment" || type == "Decrement")
    {
      int by = type == "Increment" ? 1 : -1;
      if (hl && IsInt(l))
      {
        AnyValue lim(l);
        __int128 e = Exact(l) + by;
        AnyValue nv(l);
        ok = by > 0 ? sup::dto::Increment(nv) : sup::dto::Decrement(nv);
        // beyond the limits of the type the data library decides
        bool inside = false;
        if (e >= 0) inside = sup::dto::TryConvert(lim, AnyValue{sup::dto::UnsignedInteger64Type, static_cast<sup::dto::uint64>(e)}) && Exact(lim) == e;
        else inside = l.GetType() == sup::dto::UnsignedInteger64Type ? false : (sup::dto::TryConvert(lim, AnyValue{sup::dto::SignedInteger64Type, static_cast<sup::dto::int64>(e)}) && Exact(lim) == e);
        if (inside)
        {
          ok = true;
          nv = lim;
        }
        ok = ok && ref.SetValue(p1, nv);
      }
      else if (hl)
      {
        ok = by > 0 ? sup::dto::Increment(l) : sup::dto::Decrement(l);
        ok = ok && ref.SetValue(p1, l);
      }
      log = !ok;
    }
    else if (type == "VarExists")
    {
      ok = hl;
      skip = true;   // whether a missing variable is worth a log message is not specified
    }
    else if (type == "Condition")
    {
      AnyValue b{false};
      bool can = hl && sup::dto::TryConvert(b, l);
      ok = can && b.As<bool>();
      log = !can;
      if (hl && IsInt(l)) HX_CHECK(can && ok == (Exact(l) != 0), "data:truth-oracle", text);
    }
    else if (type == "ResetVariable")
    {
      ok = ref.HasVariable(p1) && ref.ResetVariable(p1);
      log = !ok;
    }
    else if (type == "AddMember")
    {
      if (hl && hr && !member.empty() && sup::dto::IsStructValue(rv) && !rv.HasField(member))
      {
        try
        {
          rv.AddMember(member, l);
          ok = ref.SetValue(p2, rv);
        }
        catch (const std::exception&)
        {
        }
      }
      log = !ok;
    }
    else if (type == "AddElement")
    {
      if (hl && hr && sup::dto::IsArrayValue(rv) && rv.GetType().ElementType() == l.GetType())
      {
        try
        {
          rv.AddElement(l);
          ok = ref.SetValue(p2, rv);
        }
        catch (const std::exception&)
        {
        }
      }
      log = !ok;
    }
    RecUI ui;
    proc->ExecuteSingle(ui);
    auto st = proc->GetStatus();
    HX_CHECK(st == (ok ? ES::SUCCESS : ES::FAILURE), "data:status:" + type, "status " << StatusChar(st) << ", documented " << (ok ? "success" : "failure") << "\nbefore:\n" << before << text);
    auto after = State(ws), want = State(ref);
    HX_CHECK(after == want, "data:effect:" + type, "the workspace is\n" << after << "instead of\n" << want << "before:\n" << before << text);
    long logs = static_cast<long>(ui.trace.Of(K::kLog).size());
    if (!skip) HX_CHECK(log ? logs > 0 : logs == 0, "data:log:" + type, logs << " log messages, " << (log ? "a failure has to be reported" : "nothing to report") << "\nbefore:\n" << before << text);
    Count(type + (ok ? " succeeded" : " failed"));
    Eval();
    Distinct(type + p1 + "," + p2 + "," + (hl ? Json(l) : "") + (hr ? Json(rv) : ""));
    if (k % 500 == 0) Sample(text);
    if (k % 64 == 0) Beat();
    proc->Reset(ui);
  }
}

// pairs of all integer types at their limits, ordered exactly
void Ordering()
{
  Section s("ordering");
  if (!s.run) return;
  struct V { std::string t, v; };
  std::vector<V> vs;
  for (auto t : {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"})
  {
    std::string n = t;
    int bits = std::atoi(n.c_str() + n.find("int") + 3);
    bool u = n[0] == 'u';
    __int128 lo = u ? 0 : -(static_cast<__int128>(1) << (bits - 1)), hi = u ? (static_cast<__int128>(1) << bits) - 1 : (static_cast<__int128>(1) << (bits - 1)) - 1;
    auto str = [](__int128 x)
    {
      if (x < 0) return "-" + std::to_string(static_cast<uint64_t>(-x));
      return std::to_string(static_cast<uint64_t>(x));
    };
    for (__int128 x : {lo, lo + 1, static_cast<__int128>(0), static_cast<__int128>(1), hi - 1, hi}) vs.push_back({n, str(x)});
    if (!u) vs.push_back({n, "-1"});
  }
  ProcSpec p;
  for (size_t i = 0; i < vs.size(); ++i) p.vars.push_back(LocalVar("v" + std::to_string(i), vs[i].t, vs[i].v));
  for (auto type : {"Equals", "LessThan", "LessThanOrEqual", "GreaterThan", "GreaterThanOrEqual"})
  {
    p.roots = {Spec{}};
    for (size_t i = 0; i < vs.size(); ++i)
      for (size_t j = 0; j < vs.size(); ++j)
      {
        if (std::string(type) == "Equals" && vs[i].t != vs[j].t) continue;
        Spec sp;
        sp.type = type;
        sp.Set("leftVar", "v" + std::to_string(i)).Set("rightVar", "v" + std::to_string(j));
        p.roots[0].type = "Sequence";
        p.roots[0].ch.push_back(Comp("Inverter", {Comp("Inverter", {Comp("ForceSuccess", {sp})})}));
      }
    auto proc = BuildProc(p);
    proc->Setup();
    RecUI ui;
    while (!IsFinishedStatus(proc->GetStatus())) proc->ExecuteSingle(ui);
    for (auto i : Preorder(const_cast<Instruction*>(proc->RootInstruction())))
      if (i->GetType() == type)
      {
        AnyValue a, b;
        proc->GetWorkspace().GetValue(i->GetAttributeString("leftVar"), a);
        proc->GetWorkspace().GetValue(i->GetAttributeString("rightVar"), b);
        auto x = Exact(a), y = Exact(b);
        std::string t = type;
        bool ok = t == "Equals" ? x == y : t == "LessThan" ? x < y : t == "LessThanOrEqual" ? x <= y : t == "GreaterThan" ? x > y : x >= y;
        HX_CHECK(i->GetStatus() == (ok ? ES::SUCCESS : ES::FAILURE), "data:order:" + t, Json(a) << " " << t << " " << Json(b) << " gives " << StatusChar(i->GetStatus()));
        Eval();
      }
    proc->Reset(ui);
    Beat();
  }
  Exhaustive("all pairs of limits of the integer types, every comparison");
}

// ---- operands that are missing or refuse -----------------------------------------------------
// A variable that can be read and is never written to.
class RoVar : public Variable
{
public:
  static const std::string Type;
  RoVar() : Variable(Type)
  {
    AddAttributeDefinition("type", sup::dto::StringType).SetMandatory();
    AddAttributeDefinition("value", sup::dto::StringType);
  }
  inline static std::atomic<long> writes{0};

private:
  AnyValue m_value;
  bool GetValueImpl(AnyValue& value) const override
  {
    value = m_value;
    return true;
  }
  bool SetValueImpl(const AnyValue&) override
  {
    ++writes;
    return false;
  }
  SetupTeardownActions SetupImpl(const Workspace& ws) override
  {
    m_value = ParseAnyValueAttributePair(*this, "type", "value", ws.GetTypeRegistry());
    return {};
  }
};
const std::string RoVar::Type = "RoVar";

void Refusing()
{
  Section s("refusing");
  if (!s.run) return;
  Rng r(Opt().seed * 43 + 17);
  const std::string file = Opt().scratch + "/refusing.xml";
  std::ofstream(file) << "<?xml version=\"1.0\"?><Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"q\"><Sequence name=\"n\" isRoot=\"true\"><Succeed/></Sequence><Workspace>"
                      << "<Local name=\"w\" type='{\"type\":\"uint32\"}' value='5'/><RoVar name=\"ro\" type='{\"type\":\"uint32\"}' value='6'/></Workspace></Procedure>";
  static const std::string u32 = "{\"type\":\"uint32\"}", str = "{\"type\":\"string\"}";
  struct Case_ { std::string type; std::vector<std::pair<std::string, std::string>> attrs; bool child; bool log; bool writes; };
  // a, b: numbers; t: text; st: structure; ar: array; ro, rost, roar: cannot be written; em: no value
  const std::vector<Case_> cases{
    {"Copy", {{"inputVar", "a"}, {"outputVar", "ro"}}, false, true, true},
    {"Copy", {{"inputVar", "a"}, {"outputVar", "rost.xy"}}, false, true, true},
    {"Copy", {{"inputVar", ""}, {"outputVar", "b"}}, false, true, false},
    {"Copy", {{"inputVar", "a"}, {"outputVar", ""}}, false, true, false},
    {"Equals", {{"leftVar", ""}, {"rightVar", "a"}}, false, true, false},
    {"Equals", {{"leftVar", "a"}, {"rightVar", ""}}, false, true, false},
    {"LessThan", {{"leftVar", "a"}, {"rightVar", "em"}}, false, true, false},
    {"Increment", {{"varName", "ro"}}, false, true, true},
    {"Increment", {{"varName", "rost.xy"}}, false, true, true},
    {"Increment", {{"varName", ""}}, false, true, false},
    {"Decrement", {{"varName", "ro"}}, false, true, true},
    {"Decrement", {{"varName", "em"}}, false, true, false},
    {"AddMember", {{"inputVar", "a"}, {"outputVar", "rost"}, {"memberName", "m"}}, false, true, true},
    {"AddMember", {{"inputVar", "a"}, {"outputVar", ""}, {"memberName", "m"}}, false, true, false},
    {"AddMember", {{"inputVar", "em"}, {"outputVar", "rost"}, {"memberName", "m"}}, false, true, false},
    {"AddMember", {{"inputVar", "a"}, {"outputVar", "st"}, {"memberName", "@none"}}, false, true, false},
    {"AddElement", {{"inputVar", "a"}, {"outputVar", "roar"}}, false, true, true},
    {"AddElement", {{"inputVar", "t"}, {"outputVar", "roar"}}, false, true, false},
    {"AddElement", {{"inputVar", ""}, {"outputVar", "ar"}}, false, true, false},
    {"ResetVariable", {{"varName", "none"}}, false, true, false},
    {"Condition", {{"varName", "none"}}, false, true, false},
    {"Condition", {{"varName", "st"}}, false, true, false},
    {"CopyFromProcedure", {{"file", file}, {"inputVar", "w"}, {"outputVar", "ro"}}, false, true, true},
    {"CopyFromProcedure", {{"file", file}, {"inputVar", "none"}, {"outputVar", "a"}}, false, true, false},
    {"CopyFromProcedure", {{"file", file}, {"inputVar", "w"}, {"outputVar", "none"}}, false, true, false},
    {"CopyFromProcedure", {{"file", file}, {"inputVar", ""}, {"outputVar", "a"}}, false, true, false},
    {"CopyToProcedure", {{"file", file}, {"inputVar", "a"}, {"outputVar", "ro"}}, false, true, true},
    {"CopyToProcedure", {{"file", file}, {"inputVar", "none"}, {"outputVar", "w"}}, false, true, false},
    {"CopyToProcedure", {{"file", file}, {"inputVar", "a"}, {"outputVar", "none"}}, false, true, false},
    {"Input", {{"outputVar", "ro"}}, false, true, true},
    {"Input", {{"outputVar", "none"}}, false, true, false},
    {"Input", {{"outputVar", "a"}, {"description", "@none"}}, false, true, false},
    {"Input", {{"outputVar", "a"}, {"description", "@st"}}, false, true, false},
    {"Output", {{"fromVar", "none"}}, false, true, false},
    {"Output", {{"fromVar", "a"}, {"description", "@none"}}, false, true, false},
    {"Message", {{"text", "@none"}}, false, true, false},
    {"Message", {{"text", "@st"}}, false, true, false},
    {"Log", {{"message", "@none"}}, false, true, false},
    {"Log", {{"inputVar", "none"}}, false, true, false},
    {"Log", {{"message", "x"}, {"severity", "@none"}}, false, true, false},
    {"UserConfirmation", {{"description", "@none"}}, false, true, false},
    {"UserConfirmation", {{"description", "x"}, {"okText", "@none"}}, false, true, false},
    {"UserConfirmation", {{"description", "x"}, {"cancelText", "@em"}}, false, true, false},
    {"UserChoice", {{"description", "@none"}}, true, true, false},
    {"For", {{"arrayVar", "a"}, {"elementVar", "b"}}, true, true, false},
    {"For", {{"arrayVar", "st"}, {"elementVar", "b"}}, true, true, false},
    {"For", {{"arrayVar", "none"}, {"elementVar", "b"}}, true, true, false},
    {"For", {{"arrayVar", "ar"}, {"elementVar", "ro"}}, true, true, true},
    {"For", {{"arrayVar", "ar"}, {"elementVar", "t"}}, true, true, false},
    {"For", {{"arrayVar", "ar"}, {"elementVar", "none"}}, true, true, false},
    {"For", {{"arrayVar", "ar"}, {"elementVar", ""}}, true, true, false},
    {"Repeat", {{"maxCount", "@none"}}, true, true, false},
    {"Repeat", {{"maxCount", "@st"}}, true, true, false},
    {"Repeat", {{"maxCount", "@t"}}, true, true, false},
    {"Wait", {{"timeout", "@none"}}, false, true, false},
    {"Wait", {{"timeout", "@st"}}, false, true, false},
    {"Wait", {{"timeout", "0"}, {"blocking", "@none"}}, false, true, false},
    {"WaitForVariable", {{"varName", "a"}, {"timeout", "@none"}}, false, true, false},
    {"WaitForVariable", {{"varName", "none"}, {"timeout", "0"}}, false, false, false},
    {"WaitForVariables", {{"varType", "@none"}, {"timeout", "0"}}, false, true, false},
    {"WaitForVariables", {{"varType", "Local"}, {"timeout", "@st"}}, false, true, false},
    {"Listen", {{"varNames", "a"}, {"forceSuccess", "@none"}}, true, true, false},
  };
  long n = Scale(30, 10, 3) * static_cast<long>(cases.size());
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    auto& c = cases[k % cases.size()];
    Spec x;
    x.type = c.type;
    for (auto& a : c.attrs) x.Set(a.first, a.second);
    if (c.child) x.ch.push_back(Leaf("inside", "S"));
    if (c.type == "UserChoice") x.ch.push_back(Leaf("inside2", "S"));
    // somewhere in a procedure
    Spec top = x;
    for (int d = r.range(0, 3); d > 0; --d)
      switch (r.below(4))
      {
      case 0: top = Comp("Sequence", {Leaf("before", "S"), top, Leaf("after", "S")}); break;
      case 1: top = Comp("Sequence", {top, Leaf("after", "S")}); break;
      case 2: top = Comp("Fallback", {Leaf("failing", "F"), top}); break;
      default: top = Comp("Repeat", {top}); top.Set("maxCount", "2"); break;
      }
    auto text = ToText(top);
    Case(text);
    Eval();
    ProcSpec p;
    p.roots = {top};
    auto var = [&](const char* type, const char* name, const std::string& t, const char* v) {
      VarSpec q;
      q.type = type;
      q.name = name;
      if (!t.empty()) q.attrs = {{"type", t}, {"value", v}};
      p.vars.push_back(q);
    };
    static const std::string st = "{\"type\":\"\",\"attributes\":[{\"xy\":{\"type\":\"uint32\"}}]}", ar = "{\"type\":\"\",\"element\":{\"type\":\"uint32\"}}";
    var("Local", "a", u32, "3");
    var("Local", "b", u32, "4");
    var("Local", "t", str, "\"text\"");
    var("Local", "neg", "{\"type\":\"int32\"}", "-3");
    var("Local", "st", st, "{\"xy\":1}");
    var("Local", "ar", ar, "[7,8]");
    var("Local", "em", "", "");
    var("RoVar", "ro", u32, "9");
    var("RoVar", "rost", st, "{\"xy\":2}");
    var("RoVar", "roar", ar, "[1]");
    RecUI ui;
    ui.on_input = [](const UserInputRequest&) -> std::unique_ptr<IUserInputFuture> {
      return std::make_unique<ScriptedFuture>(CreateUserValueReply(true, AnyValue{sup::dto::UnsignedInteger32Type, 77}), 0.0);
    };
    auto proc = BuildProc(p);
    proc->Setup();
    auto& ws = proc->GetWorkspace();
    auto before = State(ws);
    auto writes = RoVar::writes.load();
    for (int tick = 0; tick < 1000 && (proc->GetStatus() == ES::NOT_STARTED || proc->GetStatus() == ES::NOT_FINISHED || proc->GetStatus() == ES::RUNNING); ++tick)
    {
      proc->ExecuteSingle(ui);
      if (proc->GetStatus() == ES::RUNNING) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    HX_CHECK(proc->GetStatus() == ES::FAILURE, "refusing:status:" + c.type, "status " << StatusChar(proc->GetStatus()) << " instead of failure: " << text);
    HX_CHECK(State(ws) == before, "refusing:effect:" + c.type, "the workspace is\n" << State(ws) << "instead of\n" << before << text);
    HX_CHECK((RoVar::writes.load() > writes) == c.writes, "refusing:write:" + c.type, "variables have been written to " << RoVar::writes.load() - writes << " times: " << text);
    long logs = static_cast<long>(ui.trace.Of(K::kLog).size());
    if (c.log) HX_CHECK(logs > 0, "refusing:log:" + c.type, "nothing is reported: " << text);
    for (auto& e : ui.trace.Of(K::kEnter))
      HX_CHECK(e.id.find("inside") == std::string::npos && e.id.find("after") == std::string::npos, "refusing:child:" + c.type, e.id << " is executed in " << text);
    HX_CHECK(ui.trace.Of(K::kMsg).empty() && ui.trace.Of(K::kPut).empty(), "refusing:shown:" + c.type, "something is shown: " << text);
    Count(c.type + " refused");
    Distinct(text);
    proc->Reset(ui);
  }
  Exhaustive(std::to_string(cases.size()) + " instructions with a missing or refusing operand");
}
}  // namespace

HX_MAIN(
  [] {
    Rule("one instruction on one workspace; distinct by instruction, operands and their values");
    RegisterFixtures();
    RegisterVariable<RoVar>(GlobalVariableRegistry());
    Ordering();
    Refusing();
    Random();
  })

// What set-up accepts and refuses, judged by the documented attributes of every type.
#include "full.h"

#include <sup/oac-tree/attribute_handler.h>
#include <sup/oac-tree/concrete_constraints.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/sequence_parser.h>

#include <functional>
#include <set>

using namespace fx;
using namespace hx;
using sup::dto::AnyValue;

namespace
{
enum Kind { kStr, kF64, kI32, kU32, kBool };
enum Cat { kLit, kVar, kBoth };
struct A { std::string name; Kind kind; Cat cat; bool mandatory; };
struct T { std::string type; int children; std::vector<A> attrs; };   // children: 0 leaf, 1 decorator, 2 at least one
const std::vector<T>& Types()
{
  static const std::vector<T> t{
    {"AddElement", 0, {{"inputVar", kStr, kVar, true}, {"outputVar", kStr, kVar, true}}},
    {"AddMember", 0, {{"inputVar", kStr, kVar, true}, {"outputVar", kStr, kVar, true}, {"memberName", kStr, kLit, true}}},
    {"Async", 1, {}},
    {"Choice", 2, {{"varName", kStr, kVar, true}}},
    {"Condition", 0, {{"varName", kStr, kVar, true}}},
    {"Copy", 0, {{"inputVar", kStr, kVar, true}, {"outputVar", kStr, kVar, true}}},
    {"Decrement", 0, {{"varName", kStr, kVar, true}}},
    {"Equals", 0, {{"leftVar", kStr, kVar, true}, {"rightVar", kStr, kVar, true}}},
    {"Fail", 0, {}},
    {"Fallback", 2, {}},
    {"For", 1, {{"arrayVar", kStr, kVar, true}, {"elementVar", kStr, kVar, true}}},
    {"ForceSuccess", 1, {}},
    {"GreaterThan", 0, {{"leftVar", kStr, kVar, true}, {"rightVar", kStr, kVar, true}}},
    {"GreaterThanOrEqual", 0, {{"leftVar", kStr, kVar, true}, {"rightVar", kStr, kVar, true}}},
    {"Increment", 0, {{"varName", kStr, kVar, true}}},
    {"Input", 0, {{"outputVar", kStr, kVar, true}, {"description", kStr, kBoth, false}}},
    {"Inverter", 1, {}},
    {"LessThan", 0, {{"leftVar", kStr, kVar, true}, {"rightVar", kStr, kVar, true}}},
    {"LessThanOrEqual", 0, {{"leftVar", kStr, kVar, true}, {"rightVar", kStr, kVar, true}}},
    {"Listen", 1, {{"varNames", kStr, kLit, true}, {"forceSuccess", kBool, kBoth, false}}},
    {"Log", 0, {{"message", kStr, kBoth, false}, {"inputVar", kStr, kVar, false}, {"severity", kStr, kBoth, false}}},
    {"Message", 0, {{"text", kStr, kBoth, true}}},
    {"Output", 0, {{"fromVar", kStr, kVar, true}, {"description", kStr, kBoth, false}}},
    {"ParallelSequence", 2, {{"successThreshold", kU32, kLit, false}, {"failureThreshold", kU32, kLit, false}}},
    {"ReactiveFallback", 2, {}},
    {"ReactiveSequence", 2, {}},
    {"Repeat", 1, {{"maxCount", kI32, kBoth, false}}},
    {"ResetVariable", 0, {{"varName", kStr, kVar, true}}},
    {"Sequence", 2, {}},
    {"Succeed", 0, {}},
    {"UserChoice", 2, {{"description", kStr, kBoth, false}}},
    {"UserConfirmation", 0, {{"description", kStr, kBoth, true}, {"okText", kStr, kBoth, false}, {"cancelText", kStr, kBoth, false}}},
    {"VarExists", 0, {{"varName", kStr, kVar, true}}},
    {"Wait", 0, {{"timeout", kF64, kBoth, false}, {"blocking", kBool, kBoth, false}}},
    {"WaitForVariable", 0, {{"varName", kStr, kVar, true}, {"timeout", kF64, kBoth, true}, {"equalsVar", kStr, kVar, false}}},
    {"WaitForVariables", 0, {{"timeout", kF64, kBoth, true}, {"varType", kStr, kBoth, true}}},
  };
  return t;
}
const std::string HEAD = "<Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p\"";
std::string Esc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s)
  {
    if (c == '"') o += "&quot;";
    else if (c == '<') o += "&lt;";
    else if (c == '&') o += "&amp;";
    else o += static_cast<char>(c);
  }
  return o;
}
const std::vector<std::string> GOOD_F64{"0", "1", "-1", "2.5", "1e3", "0.001", "-0.5", "1E-3"};
const std::vector<std::string> GOOD_I32{"0", "1", "-1", "42", "2147483647", "-2147483648"};
const std::vector<std::string> GOOD_U32{"0", "1", "42", "4294967295"};
const std::vector<std::string> BAD_NUM{"", "abc", "1x", "--1", "1 2", "{}", "[]", "\"1\"", "null", "one", "0x10", "1,5", "$v", "v"};
bool Numeric(Kind k) { return k == kF64 || k == kI32 || k == kU32; }

struct Val { std::string text; bool good; };
Val RandomVal(Rng& r, const A& a)
{
  if (a.cat == kBoth && r.chance(1, 4)) return {r.pick(std::vector<std::string>{"@v", "@", "@nothere", "@v.field"}), true};
  if (!Numeric(a.kind) || a.cat == kVar) return {r.pick(std::vector<std::string>{"v", "true", "no", "", "text with <&> signs", "@v", "12"}), true};
  if (r.chance(1, 2)) return {r.pick(a.kind == kF64 ? GOOD_F64 : a.kind == kI32 ? GOOD_I32 : GOOD_U32), true};
  if (a.cat == kLit && r.chance(1, 5)) return {"@v", false};
  if (a.kind == kI32 && r.chance(1, 4)) return {r.pick(std::vector<std::string>{"2147483648", "-2147483649", "99999999999999999999"}), false};
  if (a.kind == kU32 && r.chance(1, 4)) return {r.pick(std::vector<std::string>{"-1", "4294967296", "99999999999999999999"}), false};
  return {r.pick(BAD_NUM), false};
}

struct Outcome { bool refused = false; bool lib = true; std::string text; std::unique_ptr<Procedure> proc; };
Outcome TrySetup(const std::string& xml)
{
  Outcome o;
  try
  {
    o.proc = ParseProcedureString(xml);
    o.proc->Setup();
  }
  catch (const MessageException& e) { o.refused = true; o.text = e.what(); }
  catch (const std::exception& e) { o.refused = true; o.lib = false; o.text = e.what(); }
  return o;
}

void Instructions()
{
  Section s("instructions");
  if (!s.run) return;
  Rng r(Opt().seed * 3 + 1);
  for (long k = Scale(60000, 12, 6); k > 0 && !TooMany(); --k)
  {
    auto& t = r.pick(Types());
    std::string attrs;
    std::set<std::string> names_at_fault;
    bool children_wrong = false;
    bool has_msg = false;
    for (auto& a : t.attrs)
    {
      if (a.mandatory ? r.chance(1, 8) : r.chance(1, 2))
      {
        if (a.mandatory) names_at_fault.insert(a.name);
        continue;
      }
      auto v = RandomVal(r, a);
      attrs += " " + a.name + "=\"" + Esc(v.text) + "\"";
      if (!v.good) names_at_fault.insert(a.name);
      if (t.type == "Log" && (a.name == "message" || a.name == "inputVar")) has_msg = true;
    }
    if (t.type == "Log" && !has_msg) names_at_fault.insert("message");
    if (r.chance(1, 4)) attrs += " unknown=\"" + std::string(r.chance(1, 2) ? "@v" : "abc") + "\"";
    if (r.chance(1, 4)) attrs += " isRoot=\"" + std::string(r.chance(1, 2) ? "true" : "maybe") + "\"";
    if (t.children && r.chance(1, 4)) attrs += " showCollapsed=\"" + std::string(r.chance(1, 2) ? "true" : "x") + "\"";
    attrs += " name=\"theone\"";
    int n = t.children == 0 ? 0 : t.children == 1 ? 1 : 1 + static_cast<int>(r.below(3));
    if (r.chance(1, 8))
    {
      n = t.children == 0 ? 1 + static_cast<int>(r.below(2)) : t.children == 1 ? (r.chance(1, 2) ? 0 : 2) : 0;
      children_wrong = true;
    }
    std::string body = "<" + t.type + attrs + ">";
    for (int i = 0; i < n; ++i) body += r.chance(1, 2) ? "<Succeed/>" : "<Message text=\"t\"/>";
    body += "</" + t.type + ">";
    for (int d = static_cast<int>(r.below(4)); d > 0; --d)
    {
      switch (r.below(3))
      {
      case 0: body = "<Sequence><Succeed/>" + body + "</Sequence>"; break;
      case 1: body = "<Inverter>" + body + "</Inverter>"; break;
      default: body = "<ParallelSequence>" + body + "<Fail/></ParallelSequence>";
      }
    }
    if (r.chance(1, 10)) body += "";
    auto xml = HEAD + ">" + body + "<Workspace><Local name=\"v\" type='{\"type\":\"uint32\"}'/></Workspace></Procedure>";
    auto o = TrySetup(xml);
    bool want = !names_at_fault.empty() || children_wrong;
    HX_CHECK(o.refused == want, want ? "accepted:" + t.type : "refused:" + t.type, (want ? "accepted although " + (children_wrong ? std::string("the number of children is wrong") : "attribute " + *names_at_fault.begin() + " is wrong") : "refused: " + o.text) << "\n" << xml);
    if (o.refused)
    {
      HX_CHECK(o.lib, "exception", "not an exception of the library: " << o.text << "\n" << xml);
      HX_CHECK(o.text.find(t.type) != std::string::npos || o.text.find("theone") != std::string::npos, "message:instruction", "the error does not name the instruction: " << o.text << "\n" << xml);
      if (!children_wrong)
        for (auto& n : names_at_fault) HX_CHECK(o.text.find(n) != std::string::npos, "message:attribute", "the error does not name attribute " << n << ": " << o.text << "\n" << xml);
    }
    Count(o.refused ? "instructions refused" : "instructions accepted");
    Eval();
    Distinct(xml);
    Beat();
  }
}

// text of a JSON value and whether it fits the type
struct TV { std::string type; std::vector<std::string> good, bad; };
void Variables()
{
  Section s("variables");
  if (!s.run) return;
  Rng r(Opt().seed * 5 + 1);
  static const std::vector<TV> types{
    {"{\"type\":\"bool\"}", {"true", "false"}, {"abc", "", "[]", "{}", "\"x\""}},
    {"{\"type\":\"int8\"}", {"0", "-128", "127"}, {"128", "-129", "abc", "", "[1]", "\"1\"", "null"}},
    {"{\"type\":\"uint8\"}", {"0", "255"}, {"256", "-1", "abc", ""}},
    {"{\"type\":\"int32\"}", {"5", "-5"}, {"2147483648", "x", "{}"}},
    {"{\"type\":\"uint64\"}", {"18446744073709551615"}, {"-1", "x"}},
    {"{\"type\":\"float64\"}", {"1.5", "-3", "1e5"}, {"x", "", "{}", "\"1.5\""}},
    {"{\"type\":\"string\"}", {"\"abc\"", "\"\""}, {"abc", "", "1", "[]"}},
    {"{\"type\":\"\",\"attributes\":[{\"a\":{\"type\":\"int8\"}},{\"b\":{\"type\":\"string\"}}]}", {"{\"a\":1,\"b\":\"x\"}"}, {"{\"a\":1,\"c\":\"x\"}", "{\"a\":300,\"b\":\"x\"}", "[1,2]", "5", "{\"a\":1,\"b\":\"x\",\"c\":1}"}},
    {"{\"type\":\"\",\"multiplicity\":2,\"element\":{\"type\":\"int8\"}}", {"[1,2]"}, {"[1]", "[1,2,3]", "[1,300]", "{}", "1"}},
  };
  static const std::vector<std::string> bad_types{"", "uint8", "{", "{\"type\":\"nothing\"}", "{\"typ\":\"uint8\"}", "[]", "{\"type\":\"\",\"multiplicity\":2}", "{\"type\":\"uint8\"", "null"};
  for (long k = Scale(6000, 12, 6); k > 0 && !TooMany(); --k)
  {
    std::string ws;
    std::string why;
    std::string culprit;
    int n = 1 + static_cast<int>(r.below(4));
    std::set<std::string> names;
    for (int i = 0; i < n; ++i)
    {
      std::string name = "w" + std::to_string(r.below(12));
      if (!names.insert(name).second)
      {
        if (why.empty() || true) { why = "the name " + name + " is used twice"; culprit = name; }
      }
      std::string x;
      if (r.chance(1, 6))
      {
        x = "<File name=\"" + name + "\"";
        if (r.chance(3, 4)) x += " file=\"/nonexistent/" + name + "\"";
        else if (why.empty()) { why = "the file attribute is missing"; culprit = name; }
        if (r.chance(1, 2)) x += " pretty=\"true\"";
      }
      else
      {
        x = "<Local name=\"" + name + "\"";
        if (r.chance(1, 3)) x += " dynamicType=\"" + std::string(r.chance(1, 2) ? "true" : "false") + "\"";
        auto& t = r.pick(types);
        switch (r.below(8))
        {
        case 0: x += " type=\"" + Esc(r.pick(bad_types)) + "\""; if (why.empty()) { why = "the type is wrong"; culprit = name; } break;
        case 1: x += " value=\"1\""; if (why.empty()) { why = "the type is missing"; culprit = name; } break;
        case 2: x += " type=\"" + Esc(t.type) + "\" value=\"" + Esc(r.pick(t.bad)) + "\""; if (why.empty()) { why = "the value is wrong"; culprit = name; } break;
        case 3: break;
        case 4: x += " type=\"" + Esc(t.type) + "\""; break;
        default: x += " type=\"" + Esc(t.type) + "\" value=\"" + Esc(r.pick(t.good)) + "\"";
        }
      }
      ws += x + "/>";
    }
    auto xml = HEAD + "><Succeed/><Workspace>" + ws + "</Workspace></Procedure>";
    auto o = TrySetup(xml);
    HX_CHECK(o.refused == !why.empty(), why.empty() ? "refused:variable" : "accepted:variable", (why.empty() ? "refused: " + o.text : "accepted although " + why) << "\n" << xml);
    if (o.refused)
    {
      HX_CHECK(o.lib, "exception", "not an exception of the library: " << o.text << "\n" << xml);
      bool named = false;
      for (auto& m : names) if (o.text.find(m) != std::string::npos) named = true;
      HX_CHECK(named, "message:variable", "the error names no variable: " << o.text << "\n" << xml);
    }
    Count(o.refused ? "workspaces refused" : "workspaces accepted");
    Eval();
    Distinct(xml);
    Beat();
  }
}

void Roots()
{
  Section s("roots");
  if (!s.run) return;
  Rng r(Opt().seed * 7 + 1);
  for (long k = Scale(2000, 10, 5); k > 0 && !TooMany(); --k)
  {
    int n = static_cast<int>(r.below(4));
    std::string body;
    int marked = 0;
    int root = -1;
    for (int i = 0; i < n; ++i)
    {
      auto flag = r.below(4);
      bool yes = flag == 0;
      // the instructions that are not the root need not be well formed
      body += std::string("<") + (r.chance(1, 2) ? "Succeed" : "Sequence") + " name=\"n" + std::to_string(i) + "\"" + (yes ? std::string(" isRoot=\"") + r.pick(std::vector<std::string>{"true", "TRUE", "yes", "on"}) + "\"" : flag == 1 ? " isRoot=\"false\"" : "");
      bool seq = body.rfind("<Sequence") != std::string::npos && body.rfind("<Sequence") > (body.rfind("<Succeed") == std::string::npos ? 0 : body.rfind("<Succeed"));
      if (body.rfind("<Succeed") == std::string::npos) seq = true;
      body += seq ? "><Succeed/></Sequence>" : "/>";
      if (yes) { ++marked; if (root < 0) root = i; }
    }
    if (n == 1) root = 0;
    std::string tick;
    bool bad_tick = false;
    for (std::string a : {"tickTimeout", "timingAccuracy"})
    {
      if (!r.chance(1, 3)) continue;
      bool bad = r.chance(1, 3);
      tick += " " + a + "=\"" + Esc(bad ? r.pick(BAD_NUM) : r.pick(std::vector<std::string>{"0.1", "1", "2e-1"})) + "\"";
      bad_tick = bad_tick || bad;
    }
    if (marked > 1) continue;   // which of several is the root is not documented
    auto xml = HEAD + tick + ">" + body + "<Workspace/></Procedure>";
    auto o = TrySetup(xml);
    bool want = root < 0 || bad_tick;
    HX_CHECK(o.refused == want, want ? "accepted:root" : "refused:root", (want ? "accepted although " + std::string(root < 0 ? "there is no usable root" : "a timing attribute is wrong") : "refused: " + o.text) << "\n" << xml);
    if (o.refused) HX_CHECK(o.lib, "exception", "not an exception of the library: " << o.text << "\n" << xml);
    else HX_CHECK(o.proc->RootInstruction()->GetName() == "n" + std::to_string(root), "root", "the root is " << o.proc->RootInstruction()->GetName() << "\n" << xml);
    Count(o.refused ? "procedures refused" : "procedures accepted");
    Eval();
    Distinct(xml);
  }
}

// attribute values taken from the workspace, of every type
void Workspaces()
{
  Section s("workspace values");
  if (!s.run) return;
  Rng r(Opt().seed * 9 + 1);
  struct V { std::string type, value; bool number; double d; bool text; };
  static const std::vector<V> vals{
    {"{\"type\":\"float64\"}", "0.01", true, 0.01, false}, {"{\"type\":\"float32\"}", "0", true, 0, false}, {"{\"type\":\"int8\"}", "0", true, 0, false}, {"{\"type\":\"uint64\"}", "0", true, 0, false},
    {"{\"type\":\"float64\"}", "-1", true, -1, false}, {"{\"type\":\"int32\"}", "-5", true, -5, false}, {"{\"type\":\"float64\"}", "1e300", true, 1e300, false}, {"{\"type\":\"uint64\"}", "18446744073709551615", true, 1.8e19, false},
    {"{\"type\":\"string\"}", "\"abc\"", false, 0, true}, {"{\"type\":\"string\"}", "\"\"", false, 0, true},
    {"{\"type\":\"\",\"attributes\":[{\"a\":{\"type\":\"int8\"}}]}", "{\"a\":1}", false, 0, false}, {"{\"type\":\"\",\"multiplicity\":2,\"element\":{\"type\":\"int8\"}}", "[1,2]", false, 0, false}};
  for (long k = Scale(3000, 12, 6); k > 0 && !TooMany(); --k)
  {
    auto& v = r.pick(vals);
    bool literal = v.number && r.chance(1, 4);
    int missing = r.chance(1, 6) ? 1 + static_cast<int>(r.below(3)) : 0;   // no such variable, no value yet, no such field
    std::string ref = literal && !missing ? v.value : missing == 1 ? "@nothere" : missing == 2 ? "@empty" : missing == 3 ? "@v.nofield" : "@v";
    std::string body;
    int outcome = 0;   // 1 success, -1 failure, 0 either of the two
    bool bad = missing != 0;
    bool timeout_ok = v.number && v.d >= 0 && v.d < 1e9;
    switch (r.below(6))
    {
    case 0:
      body = "<Wait timeout=\"" + ref + "\"/>";
      outcome = bad || !timeout_ok ? -1 : 1;
      break;
    case 1:
      body = "<WaitForVariable varName=\"present\" timeout=\"" + ref + "\"/>";
      outcome = bad || !timeout_ok ? -1 : 1;
      break;
    case 2:
      body = "<WaitForVariables varType=\"Local\" timeout=\"" + ref + "\"/>";
      outcome = bad || !timeout_ok ? -1 : 0;
      break;
    case 3:
      if (v.d < 0 || v.d > 1e9) { body = "<Repeat maxCount=\"" + ref + "\"><Fail/></Repeat>"; outcome = -1; }
      else { body = "<Repeat maxCount=\"" + ref + "\"><Succeed/></Repeat>"; outcome = bad || !v.number || (literal && v.value == "0.01") ? -1 : 1; }
      if (literal && (v.value == "0.01" || v.d < -1 || v.d > 1e9)) continue;   // refused at setup
      if (!literal && v.number && v.d == 0.01) continue;   // rounding of counts is not documented
      if (v.d < 0 || v.d > 1e9) outcome = -1;
      break;
    case 4:
      body = "<Message text=\"" + (v.text || missing ? (missing ? ref : "@v") : "abc") + "\"/>";
      outcome = missing ? -1 : 1;
      break;
    default:
      body = "<Choice varName=\"" + (missing == 1 ? std::string("nothere") : missing == 2 ? "empty" : missing == 3 ? "v.nofield" : "v") + "\"><Succeed/></Choice>";
      literal = false;
      outcome = bad || (!v.number && v.type.find("multiplicity") == std::string::npos) || (v.number && v.d != 0 && v.d != 0.01) ? -1 : v.number ? (v.d == 0 ? 1 : 0) : -1;
    }
    bool nested = r.chance(1, 2);
    if (nested) body = "<Sequence>" + body + "<Succeed/></Sequence>";
    auto xml = HEAD + " tickTimeout=\"0.001\">" + body + "<Workspace><Local name=\"v\" type=\"" + Esc(v.type) + "\" value=\"" + Esc(v.value) + "\"/><Local name=\"empty\"/><Local name=\"present\" type='{\"type\":\"bool\"}'/></Workspace></Procedure>";
    auto o = TrySetup(xml);
    HX_CHECK(!o.refused, "workspace:refused", "refused: " << o.text << "\n" << xml);
    if (o.refused) continue;
    RecUI ui;
    double t0 = Now();
    int ticks = 0;
    for (; ticks < 3000 && NeedsExecute(o.proc->GetStatus()) && Now() - t0 < 5; ++ticks)
    {
      o.proc->ExecuteSingle(ui);
      if (o.proc->GetStatus() == ExecutionStatus::RUNNING) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    auto st = o.proc->GetStatus();
    bool finished = IsFinishedStatus(st);
    HX_CHECK(finished && (outcome == 0 || (st == ExecutionStatus::SUCCESS) == (outcome > 0)), "workspace:outcome", "status " << StatusToString(st) << ", expected " << (outcome > 0 ? "SUCCESS" : outcome < 0 ? "FAILURE" : "to finish") << "\n" << xml);
    o.proc->Reset(ui);
    Count(outcome < 0 ? "unusable values" : "usable values");
    Eval();
    Distinct(body + v.type + v.value);
    Beat();
  }
}

// attribute handlers and constraints used directly
struct Model { std::function<bool(const StringAttributeList&)> eval; };
std::pair<Constraint, std::function<bool(const StringAttributeList&)>> RandomConstraint(Rng& r, int depth)
{
  auto has = [](const StringAttributeList& l, const std::string& n) -> const std::string* { for (auto& a : l) if (a.first == n) return &a.second; return nullptr; };
  std::string n(1, static_cast<char>('a' + r.below(4)));
  switch (depth == 0 ? r.below(2) : r.below(6))
  {
  case 0: return {MakeConstraint<Exists>(n), [=](const StringAttributeList& l) { return has(l, n) != nullptr; }};
  case 1: return {MakeConstraint<FixedType>(n, sup::dto::UnsignedInteger8Type), [=](const StringAttributeList& l) { auto p = has(l, n); return p && (*p == "0" || *p == "7" || *p == "255"); }};
  case 2: { auto x = RandomConstraint(r, depth - 1); return {MakeConstraint<Not>(std::move(x.first)), [f = x.second](const StringAttributeList& l) { return !f(l); }}; }
  default:
  {
    auto x = RandomConstraint(r, depth - 1);
    auto y = RandomConstraint(r, depth - 1);
    auto f = x.second;
    auto g = y.second;
    switch (r.below(3))
    {
    case 0: return {MakeConstraint<And>(std::move(x.first), std::move(y.first)), [=](const StringAttributeList& l) { return f(l) && g(l); }};
    case 1: return {MakeConstraint<Or>(std::move(x.first), std::move(y.first)), [=](const StringAttributeList& l) { return f(l) || g(l); }};
    default: return {MakeConstraint<Xor>(std::move(x.first), std::move(y.first)), [=](const StringAttributeList& l) { return f(l) != g(l); }};
    }
  }
  }
}
void Handlers()
{
  Section s("handlers");
  if (!s.run) return;
  Rng r(Opt().seed * 11 + 1);
  static const std::vector<std::string> pool{"0", "7", "255", "256", "-1", "x", "", "true", "on", "x y", "@v"};
  for (long k = Scale(60000, 12, 6); k > 0 && !TooMany(); --k)
  {
    AttributeHandler h;
    std::vector<A> defs;
    std::string text;
    for (char c = 'a'; c < 'e'; ++c)
    {
      if (r.chance(1, 3)) continue;
      A a{std::string(1, c), r.pick(std::vector<Kind>{kStr, kBool, kU32}), r.pick(std::vector<Cat>{kLit, kVar, kBoth}), r.chance(1, 3)};
      auto& d = h.AddAttributeDefinition(a.name, a.kind == kStr ? sup::dto::StringType : a.kind == kBool ? sup::dto::BooleanType : sup::dto::UnsignedInteger8Type);
      d.SetCategory(a.cat == kLit ? AttributeCategory::kLiteral : a.cat == kVar ? AttributeCategory::kVariableName : AttributeCategory::kBoth).SetMandatory(a.mandatory);
      bool refused = false;
      try { h.AddAttributeDefinition(a.name, sup::dto::StringType); } catch (const InvalidOperationException&) { refused = true; }
      HX_CHECK(refused, "handler:twice", "an attribute could be defined twice");
      defs.push_back(a);
      text += a.name + "/" + std::to_string(a.kind) + std::to_string(a.cat) + (a.mandatory ? "!" : "") + " ";
    }
    StringAttributeList l;
    for (char c = 'a'; c < 'e'; ++c)
    {
      if (r.chance(1, 3)) continue;
      auto v = r.pick(pool);
      std::string n(1, c);
      HX_CHECK(h.AddStringAttribute(n, v), "handler:add", "an attribute was refused");
      HX_CHECK(!h.AddStringAttribute(n, "again"), "handler:again", "an attribute could be given twice");
      if (r.chance(1, 5)) { v = r.pick(pool); h.SetStringAttribute(n, v); }
      l.push_back({n, v});
      text += n + "=" + v + " ";
    }
    HX_CHECK(h.GetStringAttributes() == l, "handler:list", "the attributes are not those that were given: " << text);
    size_t failures = 0;
    auto value = [&](const std::string& n) -> const std::string* { for (auto& a : l) if (a.first == n) return &a.second; return nullptr; };
    auto is_u8 = [](const std::string& v) { return v == "0" || v == "7" || v == "255"; };
    for (auto& d : defs)
    {
      auto p = value(d.name);
      if (!p) { failures += d.mandatory; continue; }
      if (d.cat == kVar || (d.cat == kBoth && !p->empty() && (*p)[0] == '@')) continue;
      if (d.kind == kU32 && !is_u8(*p)) ++failures;
    }
    for (int c = static_cast<int>(r.below(3)); c > 0; --c)
    {
      auto x = RandomConstraint(r, 3);
      text += x.first.GetRepresentation() + " ";
      if (!x.second(l)) ++failures;
      Constraint copy{x.first};
      HX_CHECK(copy.GetRepresentation() == x.first.GetRepresentation() && copy.Validate(l) == x.first.Validate(l), "handler:copy", "a copied constraint differs: " << text);
      h.AddConstraint(r.chance(1, 2) ? std::move(copy) : std::move(x.first));
    }
    bool ok = h.ValidateAttributes();
    HX_CHECK(ok == (failures == 0) && h.GetFailedConstraints().size() == failures, "handler:validate", "validation " << (ok ? "succeeds" : "fails") << " with " << h.GetFailedConstraints().size() << " failures, expected " << failures << ": " << text);
    for (auto& d : defs)
    {
      auto p = value(d.name);
      AnyValue v;
      bool got = h.GetValue(d.name, v);
      bool want = p && (d.kind != kU32 || is_u8(*p));
      HX_CHECK(got == want, "handler:value", "the value of " << d.name << (got ? " is available: " : " is not available: ") << text);
      AnyValue w{2, sup::dto::AnyType{{{"a", sup::dto::StringType}}}}, kept = w;   // an element keeps its type
      HX_CHECK(!h.GetValue(d.name, w[0]) && w == kept, "handler:unsuitable", "the value of " << d.name << " was assigned to a structure: " << text);
      if (!got || !p) continue;
      bool right = d.kind == kStr ? v == AnyValue{*p} : d.kind == kBool ? v == AnyValue{*p == "true" || *p == "on"} : v == AnyValue{sup::dto::UnsignedInteger8Type, static_cast<sup::dto::uint8>(std::stoi(*p))};
      HX_CHECK(right, "handler:parsed", "the value of " << d.name << " is " << Json(v) << ": " << text);
    }
    Count(ok ? "attribute sets accepted" : "attribute sets refused");
    Eval();
    Distinct(text);
  }
}

// the attributes given to instructions and variables, as ordered records; definitions and constraints as values
void Attributes()
{
  Section s("attributes");
  if (!s.run) return;
  Rng r(Opt().seed * 149 + 7);
  static const std::vector<std::string> names{"name", "varName", "type", "value", "a", "b", "", "c d"}, values{"", "0", "7", "x", "@v", "true"};
  for (long k = Scale(6000, 10, 4); k > 0 && !TooMany(); --k)
  {
    StringAttributeList want;
    std::string text;
    auto at = [&](const std::string& n) { return std::find_if(want.begin(), want.end(), [&](auto& x) { return x.first == n; }); };
    auto list = [&] {
      StringAttributeList l;
      for (int n = r.range(0, 4); n > 0; --n) l.emplace_back(r.pick(names), r.pick(values));
      return l;
    };
    auto add_all = [&](auto& what, const StringAttributeList& l) {
      bool all = true;

      for (auto& x : l)
        if (at(x.first) == want.end()) want.push_back(x);
        else all = false;
      HX_CHECK(what.AddAttributes(l) == all, "attribute:add", "adding " << l.size() << " attributes reports " << !all << ": " << text);
    };
    auto common = [&](auto& what) {
      for (auto& n : names)
      {
        auto i = at(n);
        HX_CHECK(what.HasAttribute(n) == (i != want.end()) && what.GetAttributeString(n) == (i == want.end() ? "" : i->second), "attribute:get", "attribute '" << n << "': " << text);
      }
      auto i = at("name");
      HX_CHECK(what.GetName() == (i == want.end() ? "" : i->second), "attribute:name", text);
      HX_CHECK(what.GetStringAttributes() == want, "attribute:list", text);
    };
    bool variable = r.chance(1, 3);
    std::unique_ptr<Instruction> in = variable ? nullptr : GlobalInstructionRegistry().Create(r.pick(std::vector<std::string>{"Wait", "Sequence", "Inverter", "Copy"}));
    std::unique_ptr<Variable> var = variable ? GlobalVariableRegistry().Create("Local") : nullptr;
    for (int n = r.range(1, 8); n > 0 && !TooMany(); --n)
    {
      auto name = r.pick(names), value = r.pick(values);
      int op = r.below(4);
      text += std::to_string(op) + name + "=" + value + " ";
      switch (op)
      {
      case 0:
      {
        bool fresh = at(name) == want.end();
        if (fresh) want.emplace_back(name, value);
        HX_CHECK((in ? in->AddAttribute(name, value) : var->AddAttribute(name, value)) == fresh, "attribute:add", text);
        break;
      }
      case 1:
      {
        auto l = list();
        for (auto& x : l) text += x.first + "=" + x.second + ",";
        if (in) add_all(*in, l);
        else add_all(*var, l);
        break;
      }
      case 2:
        if (!in) break;
        {
          auto i = at(name);
          if (i != want.end()) i->second = value;
          HX_CHECK(in->SetAttribute(name, value) == (i != want.end()), "attribute:set", text);
        }
        break;
      default:
      {
        auto i = at("name");
        if (var && i != want.end()) break;   // renaming a variable is not specified
        if (i != want.end()) i->second = value;
        else want.emplace_back("name", value);
        if (in) in->SetName(value);
        else var->SetName(value);
      }
      }
      if (in) common(*in);
      else common(*var);
    }
    // definitions
    auto kind = [&] { return r.pick(std::vector<sup::dto::AnyType>{sup::dto::StringType, sup::dto::BooleanType, sup::dto::Float64Type}); };
    static const AttributeCategory cats[] = {AttributeCategory::kLiteral, AttributeCategory::kVariableName, AttributeCategory::kBoth};
    auto definition = [&](const char* n) {
      AttributeDefinition d(n, kind());
      d.SetCategory(cats[r.below(3)]).SetMandatory(r.chance(1, 2));
      return d;
    };
    auto same = [](const AttributeDefinition& a, const AttributeDefinition& b) { return a.GetName() == b.GetName() && a.GetType() == b.GetType() && a.GetCategory() == b.GetCategory() && a.IsMandatory() == b.IsMandatory(); };
    auto d = definition("d"), e = definition("e");
    const AttributeDefinition copy(d);
    HX_CHECK(same(copy, d), "definition:copy", "a copied definition differs");
    e = d;
    HX_CHECK(same(e, copy) && same(d, copy), "definition:assign", "an assigned definition differs");
    d.SetMandatory(!d.IsMandatory());
    HX_CHECK(same(e, copy) && !same(d, copy), "definition:share", "a copy changes with the original");
    AttributeDefinition m(std::move(e));
    HX_CHECK(same(m, copy), "definition:move", "a moved definition differs");
    d = std::move(m);
    HX_CHECK(same(d, copy), "definition:move", "a moved definition differs");
    // constraints
    auto x = RandomConstraint(r, 3), y = RandomConstraint(r, 2);
    auto rx = x.first.GetRepresentation();
    auto probe = list();
    for (char c = 'a'; c < 'e'; ++c)
      if (r.chance(1, 2)) probe.emplace_back(std::string(1, c), r.pick(values));
    bool vx = x.first.Validate(probe);
    Constraint z(y.first);
    z = x.first;
    HX_CHECK(z.GetRepresentation() == rx && z.Validate(probe) == vx && x.first.Validate(probe) == vx, "constraint:assign", "an assigned constraint differs: " << rx);
    Constraint w(std::move(z));
    HX_CHECK(w.GetRepresentation() == rx && w.Validate(probe) == vx, "constraint:move", "a moved constraint differs: " << rx);
    y.first = std::move(w);
    HX_CHECK(y.first.GetRepresentation() == rx && y.first.Validate(probe) == vx, "constraint:move", "a moved constraint differs: " << rx);
    Eval();
    Distinct(text + rx);
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("one instruction, workspace, procedure or attribute set submitted to set-up; distinct by text");
    RegisterFixtures();
    Instructions();
    Variables();
    Roots();
    Workspaces();
    Handlers();
    Attributes();
  })

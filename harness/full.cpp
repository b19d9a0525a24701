#include "full.h"

#include <dirent.h>
#include <fstream>

namespace fx
{
using hx::Rng;

void WriteFile(const std::string& path, const std::string& content)
{
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f << content;
}
std::string ReadFile(const std::string& path)
{
  std::ifstream f(path, std::ios::binary);
  std::ostringstream o;
  o << f.rdbuf();
  return o.str();
}
int ThreadCount()
{
  int n = 0;
  if (DIR* d = opendir("/proc/self/task"))
  {
    while (auto e = readdir(d))
      if (e->d_name[0] != '.') ++n;
    closedir(d);
  }
  return n;
}
bool ContainsType(const Spec& s, const std::string& type)
{
  if (s.type == type) return true;
  for (auto& c : s.ch)
    if (ContainsType(c, type)) return true;
  return false;
}

const std::vector<std::string>& FullScalarNames()
{
  static const std::vector<std::string> n{"i8", "i32", "i64", "u8", "u32", "u64", "f32", "f64", "b", "s", "st.a", "st.b", "st.c.d", "arr[0]", "arr[2]"};
  return n;
}

std::vector<VarSpec> FullVars(Rng& r, const FullOpt& o)
{
  std::vector<VarSpec> v;
  auto num = [&](int lo, int hi) { return std::to_string(r.range(lo, hi)); };
  v.push_back(LocalVar("i8", "int8", num(-128, 127)));
  v.push_back(LocalVar("i32", "int32", num(-1000, 1000)));
  v.push_back(LocalVar("i64", "int64", num(-1000000, 1000000)));
  v.push_back(LocalVar("u8", "uint8", num(0, 255)));
  v.push_back(LocalVar("u32", "uint32", num(0, 5)));
  v.push_back(LocalVar("u64", "uint64", num(0, 1000000)));
  v.push_back(LocalVar("f32", "float32", num(-9, 9) + ".5"));
  v.push_back(LocalVar("f64", "float64", num(-9, 9) + ".25"));
  v.push_back(LocalVar("b", "bool", r.chance(1, 2) ? "true" : "false"));
  v.push_back(LocalVar("s", "string", "\"text " + num(0, 99) + "\""));
  v.push_back(LocalVar("st", "{\"type\":\"rec\",\"attributes\":[{\"a\":{\"type\":\"int32\"}},{\"b\":{\"type\":\"string\"}},{\"c\":{\"type\":\"sub\",\"attributes\":[{\"d\":{\"type\":\"float64\"}}]}}]}",
                       "{\"a\":" + num(-5, 5) + ",\"b\":\"x\",\"c\":{\"d\":" + num(-3, 3) + ".5}}"));
  v.push_back(LocalVar("arr", "{\"type\":\"\",\"element\":{\"type\":\"int32\"}}", "[" + num(0, 1) + "," + num(0, 1) + "," + num(0, 1) + "]"));
  v.push_back(LocalVar("el", "int32", "0"));
  v.push_back(LocalVar("idx", "uint32", num(0, 2)));
  v.push_back(LocalVar("zero", "uint32", "0"));
  VarSpec nt;
  nt.type = "Local";
  nt.name = "nt";
  v.push_back(nt);
  v.push_back(LocalVar("dyn", "int32", num(0, 9), true));
  if (o.hxvars)
  {
    VarSpec h;
    h.type = "HxVar";
    h.name = "hx";
    h.attrs = {{"type", "{\"type\":\"int32\"}"}, {"value", num(0, 3)}};
    v.push_back(h);
    h.name = "hxoff";
    h.attrs.push_back({"avail", "0"});
    v.push_back(h);
  }
  if (o.files)
  {
    VarSpec f;
    f.type = "File";
    f.name = "fl";
    f.attrs = {{"file", o.dir + "/fl.json"}};
    if (r.chance(1, 2)) f.attrs.push_back({"pretty", r.chance(1, 2) ? "true" : "false"});
    v.push_back(f);
  }
  return v;
}

namespace
{
struct FGen
{
  Rng& r;
  const FullOpt& o;
  ProcSpec& p;
  int budget;
  int leaves = 0;
  int files = 0;
  bool sub = false;    // inside an included file: no further inclusion
  std::vector<std::string> templates;   // named trees of the same procedure

  std::string Var()
  {
    static const std::vector<std::string> more{"st", "arr", "el", "nt", "dyn", "missing", "st.zz", "st.c"};
    if (o.hxvars && r.chance(1, 8)) return r.chance(2, 3) ? "hx" : "hxoff";
    if (o.files && r.chance(1, 12)) return "fl";
    return r.chance(3, 4) ? r.pick(FullScalarNames()) : r.pick(more);
  }
  std::string Num() { return r.pick(std::vector<std::string>{"i8", "i32", "i64", "u8", "u32", "u64", "f64", "st.a", "arr[1]", "el"}); }
  Spec I(const std::string& type, std::vector<std::pair<std::string, std::string>> a)
  {
    Spec s;
    s.type = type;
    s.attrs = std::move(a);
    return s;
  }
  std::string SmallTime() { return r.pick(std::vector<std::string>{"0", "0.0005", "0.002", "0.001"}); }

  Spec Action()
  {
    for (int guard = 0; guard < 50; ++guard)
    {
      switch (r.below(26))
      {
      case 0: return I("Copy", {{"inputVar", Var()}, {"outputVar", Var()}});
      case 1: return I("Equals", {{"leftVar", Var()}, {"rightVar", Var()}});
      case 2: return I(r.pick(std::vector<std::string>{"LessThan", "LessThanOrEqual", "GreaterThan", "GreaterThanOrEqual"}), {{"leftVar", Num()}, {"rightVar", Num()}});
      case 3: return I("Increment", {{"varName", Num()}});
      case 4: return I("Decrement", {{"varName", Num()}});
      case 5: return I("AddMember", {{"inputVar", Var()}, {"outputVar", r.chance(1, 2) ? "nt" : "dyn"}, {"memberName", "m" + std::to_string(r.below(3))}});
      case 6: return I("AddElement", {{"inputVar", Num()}, {"outputVar", r.chance(2, 3) ? "arr" : "dyn"}});
      case 7: return I("VarExists", {{"varName", Var()}});
      case 8: return I("Condition", {{"varName", Var()}});
      case 9: return I("ResetVariable", {{"varName", r.pick(std::vector<std::string>{"i32", "st", "arr", "dyn", "nt", "s", "el"})}});
      case 10: return I("Message", {{"text", r.chance(1, 2) ? "hello" : "@s"}});
      case 11:
        if (!o.logs) continue;
        return r.chance(1, 2) ? I("Log", {{"message", "note"}, {"severity", r.pick(std::vector<std::string>{"debug", "info", "warning", "error"})}})
                              : I("Log", {{"inputVar", Var()}});
      case 12: return I("Output", {{"fromVar", Var()}, {"description", "value"}});
      case 13:
        if (!o.input) continue;
        return I("Input", {{"outputVar", Var()}, {"description", "give"}});
      case 14:
        if (!o.input) continue;
        return I("UserConfirmation", {{"description", "sure?"}});
      case 15:
        if (!o.waits) continue;
        return I("Wait", {{"timeout", o.endless && r.chance(1, 4) ? "1000000" : SmallTime()}, {"blocking", r.chance(1, 2) ? "true" : "false"}});
      case 16:
        if (!o.waits) continue;
        {
          auto s = I("WaitForVariable", {{"varName", Var()}, {"timeout", o.endless && r.chance(1, 4) ? "1000000" : SmallTime()}});
          if (r.chance(1, 2)) s.Set("equalsVar", Var());
          return s;
        }
      case 17:
        if (!o.waits || !o.hxvars) continue;
        return I("WaitForVariables", {{"varType", "HxVar"}, {"timeout", o.endless && r.chance(1, 4) ? "1000000" : SmallTime()}});
      case 18:
        if (!o.includes || sub) continue;
        return I(r.chance(1, 2) ? "CopyToProcedure" : "CopyFromProcedure", {{"file", IncludeFile()}, {"inputVar", Num()}, {"outputVar", Num()}});
      case 19:
        if (!o.includes || sub) continue;
        {
          auto s = I("IncludeProcedure", {{"file", IncludeFile()}, {"par", Num()}});
          if (r.chance(1, 2)) s.Set("path", "tpl");
          return s;
        }
      case 20:
        if (!o.includes || sub) continue;
        return I("Include", {{"file", IncludeFile()}, {"path", "tpl"}, {"par", Num()}});
      case 21:
        if (templates.empty()) continue;
        return I("Include", {{"path", r.pick(templates)}, {"par", Num()}});
      case 22: return I(r.chance(1, 2) ? "Succeed" : "Fail", {});
      default:
      {
        auto s = Leaf("L" + std::to_string(leaves++), r.chance(1, 4) ? "F" : r.chance(1, 3) ? "NRS" : "S");
        if (o.blocking && r.chance(1, 8)) s.Set("script", r.chance(1, 2) ? "B" : "RB");
        if (o.us && r.chance(1, 2)) s.Set("us", std::to_string(o.us));
        return s;
      }
      }
    }
    return I("Succeed", {});
  }
  std::string IncludeFile()
  {
    auto path = o.dir + "/inc" + std::to_string(files++) + ".xml";
    ProcSpec q;
    FullOpt oo = o;
    oo.max_depth = 3;
    oo.includes = false;
    FGen g{r, oo, q, 6};
    g.sub = true;
    auto body = g.Make(1);
    if (body.ch.empty()) body = Comp("Sequence", {body});
    body.Set("name", "tpl");
    auto inc = I("Increment", {{"varName", "$par"}});
    Spec wrap = Comp("Sequence", {inc, body});
    wrap.Set("name", "tpl");
    Spec mainr = Comp("Sequence", {I("Increment", {{"varName", "i32"}}), Leaf("main", "S")});
    mainr.Set("name", "mainr");
    mainr.Set("isRoot", "true");
    q.roots = {wrap, mainr};
    auto vo = o;
    vo.files = false;
    vo.hxvars = false;
    q.vars = FullVars(r, vo);
    WriteFile(path, ToXml(q));
    return path;
  }
  Spec Make(int depth)
  {
    --budget;
    if (depth >= o.max_depth || budget <= 0 || r.chance(1, 6)) return Action();
    std::vector<std::string> t{"Sequence", "Sequence", "Fallback", "Inverter", "ForceSuccess", "ReactiveSequence", "ReactiveFallback", "Choice"};
    if (o.loops) t.insert(t.end(), {"Repeat", "Repeat", "For"});
    if (o.endless && o.loops) t.push_back("Listen");
    if (o.async) t.insert(t.end(), {"ParallelSequence", "ParallelSequence", "ParallelSequence", "Async"});
    if (o.input) t.push_back("UserChoice");
    auto type = r.pick(t);
    Spec s;
    s.type = type;
    if (type == "Repeat") s.Set("maxCount", o.endless && r.chance(1, 3) ? "-1" : r.chance(1, 3) ? "@u32" : std::to_string(r.range(0, 4)));
    if (type == "Choice") s.Set("varName", r.chance(1, 3) ? "arr" : r.chance(1, 2) ? "idx" : "zero");
    if (type == "UserChoice") s.Set("description", "which?");
    if (type == "Listen") s.Set("varNames", "i32,el").Set("forceSuccess", r.chance(1, 2) ? "true" : "false");
    if (type == "For") s.Set("arrayVar", "arr").Set("elementVar", "el");
    if (type == "ParallelSequence" && r.chance(1, 2)) s.Set(r.chance(1, 2) ? "successThreshold" : "failureThreshold", std::to_string(r.range(1, 3)));
    bool compound = type.find("Sequence") != std::string::npos || type.find("Fallback") != std::string::npos || type == "Choice" || type == "UserChoice";
    int n = compound ? r.range(1, 4) : 1;
    for (int k = 0; k < n; ++k) s.ch.push_back(Make(depth + 1));
    if (r.chance(1, 5)) s.Set("name", type + " number " + std::to_string(budget));
    return s;
  }
};
}  // namespace

ProcSpec GenFull(Rng& r, const FullOpt& o)
{
  ProcSpec p;
  p.vars = FullVars(r, o);
  FGen g{r, o, p, o.max_nodes};
  std::vector<Spec> tpl;
  if (o.includes)
  {
    int n = static_cast<int>(r.below(3));
    for (int k = 0; k < n; ++k)
    {
      auto name = "t" + std::to_string(k);
      g.budget = 4;
      auto keep = g.sub;
      g.sub = true;
      auto t = g.Make(2);
      g.sub = keep;
      auto wrap = Comp("Sequence", {g.I("Increment", {{"varName", "$par"}}), t});
      wrap.Set("name", name);
      tpl.push_back(wrap);
      // a template may only use those before it: no recursion
      g.templates.push_back(name);
    }
  }
  g.budget = o.max_nodes;
  auto root = g.Make(0);
  if (root.ch.empty()) root = Comp("Sequence", {root});
  if (!tpl.empty()) root.Set("isRoot", "true");
  Number(root);
  size_t at = tpl.empty() ? 0 : r.below(tpl.size() + 1);
  p.roots = tpl;
  p.roots.insert(p.roots.begin() + static_cast<long>(at), root);
  p.attrs = {{"tickTimeout", "0.0003"}, {"timingAccuracy", "0.0005"}, {"name", "generated"}};
  return p;
}

std::unique_ptr<IUserInputFuture> RandomAnswer(Rng& r, const UserInputRequest& rq, std::function<void()> on_destroy)
{
  double delay = r.chance(1, 3) ? 0 : r.chance(1, 4) ? 1e9 : 1e-6 * static_cast<double>(r.below(3000));
  UserInputReply rep;
  if (rq.m_request_type == InputRequestType::kUserChoice) rep = CreateUserChoiceReply(!r.chance(1, 8), r.range(-1, 3));
  else
  {
    sup::dto::AnyValue v, out;
    std::string d;
    if (ParseUserValueRequest(rq, v, d)) out = v;
    if (r.chance(1, 5)) out = sup::dto::AnyValue{sup::dto::StringType, "no number"};
    rep = CreateUserValueReply(!r.chance(1, 8), out);
  }
  return std::make_unique<ScriptedFuture>(rep, delay, std::move(on_destroy));
}
}  // namespace fx

// Procedures written to XML and read back: the same structure, the same text, the same behaviour.
#include "full.h"

#include <sup/oac-tree/sequence_parser.h>

using namespace fx;
using namespace hx;

namespace
{
std::string RandomText(Rng& r)
{
  static const std::vector<std::string> p{"a", "some text", " ", "  ", "\"", "'", "<", ">", "&", "&amp;", "&lt;b&gt;", "]]>", "<!-- -->", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "{}", "@", "$", "%", "\\", "\n", "\t", "\r", "/", "0", "true"};
  std::string s;
  for (int k = static_cast<int>(r.below(6)); k > 0; --k) s += r.pick(p);
  if (r.chance(1, 100)) s += std::string(5000, 'x');
  return s;
}
std::string Attrs(const StringAttributeList& l)
{
  std::string s;
  for (auto& [n, v] : l) s += " " + n + "=[" + v + "]";
  return s;
}
void Describe(const Instruction* i, int depth, std::string& out)
{
  out += std::string(static_cast<size_t>(depth), ' ') + i->GetType() + Attrs(i->GetStringAttributes()) + " name=" + i->GetName() + "\n";
  for (auto c : i->ChildInstructions()) Describe(c, depth + 1, out);
}
std::string Describe(const Procedure& p)
{
  std::string s = "Procedure" + Attrs(p.GetStringAttributes()) + " name=" + GetProcedureName(p) + "\n";
  s += "timing " + std::to_string(TickTimeoutNs(p)) + " " + std::to_string(TimingAccuracyNs(p)) + "\n";
  for (auto& t : p.GetPreamble().GetTypeRegistrations()) s += "type " + std::to_string(t.GetRegistrationMode()) + " " + t.GetString() + "\n";
  for (auto& t : p.GetPreamble().GetPluginPaths()) s += "plugin " + t + "\n";
  auto top = p.GetTopInstructions();
  for (size_t i = 0; i < top.size(); ++i)
  {
    if (top[i] == p.RootInstruction()) s += "root " + std::to_string(i) + "\n";
    Describe(top[i], 1, s);
  }
  for (auto& n : p.VariableNames())
  {
    auto v = p.GetWorkspace().GetVariable(n);
    s += "variable " + n + " " + v->GetType() + Attrs(v->GetStringAttributes()) + " name=" + v->GetName() + "\n";
  }
  return s;
}
std::unique_ptr<Procedure> Read(const std::string& xml, Rng* r, const std::string& what)
{
  try
  {
    if (r && r->chance(1, 4))
    {
      auto f = Opt().scratch + "/rt.xml";
      WriteFile(f, xml);
      return ParseProcedureFile(f);
    }
    return ParseProcedureString(xml);
  }
  catch (const std::exception& e)
  {
    Violation("xml:unreadable", what + ": the text written for a procedure cannot be read: " + e.what() + "\n" + xml.substr(0, 3000));
  }
  return {};
}
std::string FirstDifference(const std::string& a, const std::string& b)
{
  std::istringstream x(a), y(b);
  std::string l, m;
  for (int i = 1; i < 100000; ++i)
  {
    bool p = static_cast<bool>(std::getline(x, l)), q = static_cast<bool>(std::getline(y, m));
    if (!p && !q) return "";
    if (p != q || l != m) return "line " + std::to_string(i) + ": " + (p ? l.substr(0, 800) : "(end)") + " | " + (q ? m.substr(0, 800) : "(end)");
  }
  return "";
}
// decorates a specification with texts and settings that have to survive
void Dress(Rng& r, Spec& s, int& budget)
{
  if (budget > 0 && r.chance(1, 3))
  {
    --budget;
    if (!s.Has("name")) s.Set("name", RandomText(r));
    else s.Set("note" + std::to_string(r.below(3)), RandomText(r));
  }
  for (auto& c : s.ch) Dress(r, c, budget);
}

void Structure()
{
  Section s("structure");
  if (!s.run) return;
  Rng r(Opt().seed * 89 + 1);
  long n = Scale(2500, 12, 6);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    FullOpt o;
    o.dir = Opt().scratch;
    o.max_nodes = r.chance(1, 10) ? 120 : r.range(1, 20);
    auto p = GenFull(r, o);
    int budget = 12;
    for (auto& root : p.roots) Dress(r, root, budget);
    // further top-level trees, one of them the root
    if (r.chance(1, 3))
    {
      size_t extra = r.below(4);
      for (size_t x = 0; x < extra; ++x)
      {
        Spec t = Comp("Sequence", {Leaf("X" + std::to_string(x), "S")});
        Dress(r, t, budget);
        p.roots.push_back(t);
      }
      auto& root = p.roots[r.below(p.roots.size())];
      if (p.roots.size() > 1 && r.chance(2, 3))
        for (auto& t : p.roots)
        {
          if (&t == &root) t.Set("isRoot", "true");
          else if (t.Has("isRoot")) t.Set("isRoot", "false");
        }
    }
    for (auto nm : {"name", "version", "timingAccuracy", "tickTimeout", "custom"})
      if (r.chance(1, 3))
      {
        bool have = false;
        for (auto& a : p.attrs) have = have || a.first == nm;
        std::string t = nm;
        if (!have) p.attrs.emplace_back(nm, t == "timingAccuracy" || t == "tickTimeout" ? "0." + std::to_string(r.range(1, 999)) : RandomText(r));
      }
    for (int x = static_cast<int>(r.below(3)); x > 0; --x)
    {
      VarSpec v = LocalVar("extra" + std::to_string(x), "string", "\"" + std::string(r.chance(1, 2) ? "<&>'" : "plain") + "\"", r.chance(1, 2));
      p.vars.insert(p.vars.begin() + static_cast<long>(r.below(p.vars.size() + 1)), v);
    }
    auto a = BuildProc(p);
    for (int x = static_cast<int>(r.below(3)); x > 0; --x)
      a->GetPreamble().AddTypeRegistration(r.chance(1, 2) ? TypeRegistrationInfo{TypeRegistrationInfo::kJSONString, "{\"type\":\"T" + std::to_string(x) + "\",\"attributes\":[{\"x\":{\"type\":\"int8\"}}]}"}
                                                          : TypeRegistrationInfo{TypeRegistrationInfo::kJSONFile, "types & more" + std::to_string(x) + ".json"});
    auto text = ToText(p.roots[0]).substr(0, 1000);
    Case(text);
    std::string want;
    auto xml = GetXMLString(*a);
    want = Describe(*a);
    auto b = Read(xml, &r, text);
    if (!b) continue;
    auto got = Describe(*b);
    HX_CHECK(got == want, "xml:structure", "written | read back: " << FirstDifference(want, got) << "\n" << xml.substr(0, 3000));
    auto again = GetXMLString(*b);
    HX_CHECK(again == xml, "xml:stable", "the second text differs: " << FirstDifference(xml, again));
    auto c = Read(again, nullptr, text);
    if (c) HX_CHECK(Describe(*c) == want, "xml:structure", "twice: " << FirstDifference(want, Describe(*c)));
    HX_CHECK(Describe(*a) == want, "xml:untouched", "writing a procedure changes it");
    Eval();
    Count("instructions written and read", static_cast<long>(Preorder(const_cast<Instruction*>(a->RootInstruction())).size()));
    Distinct(want);
    if (k % 250 == 0) Sample(xml.substr(0, 600));
    Beat();
  }
}

struct Run
{
  std::string trace;
  ES end = ES::NOT_STARTED;
};
Run Execute(Procedure& proc)
{
  Run res;
  RecUI ui;
  std::map<const Instruction*, int> ids;
  proc.Setup();
  int n = 0;
  for (auto i : Preorder(const_cast<Instruction*>(proc.RootInstruction()))) ids[i] = n++;
  for (int x = 0; x < 300 && !IsFinishedStatus(proc.GetStatus()); ++x) proc.ExecuteSingle(ui);
  res.end = proc.GetStatus();
  for (auto& e : ui.trace.Get())
  {
    res.trace += std::to_string(static_cast<int>(e.kind)) + " ";
    if (e.instr) res.trace += "#" + std::to_string(ids[e.instr]) + " ";
    res.trace += StatusChar(e.st);
    res.trace += " " + e.name + " " + e.text + (e.flag ? "+" : "-") + "\n";
  }
  for (auto& nm : proc.VariableNames())
  {
    sup::dto::AnyValue v;
    res.trace += nm + "=" + (proc.GetVariableValue(nm, v) ? Json(v) : "none") + "\n";
  }
  proc.Reset(ui);
  return res;
}
void Behaviour()
{
  Section s("behaviour");
  if (!s.run) return;
  Rng r(Opt().seed * 97 + 1);
  long n = Scale(2500, 12, 6);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    ProcSpec p;
    if (r.chance(1, 2))
    {
      GenOpt o;
      o.max_nodes = r.range(1, 25);
      ModelVars mv;
      p.roots = {GenTree(r, o, p, mv)};
    }
    else
    {
      FullOpt o;
      o.dir = Opt().scratch;
      o.async = o.endless = o.blocking = o.waits = o.input = false;
      o.max_nodes = r.range(1, 25);
      p = GenFull(r, o);
    }
    auto text = ToText(p.roots[0]).substr(0, 1000);
    Case(text);
    std::string xml;
    {
      auto a = BuildProc(p, Opt().scratch + "/rt.xml");
      xml = GetXMLString(*a);
    }
    auto f = Opt().scratch + "/rt.xml";
    WriteFile(f, xml);
    auto state = Opt().scratch + "/state.json";
    for (auto& v : p.vars)
      for (auto& a : v.attrs)
        if (a.first == "file") state = a.second;
    auto before = ReadFile(state);
    Run x, y;
    bool tx = false, ty = false;
    auto a = BuildProc(p, f);
    try
    {
      x = Execute(*a);
    }
    catch (const std::exception&)
    {
      tx = true;
    }
    if (before.empty()) std::remove(state.c_str());
    else WriteFile(state, before);
    std::unique_ptr<Procedure> b;
    try
    {
      b = ParseProcedureFile(f);
      y = Execute(*b);
    }
    catch (const std::exception&)
    {
      ty = true;
    }
    HX_CHECK(tx == ty, "xml:setup", "only one of a procedure and its copy can be set up\n" << xml.substr(0, 3000));
    if (!tx && !ty)
    {
      HX_CHECK(x.end == y.end && x.trace == y.trace, "xml:behaviour", "a procedure read back behaves differently: " << FirstDifference(x.trace, y.trace) << "\n" << xml.substr(0, 3000));
      Count("status reports compared", static_cast<long>(std::count(x.trace.begin(), x.trace.end(), '\n')));
    }
    Count(tx ? "procedures refused" : "procedures executed");
    Eval();
    Distinct(xml);
    Beat();
  }
}

// every character and every awkward text as attribute of every part of a procedure
void Texts()
{
  Section s("texts");
  if (!s.run) return;
  Rng r(Opt().seed * 101 + 1);
  std::vector<std::string> texts;
  for (int c = 1; c < 128; ++c)
    if (c >= 32 || c == '\n' || c == '\t' || c == '\r') texts.push_back(std::string("x") + static_cast<char>(c) + "y"), texts.push_back(std::string(1, static_cast<char>(c)));
  for (auto t : {"", "&lt;", "&#65;", "<![CDATA[x]]>", "]]>", "<!--", "-->", "\xc2\xa0", "\xe2\x80\xa8", "\xf0\x9f\x98\x80", "\xc3\xa9\xc3\xa9", "  two  spaces  ", "'\"'\"", "<?xml?>", "%d%s"}) texts.push_back(t);
  long n = Scale(500, 4, 2);
  for (long k = 0; k < n; ++k) texts.push_back(RandomText(r));
  for (auto& t : texts)
  {
    ProcSpec p;
    p.roots = {Comp("Sequence", {Spec{}})};
    p.roots[0].Set("name", t);
    p.roots[0].ch[0].type = "Message";
    p.roots[0].ch[0].Set("text", t);
    p.attrs = {{"name", t}, {"note", t}};
    VarSpec v;
    v.type = "Local";
    v.name = "v";
    v.attrs = {{"type", "{\"type\":\"string\"}"}, {"note", t}};
    p.vars = {v};
    p.json_types = {t};
    auto a = BuildProc(p);
    auto want = Describe(*a);
    auto xml = GetXMLString(*a);
    auto b = Read(xml, nullptr, Quote(t));
    if (!b) continue;
    HX_CHECK(Describe(*b) == want, "xml:text", "the text " << Quote(t) << " does not survive: " << FirstDifference(want, Describe(*b)));
    Eval();
    Distinct(t);
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("procedures written and read back; distinct by procedure");
    RegisterFixtures();
    Texts();
    Structure();
    Behaviour();
  })

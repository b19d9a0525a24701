// Mutated procedure texts: a procedure or an error of the library, and what is accepted is safe to set up and execute.
#include "full.h"

#include <sup/oac-tree/application_utils.h>
#include <sup/oac-tree/attribute_utils.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/variable.h>

#include <atomic>
#include <cxxabi.h>
#include <set>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

using namespace fx;
using namespace hx;

namespace
{
std::string TypeOf(const std::exception& e)
{
  int st = 0;
  char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
  std::string s = n ? n : typeid(e).name();
  free(n);
  return s;
}
bool Library(const std::string& type) { return type.rfind("sup::", 0) == 0; }

// numbers that would ask for gigabytes are a matter of resources, not of the parser
bool Huge(const std::string& x)
{
  for (size_t p = x.find("multiplicity"); p != std::string::npos; p = x.find("multiplicity", p + 1))
  {
    size_t digits = 0;
    for (size_t q = p + 12; q < x.size() && q < p + 40; ++q)
    {
      if (x[q] == 'e' && q + 1 < x.size() && x[q + 1] == 'l') break;
      digits += isdigit(static_cast<unsigned char>(x[q])) ? 1 : (digits && (x[q] == 'e' || x[q] == 'E')) ? 10 : 0;
      if (x[q] == ',' || x[q] == '}') break;
    }
    if (digits > 3) return true;
  }
  return false;
}
// file variables write: only plain names in the scratch directory are allowed to be used
bool Contained(Procedure& p)
{
  for (auto v : p.GetWorkspace().GetVariables())
  {
    if (v->GetType() != "File") continue;
    auto f = v->GetAttributeString("file");
    if (f.rfind("./", 0) == 0) f = f.substr(2);
    if (f.find('/') != std::string::npos || f == ".." || f.empty() || f.size() < 3 || f.find(".xml") != std::string::npos) return false;
  }
  return true;
}

const std::vector<std::string>& Tokens()
{
  static const std::vector<std::string> t = [] {
    std::vector<std::string> v{"<", ">", "/>", "</", "\"", "'", "=", "&", "&amp;", "&lt;", "&#0;", "&#x41;", "&bogus;", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\"?>", "<!DOCTYPE a [<!ENTITY e \"eeee\">]>", "&e;", "<Workspace>", "</Workspace>", "<Procedure>", "</Procedure>", "<Plugin>nothere.so</Plugin>", "<RegisterType jsontype=\"{}\"/>", "<RegisterType jsonfile=\"nothere\"/>", "<RegisterType/>",
      " name=\"\"", " isRoot=\"true\"", " isRoot=\"\"", " type='{\"type\":\"uint8\"}'", " value=\"[]\"", " timeout=\"1e999\"", " timeout=\"nan\"", " timeout=\"-1\"", " maxCount=\"-2147483648\"", " path=\"\"", " path=\"..\"", " path=\"a.b.c\"", " file=\"\"", " file=\"self.xml\"", " varName=\"\"", " varName=\".\"", " varName=\"a.\"", " varName=\".a\"", " varName=\"a[0]\"", " varName=\"a[\"", " varName=\"a[99999999999999999999]\"", " varNames=\",,,\"", " varNames=\"a,,b\"", "{", "}", "[", "]", ":", ",", "null", "true", "1e308", "-0", "0x1", "99999999999999999999", "\\u0000", "\\", "@", "$", "@@", "$x", "\xc3\xa9", "\xff", "\xc3", std::string("\0", 1), "\n", "\t", " ", "    "};
    for (auto& n : GlobalInstructionRegistry().RegisteredInstructionNames()) { v.push_back(n); v.push_back("<" + n + ">"); v.push_back("<" + n + "/>"); v.push_back("</" + n + ">"); }
    for (auto n : {"Local", "File", "int8", "uint8", "string", "float64", "bool", "multiplicity", "element", "attributes", "type"}) v.push_back(n);
    return v;
  }();
  return t;
}

// positions of attribute values: begin and end of the text between quotes
std::vector<std::pair<size_t, size_t>> Values(const std::string& x)
{
  std::vector<std::pair<size_t, size_t>> v;
  for (size_t p = x.find("=\""); p != std::string::npos; p = x.find("=\"", p + 1))
  {
    auto e = x.find('"', p + 2);
    if (e == std::string::npos) break;
    v.push_back({p + 2, e});
    p = e;
  }
  return v;
}
std::vector<std::pair<size_t, size_t>> Tags(const std::string& x)
{
  std::vector<std::pair<size_t, size_t>> v;
  for (size_t p = x.find('<'); p != std::string::npos; p = x.find('<', p + 1))
  {
    auto e = x.find('>', p);
    if (e == std::string::npos) break;
    v.push_back({p, e + 1});
  }
  return v;
}

std::string Mutate(Rng& r, std::string x, const std::string& other)
{
  for (int n = 1 + static_cast<int>(r.chance(1, 2) ? 0 : r.below(5)); n > 0; --n)
  {
    if (x.empty()) x = "<";
    auto at = [&] { return r.below(x.size()); };
    switch (r.chance(2, 3) ? 6 + r.below(8) : r.below(14))
    {
    case 0: x[at()] = static_cast<char>(r.below(256)); break;
    case 1: { auto p = at(); x.erase(p, 1 + r.below(r.chance(1, 4) ? 60 : 4)); break; }
    case 2: x.insert(at(), r.pick(Tokens())); break;
    case 3: { auto p = at(); auto s = x.substr(p, 1 + r.below(80)); x.insert(at(), s); break; }
    case 4: x = x.substr(0, at()); break;
    case 5: { if (other.empty()) break; auto p = r.below(other.size()); x = x.substr(0, at()) + other.substr(p); break; }
    case 6:
    case 7:
    case 8:   // an attribute value
    {
      auto v = Values(x);
      if (v.empty()) break;
      auto p = r.pick(v);
      if (r.chance(1, 3)) { auto q = r.pick(v); auto s = x.substr(q.first, q.second - q.first); x.replace(p.first, p.second - p.first, s); }
      else if (r.chance(1, 2)) { std::string t; for (auto c : r.pick(Tokens())) t += c == '"' ? '\'' : c == '<' ? '(' : c; x.replace(p.first, p.second - p.first, t); }
      else { std::string t; for (auto c : r.pick(Tokens())) if (c != '"' && c != '<') t += c; x.insert(p.first + r.below(p.second - p.first + 1), t); }
      break;
    }
    case 9:   // a tag disappears or is doubled
    case 10:
    {
      auto v = Tags(x);
      if (v.empty()) break;
      auto p = r.pick(v);
      if (r.chance(1, 2)) x.erase(p.first, p.second - p.first);
      else { auto q = r.pick(v); x.insert(q.first, x.substr(p.first, p.second - p.first)); }
      break;
    }
    case 11:   // another element name
    {
      auto v = Tags(x);
      if (v.empty()) break;
      auto p = r.pick(v);
      auto e = x.find_first_of(" />", p.first + 1);
      if (e == std::string::npos || x[p.first + 1] == '/') break;
      auto old = x.substr(p.first + 1, e - p.first - 1);
      auto names = GlobalInstructionRegistry().RegisteredInstructionNames();
      auto neu = r.chance(1, 6) ? std::string("Workspace") : r.pick(names);
      x.replace(p.first + 1, old.size(), neu);
      auto close = x.find("</" + old + ">", p.first);
      if (close != std::string::npos && x.substr(p.first, x.find('>', p.first) - p.first).back() != '/') x.replace(close + 2, old.size(), neu);
      break;
    }
    case 12:   // nesting
    {
      std::string a;
      std::string b;
      for (int d = static_cast<int>(r.below(r.chance(1, 10) ? 400 : 6)); d > 0; --d) { a += "<Inverter>"; b += "</Inverter>"; }
      auto v = Tags(x);
      if (v.empty()) break;
      auto p = r.pick(v);
      if (x[p.second - 2] == '/') { x.insert(p.second, b); x.insert(p.first, a); }
      break;
    }
    default:   // an attribute disappears or is added
    {
      auto v = Values(x);
      if (v.empty()) break;
      auto p = r.pick(v);
      auto b = x.rfind(' ', p.first);
      if (b != std::string::npos && r.chance(1, 2)) x.erase(b, p.second + 1 - b);
      else if (b != std::string::npos) x.insert(b, " " + r.pick(std::vector<std::string>{"name", "isRoot", "type", "value", "varName", "inputVar", "file", "path", "timeout", "unknown", "maxCount", "showCollapsed", "dynamicType"}) + "=\"" + r.pick(std::vector<std::string>{"", "true", "x", "0", "@x", "$x", "{}"}) + "\"");
    }
    }
    if (x.size() > 60000) x.resize(60000);
  }
  return x;
}

void RunBriefly(Procedure& p, const std::string& text)
{
  RecUI ui;
  std::atomic<bool> done{false};
  std::string thrown;
  double t0 = Now();
  std::thread exec([&] {
    try
    {
      for (int k = 0; k < 200 && NeedsExecute(p.GetStatus()); ++k) p.ExecuteSingle(ui);
    }
    catch (const std::exception& e) { thrown = TypeOf(e) + ": " + e.what(); }
    catch (...) { thrown = "unknown exception"; }
    done = true;
  });
  while (!done && Now() - t0 < 0.02) std::this_thread::sleep_for(std::chrono::microseconds(200));
  double t1 = Now();
  while (!done)
  {
    p.Halt();
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
    if (Now() - t1 > 60)
    {
      HX_CHECK(false, "hang", "execution does not end although it was halted\n" << text.substr(0, 4000));
      break;
    }
  }
  exec.join();
  HX_CHECK(thrown.empty(), "execute:exception", "execution lets an exception out: " << thrown << "\n" << text.substr(0, 4000));
  Count(std::string("executions ending with ") + StatusToString(p.GetStatus()));
  p.Reset(ui);
}

std::string Plausible(const std::string& x)
{
  return x.substr(0, 3000);
}

void Submit(const std::string& x, bool file)
{
  if (Huge(x)) { Count("texts skipped: huge arrays"); return; }
  Case(x);
  std::unique_ptr<Procedure> p;
  double t0 = Now();
  if (file)
  {
    WriteFile("self.xml", x);
    std::string error;
    try { p = utils::SafeParseProcedure("self.xml", error); }
    catch (const std::exception& e) { HX_CHECK(false, "safe:exception", "SafeParseProcedure lets an exception out: " << TypeOf(e) << "\n" << Plausible(x)); }
    HX_CHECK(error.empty() == (p != nullptr), "safe:outcome", "SafeParseProcedure gives " << (p ? "a procedure and an error" : "neither procedure nor error") << "\n" << Plausible(x));
    Count(p ? "texts accepted" : "texts refused");
  }
  else
  {
    try
    {
      p = ParseProcedureString(x);
      HX_CHECK(p != nullptr, "parse:null", "neither a procedure nor an error\n" << Plausible(x));
      Count("texts accepted");
    }
    catch (const std::exception& e)
    {
      auto t = TypeOf(e);
      HX_CHECK(Library(t), "parse:exception", "parsing ends with " << t << ": " << e.what() << "\n" << Plausible(x));
      HX_CHECK(std::string(e.what()).size() > 0, "parse:message", "an error without text\n" << Plausible(x));
      Count("texts refused");
    }
  }
  HX_CHECK(Now() - t0 < 20, "slow", "parsing " << x.size() << " bytes takes " << Now() - t0 << " s\n" << Plausible(x));
  Eval();
  DistinctHash(std::hash<std::string>{}(x));
  Beat();
  if (!p) return;
  if (!Contained(*p)) { Count("procedures not executed: file elsewhere"); return; }
  bool ok = false;
  try { p->Setup(); ok = true; }
  catch (const std::exception& e)
  {
    auto t = TypeOf(e);
    HX_CHECK(Library(t), "setup:exception", "set-up ends with " << t << ": " << e.what() << "\n" << Plausible(x));
  }
  Count(ok ? "procedures set up" : "procedures refused at set-up");
  if (ok)
  {
    RunBriefly(*p, x);
    std::string y;
    try { y = GetXMLString(*p); }
    catch (const std::exception& e) { HX_CHECK(Library(TypeOf(e)), "write:exception", "writing ends with " << TypeOf(e) << "\n" << Plausible(x)); }
  }
}

void Mutants()
{
  Section s("mutants");
  if (!s.run) return;
  Rng r(Opt().seed * 41 + 1);
  FullOpt o;
  o.dir = ".";
  o.max_nodes = 10;
  std::string other;
  std::vector<std::string> pool;
  for (long k = Scale(45000, 12, 12); k > 0 && !TooMany(); --k)
  {
    std::string x;
    if (pool.size() < 40 || r.chance(1, 20))
    {
      auto spec = GenFull(r, o);
      x = ToXml(spec);
      if (pool.size() < 200) pool.push_back(x); else pool[r.below(pool.size())] = x;
    }
    x = Mutate(r, r.pick(pool), other);
    other = x;
    if (r.chance(1, 10)) { if (x.size() < 8000) pool[r.below(pool.size())] = x; }   // mutants of mutants
    Submit(x, r.chance(1, 5));
  }
}

// random bytes and random tokens
void Noise()
{
  Section s("noise");
  if (!s.run) return;
  Rng r(Opt().seed * 43 + 1);
  for (long k = Scale(20000, 15, 10); k > 0 && !TooMany(); --k)
  {
    std::string x;
    if (r.chance(2, 3)) x = "<Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p\">";
    for (int n = static_cast<int>(r.below(30)); n > 0; --n)
    {
      if (r.chance(1, 12)) x += static_cast<char>(r.below(256));
      else x += r.pick(Tokens());
    }
    if (r.chance(1, 2)) x += "</Procedure>";
    Submit(x, r.chance(1, 5));
  }
}

// type and value texts, attribute texts of every type
void Texts()
{
  Section s("texts");
  if (!s.run) return;
  Rng r(Opt().seed * 47 + 1);
  static const std::vector<std::string> seeds{"{\"type\":\"uint8\"}", "{\"type\":\"S\",\"attributes\":[{\"a\":{\"type\":\"int8\"}},{\"b\":{\"type\":\"string\"}}]}", "{\"type\":\"A\",\"multiplicity\":3,\"element\":{\"type\":\"float64\"}}", "[1,2,3]", "{\"a\":1,\"b\":\"x\"}", "\"text\"", "1.5", "true"};
  auto esc = [](const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"') o += "&quot;"; else if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else o += static_cast<char>(c); } return o; };
  static const std::vector<sup::dto::AnyType> types{sup::dto::BooleanType, sup::dto::Character8Type, sup::dto::SignedInteger8Type, sup::dto::UnsignedInteger64Type, sup::dto::Float32Type, sup::dto::Float64Type, sup::dto::StringType};
  for (long k = Scale(25000, 15, 8); k > 0 && !TooMany(); --k)
  {
    auto json = [&] { return r.chance(1, 2) ? r.pick(seeds) : Mutate(r, r.pick(seeds), r.pick(seeds)); };
    auto a = json();
    auto b = json();
    Submit("<Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p\"><RegisterType jsontype=\"" + esc(json()) + "\"/><Sequence><Copy inputVar=\"v\" outputVar=\"w\"/><Equals leftVar=\"v\" rightVar=\"w\"/><Increment varName=\"" + esc(r.chance(1, 3) ? "v[0]" : r.chance(1, 2) ? "v.a" : "v") + "\"/></Sequence><Workspace><Local name=\"v\" type=\"" + esc(a) + "\" value=\"" + esc(b) + "\"/><Local name=\"w\"/></Workspace></Procedure>", false);
    auto t = r.pick(types);
    Case(b);
    auto res = utils::ParseAttributeString(t, b);
    if (res.first) HX_CHECK(res.second.GetType() == t, "attribute:type", "a text parsed as " << t.GetTypeName() << " gives " << res.second.GetTypeName() << ": " << Quote(b));
    if (res.first)
    {
      auto back = utils::CreateAttributeString(res.second);
      auto again = back.first ? utils::ParseAttributeString(t, back.second) : back.first ? res : std::pair<bool, sup::dto::AnyValue>{false, {}};
      HX_CHECK(back.first && again.first && again.second == res.second, "attribute:again", "the text of a value is not read as that value: " << Quote(b));
      Count("attribute texts accepted");
    }
  }
}

// files that are not there, are directories, or include each other
void Files()
{
  Section s("files");
  if (!s.run) return;
  Rng r(Opt().seed * 53 + 1);
  mkdir("adir", 0777);
  for (std::string f : {"nothere.xml", "adir", "", "/", ".", "adir/nothere.xml"})
  {
    std::string error;
    auto p = utils::SafeParseProcedure(f, error);
    HX_CHECK(!p && !error.empty(), "files:safe", "SafeParseProcedure of " << Quote(f) << " reports no error");
    try { auto q = ParseProcedureFile(f); HX_CHECK(false, "files:parse", "ParseProcedureFile of " << Quote(f) << " gives a procedure"); }
    catch (const std::exception& e) { HX_CHECK(Library(TypeOf(e)), "files:exception", "ParseProcedureFile of " << Quote(f) << " ends with " << TypeOf(e)); }
    Eval();
  }
  for (long k = Scale(1500, 15, 8); k > 0 && !TooMany(); --k)
  {
    int n = 1 + static_cast<int>(r.below(4));
    std::string all;
    for (int i = 0; i < n; ++i)
    {
      std::string x = "<Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p" + std::to_string(i) + "\">";
      for (int j = 0; j < 2; ++j)
      {
        x += "<Sequence name=\"t" + std::to_string(j) + "\"" + (j == 0 ? " isRoot=\"true\"" : "") + ">";
        for (int m = 1 + static_cast<int>(r.below(3)); m > 0; --m)
        {
          auto f = "inc" + std::to_string(r.below(static_cast<unsigned>(n) + (r.chance(1, 20) ? 1 : 0))) + ".xml";
          auto path = "t" + std::to_string(r.below(2));
          switch (r.below(6))
          {
          case 0: x += "<Include file=\"" + f + "\" path=\"" + path + "\"/>"; break;
          case 1: x += "<IncludeProcedure file=\"" + f + "\"" + (r.chance(1, 2) ? " path=\"" + path + "\"" : "") + "/>"; break;
          case 2: x += "<Include path=\"" + path + "\"/>"; break;
          case 3: x += "<CopyFromProcedure file=\"" + f + "\" inputVar=\"v\" outputVar=\"v\"/>"; break;
          default: x += "<Increment varName=\"v\"/>";
          }
        }
        x += "</Sequence>";
      }
      x += "<Workspace><Local name=\"v\" type='{\"type\":\"uint32\"}' value=\"0\"/></Workspace></Procedure>";
      if (r.chance(1, 12)) x = Mutate(r, x, "");
      if (Huge(x) || x.find("File") != std::string::npos) x = "";
      WriteFile("inc" + std::to_string(i) + ".xml", x);
      all += x + "\n";
    }
    Case(all);
    std::unique_ptr<Procedure> p;
    double t0 = Now();
    try
    {
      p = ParseProcedureFile("inc0.xml");
      p->Setup();
      Count("including procedures set up");
    }
    catch (const std::exception& e)
    {
      HX_CHECK(Library(TypeOf(e)), "files:exception", "ends with " << TypeOf(e) << ": " << e.what() << "\n" << all.substr(0, 4000));
      p.reset();
      Count("including procedures refused");
    }
    HX_CHECK(Now() - t0 < 30, "files:slow", "set-up takes " << Now() - t0 << " s\n" << all.substr(0, 4000));
    if (p) RunBriefly(*p, all);
    Eval();
    DistinctHash(std::hash<std::string>{}(all));
    Beat();
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("texts given to the parser, the procedures accepted set up and executed briefly; distinct by text");
    RegisterFixtures();
    if (chdir(Opt().scratch.c_str())) {}
    Mutants();
    Noise();
    Texts();
    Files();
  })

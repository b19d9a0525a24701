// File variables: what is written is what is read, under every failure of the file system.
#include "full.h"

#include <sup/dto/anyvalue_helper.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>

#include <limits>
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>

using namespace fx;
using namespace hx;
using sup::dto::AnyType;
using sup::dto::AnyValue;

namespace
{
const std::vector<AnyType> SCALARS{
  sup::dto::BooleanType, sup::dto::Character8Type, sup::dto::SignedInteger8Type, sup::dto::UnsignedInteger8Type, sup::dto::SignedInteger16Type, sup::dto::UnsignedInteger16Type,
  sup::dto::SignedInteger32Type, sup::dto::UnsignedInteger32Type, sup::dto::SignedInteger64Type, sup::dto::UnsignedInteger64Type, sup::dto::Float32Type, sup::dto::Float64Type, sup::dto::StringType};
AnyType RandomType(Rng& r, int depth = 0)
{
  if (depth > 2 || r.chance(1, depth ? 2 : 4)) return r.pick(SCALARS);
  std::string name = r.chance(1, 3) ? "named" + std::to_string(r.below(3)) : "";
  if (r.chance(1, 3)) return AnyType(r.below(4), r.chance(1, 2) ? r.pick(SCALARS) : RandomType(r, depth + 1), name);
  AnyType t = sup::dto::EmptyStructType(name);
  int n = r.range(1, 3);
  for (int k = 0; k < n; ++k) t.AddMember(std::string(1, static_cast<char>('a' + k)), RandomType(r, depth + 1));
  return t;
}
std::string RandomText(Rng& r)
{
  static const std::vector<std::string> p{"a", "text", " ", "\"", "'", "\\", "\\n", "\n", "\t", "\r", "{", "}", "[", "]", ",", ":", "/", "null", "\xc3\xa9", "\xf0\x9f\x98\x80", "\x01", "\x1f", "%", "0"};
  std::string s;
  for (int k = static_cast<int>(r.below(6)); k > 0; --k) s += r.pick(p);
  if (r.chance(1, 60)) s += std::string(20000, 'x');
  return s;
}
template <class T>
AnyValue Extreme(Rng& r, const AnyType& t)
{
  static const std::vector<T> v{0, 1, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), static_cast<T>(std::numeric_limits<T>::max() / 3)};
  return AnyValue{t, r.pick(v)};
}
AnyValue Scalar(Rng& r, const AnyType& t)
{
  using namespace sup::dto;
  if (t == StringType) return AnyValue{t, RandomText(r)};
  if (t == BooleanType) return AnyValue{r.chance(1, 2)};
  if (t == SignedInteger8Type) return Extreme<int8>(r, t);
  if (t == UnsignedInteger8Type) return Extreme<uint8>(r, t);
  if (t == SignedInteger16Type) return Extreme<int16>(r, t);
  if (t == UnsignedInteger16Type) return Extreme<uint16>(r, t);
  if (t == SignedInteger32Type) return Extreme<int32>(r, t);
  if (t == UnsignedInteger32Type) return Extreme<uint32>(r, t);
  if (t == SignedInteger64Type) return Extreme<int64>(r, t);
  if (t == UnsignedInteger64Type) return Extreme<uint64>(r, t);
  AnyValue x{t};
  x.ConvertFrom(AnyValue{SignedInteger32Type, static_cast<int32>(r.below(t == Character8Type ? 100 : 100000)) - (t == Character8Type ? 0 : 50000)});
  return x;
}
void Fill(Rng& r, AnyValue& v)
{
  if (sup::dto::IsStructValue(v)) for (auto& m : v.MemberNames()) Fill(r, v[m]);
  else if (sup::dto::IsArrayValue(v)) for (size_t k = 0; k < v.NumberOfElements(); ++k) Fill(r, v[k]);
  else v.ConvertFrom(Scalar(r, v.GetType()));
}
AnyValue RandomValue(Rng& r)
{
  AnyValue v{RandomType(r)};
  Fill(r, v);
  return v;
}
void Paths(const AnyValue& v, const std::string& at, std::vector<std::string>& out)
{
  out.push_back(at);
  if (sup::dto::IsStructValue(v)) for (auto& m : v.MemberNames()) Paths(v[m], at.empty() ? m : at + "." + m, out);
  if (sup::dto::IsArrayValue(v)) for (size_t k = 0; k < v.NumberOfElements(); ++k) Paths(v[k], at + "[" + std::to_string(k) + "]", out);
}
AnyValue* FieldOf(AnyValue& v, const std::string& path) { return path.empty() ? &v : &v[path]; }

struct Note { std::string value; bool avail; };
struct Ws
{
  std::unique_ptr<Workspace> ws;
  std::vector<std::pair<std::string, Note>> notes;
  std::mutex mx;
  explicit Ws(const std::string& proc_file, const std::vector<std::pair<std::string, std::string>>& files, Rng& r)
  {
    ws = std::make_unique<Workspace>(proc_file);
    for (auto& [n, f] : files)
    {
      auto v = GlobalVariableRegistry().Create("File");
      v->SetName(n);
      v->AddAttribute("file", f);
      if (r.chance(1, 3)) v->AddAttribute("pretty", r.chance(1, 2) ? "true" : "false");
      ws->AddVariable(n, std::move(v));
    }
    auto loc = GlobalVariableRegistry().Create("Local");
    loc->AddAttribute("type", "{\"type\":\"uint32\"}");
    loc->AddAttribute("value", "7");
    loc->SetName("other");
    ws->AddVariable("other", std::move(loc));
    ws->RegisterGenericCallback([this](const std::string& n, const AnyValue& v, bool a) {
      std::lock_guard<std::mutex> lk(mx);
      notes.push_back({n, {sup::dto::IsEmptyValue(v) ? "" : Json(v), a}});
    }, this);
    ws->Setup();
  }
  ~Ws() { ws->Teardown(); }
  bool OtherIntact()
  {
    AnyValue v;
    return ws->GetValue("other", v) && v == AnyValue{sup::dto::UnsignedInteger32Type, 7u};
  }
};
std::string Full(const AnyValue& v) { return Json(v) + " of type " + sup::dto::AnyValueToJSONString(v).substr(0, 300); }

// histories of writes of values and fields, with other variables on the same file and new workspaces
void Histories()
{
  Section s("histories");
  if (!s.run) return;
  Rng r(Opt().seed * 13 + 1);
  for (long k = Scale(1500, 12, 5); k > 0 && !TooMany(); --k)
  {
    auto dir = Opt().scratch + "/h" + std::to_string(k % 50);
    mkdir(dir.c_str(), 0777);
    auto f1 = dir + "/one.json";
    auto f2 = dir + "/two.json";
    unlink(f1.c_str());
    unlink(f2.c_str());
    std::vector<std::pair<std::string, std::string>> files{{"a", "one.json"}, {"b", f1}, {"c", f2}};
    auto w = std::make_unique<Ws>(dir + "/proc.xml", files, r);
    std::map<std::string, AnyValue> model;   // by file
    auto file_of = [&](const std::string& n) { return n == "c" ? f2 : f1; };
    std::string history;
    bool empty_ok = w->notes.size() == 4;
    for (auto& n : w->notes) if (n.first != "other" && (n.second.avail || !n.second.value.empty())) empty_ok = false;
    HX_CHECK(empty_ok, "setup:notify", "setting up variables without files does not announce each as unavailable once (" << w->notes.size() << " notifications)");
    for (int step = 0; step < 12; ++step)
    {
      w->notes.clear();
      std::string var = r.pick(std::vector<std::string>{"a", "b", "c"});
      auto file = file_of(var);
      bool there = model.count(file) > 0;
      switch (r.below(6))
      {
      case 0:
      case 1:   // whole value
      {
        auto v = RandomValue(r);
        history += var + "=" + Json(v).substr(0, 60) + "; ";
        bool ok = w->ws->SetValue(var, v);
        HX_CHECK(ok, "write", "writing was refused: " << Full(v) << ": " << history);
        HX_CHECK(w->notes.size() == 1 && w->notes[0].first == var && w->notes[0].second.value == Json(v) && w->notes[0].second.avail, "write:notify", "writing gives " << w->notes.size() << " notifications: " << history);
        if (ok) model[file] = v;
        Count("values written");
        break;
      }
      case 2:
      case 3:   // a field
      {
        if (!there)
        {
          HX_CHECK(!w->ws->SetValue(var + ".a", AnyValue{true}), "field:missing", "a field of a missing value could be written: " << history);
          break;
        }
        auto want = model[file];
        std::vector<std::string> paths;
        Paths(want, "", paths);
        auto p = r.pick(paths);
        for (int t = 0; t < 8 && (p.empty() || p[0] == '['); ++t) p = r.pick(paths);
        bool wrong = r.chance(1, 6);
        if (wrong)
        {
          p += ".nothere";
          HX_CHECK(!w->ws->SetValue(var + "." + p, AnyValue{true}), "field:unknown", "an unknown field " << p << " could be written: " << history);
          HX_CHECK(w->notes.empty(), "field:notify", "a refused write was announced: " << history);
        }
        else
        {
          if (p.empty()) break;
          auto x = AnyValue{FieldOf(want, p)->GetType()};
          Fill(r, x);
          *FieldOf(want, p) = x;
          history += var + "." + p + "=" + Json(x).substr(0, 60) + "; ";
          auto name = p[0] == '[' ? var + "." + p : var + "." + p;
          bool ok = w->ws->SetValue(name, x);
          if (p[0] == '[' && !ok) { Count("array paths refused"); break; }
          HX_CHECK(ok, "field:write", "writing a field was refused: " << history);
          HX_CHECK(w->notes.size() == 1 && w->notes[0].second.value == Json(want) && w->notes[0].second.avail, "field:notify", "a field write gives " << w->notes.size() << " notifications: " << history);
          if (ok) model[file] = want;
          Count("fields written");
        }
        break;
      }
      case 4:   // a new workspace, the old procedure is gone
      {
        history += "reopen; ";
        w.reset();
        w = std::make_unique<Ws>(r.chance(1, 2) ? dir + "/proc.xml" : dir + "/another.xml", files, r);
        for (auto& [n, note] : w->notes)
        {
          if (n == "other") continue;
          auto it = model.find(file_of(n));
          HX_CHECK(note.avail == (it != model.end()) && note.value == (it == model.end() ? "" : Json(it->second)), "reopen:notify", "setup announces " << note.value << " for " << n << ": " << history);
        }
        Count("workspaces reopened");
        break;
      }
      default:
        w->ws->ResetVariable(var);
        history += "reset " + var + "; ";
      }
      // everything reads back through every variable
      for (std::string n : {"a", "b", "c"})
      {
        auto it = model.find(file_of(n));
        AnyValue got;
        bool ok = w->ws->GetValue(n, got);
        auto v = w->ws->GetVariable(n);
        HX_CHECK(ok == (it != model.end()), "read:outcome", "reading " << n << (ok ? " succeeds" : " fails") << ": " << history);
        HX_CHECK(v->IsAvailable() == (it != model.end()), "available", n << " is " << (v->IsAvailable() ? "" : "not ") << "available: " << history);
        if (!ok || it == model.end()) continue;
        HX_CHECK(got == it->second && got.GetType() == it->second.GetType(), "read:value", "reading " << n << " gives " << Full(got) << " instead of " << Full(it->second) << ": " << history);
        std::vector<std::string> paths;
        Paths(it->second, "", paths);
        auto p = r.pick(paths);
        if (p.empty() || p[0] == '[') continue;
        AnyValue f;
        ok = w->ws->GetValue(n + "." + p, f);
        HX_CHECK(ok && f == *FieldOf(it->second, p), "read:field", "reading " << n << "." << p << " is wrong: " << history);
      }
      HX_CHECK(w->OtherIntact(), "others", "another variable was changed: " << history);
      Eval();
    }
    Distinct(history);
    Beat();
  }
}

// no file can grow beyond a few bytes
struct FullDisk
{
  bool on;
  struct rlimit old;
  explicit FullDisk(bool o) : on{o}
  {
    if (!on) return;
    getrlimit(RLIMIT_FSIZE, &old);
    struct rlimit l = old;
    l.rlim_cur = 10;
    setrlimit(RLIMIT_FSIZE, &l);
  }
  ~FullDisk() { if (on) setrlimit(RLIMIT_FSIZE, &old); }
};

// files that are missing, cut, damaged or not files at all
void Faults()
{
  Section s("faults");
  if (!s.run) return;
  Rng r(Opt().seed * 19 + 4);
  signal(SIGXFSZ, SIG_IGN);
  auto dir = Opt().scratch + "/faults";
  mkdir(dir.c_str(), 0777);
  mkdir((dir + "/adir").c_str(), 0777);
  mkdir((dir + "/locked").c_str(), 0777);
  for (long k = Scale(800, 12, 5); k > 0 && !TooMany(); --k)
  {
    auto f = dir + "/f.json";
    auto v = RandomValue(r);
    std::string target = f;
    std::string what;
    bool readable = false;     // the value is still there
    bool any = false;          // whatever is read is fine
    bool writable = true;
    { Ws w(dir + "/p.xml", {{"x", f}}, r); HX_CHECK(w.ws->SetValue("x", v), "fault:write", "writing was refused: " << Full(v)); }
    auto text = ReadFile(f);
    switch (r.below(9))
    {
    case 0: unlink(f.c_str()); what = "missing"; break;
    case 1: WriteFile(f, text.substr(0, r.below(text.size()))); what = "cut"; break;
    case 2: { auto t = text; t[r.below(t.size())] = static_cast<char>(r.below(256)); WriteFile(f, t); what = "damaged"; any = true; break; }
    case 3: WriteFile(f, text + "x"); what = "garbage at the end"; break;
    case 4: WriteFile(f, r.pick(std::vector<std::string>{"", "{}", "[]", "null", "[{},{},{}]", "42", "\"s\"", "[{\"encoding\":\"sup-dto/v1.0/JSON\"},{\"datatype\":{\"type\":\"int8\"}},{\"instance\":300}]", std::string("\0\0\0\0", 4), std::string(3000, '[')})); what = "not a value"; break;
    case 5: target = dir + "/adir"; what = "a directory"; writable = false; break;
    case 6: target = dir + "/nowhere/f.json"; what = "directory missing"; writable = false; break;
    case 7: what = "disk full"; readable = true; writable = false; break;
    default: target = dir + "/link.json"; unlink(target.c_str()); if (symlink(r.chance(1, 2) ? "f.json" : "gone/f.json", target.c_str())) {} what = "link"; readable = ReadFile(target) == text; writable = readable;
    }
    {
      Ws w(dir + "/p.xml", {{"x", target}, {"y", "y.json"}}, r);
      auto y = RandomValue(r);
      HX_CHECK(w.ws->SetValue("y", y), "fault:other", "another file could not be written");
      w.notes.clear();
      {
        AnyValue got{sup::dto::StringType, "untouched"};
        bool ok = w.ws->GetValue("x", got);
        AnyValue fresh;
        bool ok2 = w.ws->GetValue("x", fresh);
        if (!any)
        {
          HX_CHECK(ok2 == readable && (!ok2 || fresh == v), "fault:read", what << ": reading " << (ok2 ? "succeeds" : "fails"));
          if (!readable) HX_CHECK(!ok && got == (AnyValue{sup::dto::StringType, "untouched"}), "fault:output", what << ": a failed read changed its output");
          HX_CHECK(w.ws->GetVariable("x")->IsAvailable() == readable, "fault:available", what << ": availability is wrong");
          if (!readable) HX_CHECK(!w.ws->SetValue("x.a", AnyValue{true}), "fault:field", what << ": a field could be written");
        }
        Count(ok2 ? "damaged files read" : "damaged files refused");
        HX_CHECK(w.notes.empty() , "fault:notify", what << ": reading was announced");
      }
      w.notes.clear();
      auto z = RandomValue(r);
      bool ok = false;
      {
        FullDisk full(what == "disk full");
        ok = w.ws->SetValue("x", z);
      }
      HX_CHECK(ok == writable, "fault:rewrite", what << ": writing " << (ok ? "succeeds" : "fails"));
      HX_CHECK(w.notes.size() == (writable ? 1u : 0u), "fault:announce", what << ": " << w.notes.size() << " notifications of a write that " << (ok ? "succeeds" : "fails"));
      if (writable)
      {
        AnyValue back;
        HX_CHECK(w.ws->GetValue("x", back) && back == z, "fault:repaired", what << ": a new write does not repair the file");
      }
      if (what == "disk full") HX_CHECK(w.ws->SetValue("x", z), "fault:space", "writing fails although there is space again");
      AnyValue back;
      HX_CHECK(w.OtherIntact() && w.ws->GetValue("y", back) && back == y, "fault:others", what << ": other variables were changed");
      Count("faults: " + what);
    }
    Eval();
    Distinct(what + Json(v));
    Beat();
  }
}

// one variable, several threads: every read gives a value that was written
void Threads()
{
  Section s("threads");
  if (!s.run) return;
  Rng r(Opt().seed * 23 + 4);
  PerturbOn(Opt().seed, 16, 100);
  for (long k = Scale(40, 12, 4); k > 0 && !TooMany(); --k)
  {
    auto f = Opt().scratch + "/shared.json";
    unlink(f.c_str());
    Ws w(Opt().scratch + "/p.xml", {{"x", f}}, r);
    sup::dto::AnyValue init = {{{"id", {sup::dto::UnsignedInteger32Type, 0u}}, {"twice", {sup::dto::UnsignedInteger32Type, 0u}}, {"pad", std::string(200, 'p')}}};
    HX_CHECK(w.ws->SetValue("x", init), "threads:init", "writing was refused");
    std::atomic<long> bad{0};
    std::atomic<long> failed{0};
    std::atomic<long> writes{0};
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < 4; ++t)
    {
      ts.emplace_back([&, t] {
        for (unsigned i = 0; i < 30; ++i)
        {
          MaybeDelay();
          if (t < 2)
          {
            AnyValue v = init;
            unsigned id = t * 1000 + i;
            v["id"] = id;
            v["twice"] = 2 * id;
            if (!w.ws->SetValue("x", v)) ++failed;
            ++writes;
          }
          else
          {
            AnyValue v;
            if (!w.ws->GetValue("x", v)) ++failed;
            else if (v["twice"].As<unsigned>() != 2 * v["id"].As<unsigned>()) ++bad;
            if (!w.ws->GetVariable("x")->IsAvailable()) ++failed;
          }
        }
      });
    }
    for (auto& t : ts) t.join();
    HX_CHECK(bad == 0, "threads:torn", bad << " reads mixed two written values");
    HX_CHECK(failed == 0, "threads:failed", failed << " reads or writes failed");
    HX_CHECK(w.notes.size() == static_cast<size_t>(writes) + 3, "threads:notify", w.notes.size() << " notifications of " << writes << " writes");
    Eval();
    Distinct("round " + std::to_string(k));
    Count("concurrent writes", writes);
    Beat();
  }
  PerturbOff();
}

// through a procedure: written by one, read by another one
void Procedures()
{
  Section s("procedures");
  if (!s.run) return;
  Rng r(Opt().seed * 29 + 4);
  auto esc = [](const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"') o += "&quot;"; else if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c < 32) o += "&#" + std::to_string(c) + ";"; else o += static_cast<char>(c); } return o; };
  for (long k = Scale(400, 12, 5); k > 0 && !TooMany(); --k)
  {
    auto dir = Opt().scratch + "/proc" + std::to_string(k % 20);
    mkdir(dir.c_str(), 0777);
    unlink((dir + "/v.json").c_str());
    auto v = RandomValue(r);
    auto type = sup::dto::AnyTypeToJSONString(v.GetType());
    auto json = sup::dto::ValuesToJSONString(v);
    bool printable = true;
    for (unsigned char c : json + type) if (c < 32) printable = false;
    if (!printable) continue;
    auto head = std::string("<Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p\">");
    WriteFile(dir + "/w.xml", head + "<Copy inputVar=\"v\" outputVar=\"f\"/><Workspace><Local name=\"v\" type=\"" + esc(type) + "\" value=\"" + esc(json) + "\"/><File name=\"f\" file=\"v.json\"" + (r.chance(1, 2) ? " pretty=\"true\"" : "") + "/></Workspace></Procedure>");
    WriteFile(dir + "/r.xml", head + "<Sequence><Copy inputVar=\"f\" outputVar=\"v\"/><Equals leftVar=\"f\" rightVar=\"v\"/></Sequence><Workspace><Local name=\"v\" type=\"" + esc(type) + "\"/><File name=\"f\" file=\"v.json\"/></Workspace></Procedure>");
    auto run = [&](const std::string& f, AnyValue& out) {
      DefaultUserInterface ui;
      auto p = ParseProcedureFile(dir + f);
      p->Setup();
      for (int i = 0; i < 20 && NeedsExecute(p->GetStatus()); ++i) p->ExecuteSingle(ui);
      auto st = p->GetStatus();
      p->GetWorkspace().GetValue("v", out);
      p->Reset(ui);
      return st;
    };
    AnyValue a;
    AnyValue b;
    auto s0 = run("/r.xml", b);
    HX_CHECK(s0 == ExecutionStatus::FAILURE, "procedures:missing", "reading a missing file does not fail");
    auto s1 = run("/w.xml", a);
    auto s2 = run("/r.xml", b);
    HX_CHECK(a == v, "procedures:harness", "initial value " << Full(a) << " instead of " << Full(v));
    HX_CHECK(s1 == ExecutionStatus::SUCCESS && b == a, "procedures:value", "a value written by one procedure is read as " << Full(b) << " instead of " << Full(a) << ", statuses " << static_cast<int>(s1) << " " << static_cast<int>(s2));
    Count("values passed from one procedure to another");
    Eval();
    Distinct(json);
    Beat();
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("histories of writes and reads of file variables, file faults, concurrent rounds; distinct by history or value");
    Histories();
    Faults();
    Threads();
    Procedures();
  })

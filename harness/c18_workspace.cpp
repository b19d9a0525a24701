// Workspace histories against a model of typed values.
#include "full.h"

using namespace fx;
using namespace hx;
using sup::dto::AnyType;
using sup::dto::AnyValue;

namespace
{
AnyType RandomType(Rng& r, int depth = 0)
{
  static const std::vector<AnyType> scalars{
    sup::dto::BooleanType, sup::dto::Character8Type, sup::dto::SignedInteger8Type, sup::dto::UnsignedInteger8Type, sup::dto::SignedInteger16Type, sup::dto::UnsignedInteger16Type,
    sup::dto::SignedInteger32Type, sup::dto::UnsignedInteger32Type, sup::dto::SignedInteger64Type, sup::dto::UnsignedInteger64Type, sup::dto::Float32Type, sup::dto::Float64Type, sup::dto::StringType};
  if (depth > 2 || r.chance(2, 3)) return r.pick(scalars);
  if (r.chance(1, 3)) return AnyType(r.below(4), r.chance(1, 2) ? r.pick(scalars) : RandomType(r, depth + 1), "");
  std::vector<std::pair<std::string, AnyType>> m;
  int n = r.range(1, 3);
  for (int k = 0; k < n; ++k) m.emplace_back(std::string(1, static_cast<char>('a' + k)), RandomType(r, depth + 1));
  AnyType t = sup::dto::EmptyStructType();
  for (auto& [k, x] : m) t.AddMember(k, x);
  return t;
}
void Fill(Rng& r, AnyValue& v)
{
  if (sup::dto::IsStructValue(v))
  {
    for (auto& m : v.MemberNames()) Fill(r, v[m]);
    return;
  }
  if (sup::dto::IsArrayValue(v))
  {
    for (size_t k = 0; k < v.NumberOfElements(); ++k) Fill(r, v[k]);
    return;
  }
  if (v.GetType() == sup::dto::StringType) v.ConvertFrom(AnyValue{sup::dto::StringType, "s" + std::to_string(r.below(100))});
  else if (v.GetType() == sup::dto::BooleanType) v.ConvertFrom(AnyValue{r.chance(1, 2)});
  else if (sup::dto::IsScalarValue(v)) v.ConvertFrom(AnyValue{sup::dto::SignedInteger8Type, static_cast<sup::dto::int8>(r.below(100))});
}
AnyValue RandomValue(Rng& r)
{
  AnyValue v{RandomType(r)};
  Fill(r, v);
  return v;
}
// every path to a field of v
void Paths(const AnyValue& v, const std::string& at, std::vector<std::string>& out)
{
  out.push_back(at);
  if (sup::dto::IsStructValue(v))
    for (auto& m : v.MemberNames()) Paths(v[m], at.empty() ? m : at + "." + m, out);
  if (sup::dto::IsArrayValue(v))
    for (size_t k = 0; k < v.NumberOfElements(); ++k) Paths(v[k], at + "[" + std::to_string(k) + "]", out);
}

struct MVar
{
  std::string name;
  bool dynamic = false;
  AnyValue initial, value;
  std::vector<std::string> fields{""};
};

struct Note
{
  std::string name, value;
  bool avail;
  bool operator==(const Note& o) const { return name == o.name && value == o.value && avail == o.avail; }
};
std::string Text(const std::vector<Note>& n)
{
  std::string s;
  for (auto& x : n) s += " " + x.name + "=" + x.value + (x.avail ? "+" : "-");
  return s;
}

void Histories()
{
  Section s("histories");
  if (!s.run) return;
  Rng r(Opt().seed * 17 + 1);
  long n = Scale(1500, 12, 4);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    Workspace ws;
    std::vector<MVar> vars;
    std::string log;
    int nv = r.range(1, 6);
    for (int i = 0; i < nv; ++i)
    {
      MVar m;
      m.name = r.chance(1, 8) ? "variable number " + std::to_string(i) : std::string(1, static_cast<char>('p' + i));
      auto var = GlobalVariableRegistry().Create("Local");
      if (r.chance(5, 6))
      {
        m.initial = RandomValue(r);
        if (!var->AddAttribute("type", sup::dto::AnyTypeToJSONString(m.initial.GetType()))) Violation("ws:attr", "type refused");
        if (r.chance(4, 5)) var->AddAttribute("value", sup::dto::ValuesToJSONString(m.initial));
        else m.initial = AnyValue{m.initial.GetType()};
        Paths(m.initial, "", m.fields);
      }
      if (r.chance(1, 4))
      {
        m.dynamic = true;
        var->AddAttribute("dynamicType", "true");
      }
      ws.AddVariable(m.name, std::move(var));
      log += "var " + m.name + (m.dynamic ? " dynamic " : " ") + Json(m.initial) + "\n";
      vars.push_back(m);
    }
    // the order of declaration is kept
    std::vector<std::string> order;
    for (auto& v : vars) order.push_back(v.name);
    HX_CHECK(ws.VariableNames() == order, "ws:names", log);
    bool setup = false;
    std::vector<Note> got;
    std::map<std::string, std::vector<Note>> got_named;
    int me = 0, other = 0;
    ScopeGuard other_guard = ws.GetCallbackGuard(&other);
    std::unique_ptr<ScopeGuard> mine(new ScopeGuard(ws.GetCallbackGuard(&me)));
    bool listening = true;
    auto listen = [&](void* who, std::vector<Note>& all, std::map<std::string, std::vector<Note>>* named)
    {
      bool ok = ws.RegisterGenericCallback([&all](const std::string& nm, const AnyValue& v, bool c) { all.push_back({nm, Json(v), c}); }, who);
      if (named)
        for (auto& v : vars) ok = ws.RegisterCallback(v.name, [named, nm = v.name](const AnyValue& x, bool c) { (*named)[nm].push_back({nm, Json(x), c}); }, who) && ok;
      HX_CHECK(ok, "ws:register", "registration of a callback failed\n" << log);
    };
    std::vector<Note> mine_all;
    listen(&other, got, &got_named);
    listen(&me, mine_all, nullptr);
    // with a setup, notifications come per variable in an order that is not specified
    auto sorted = [](std::vector<Note> a)
    {
      std::sort(a.begin(), a.end(), [](const Note& x, const Note& y) { return x.name < y.name; });
      return a;
    };
    auto expect = [&](std::vector<Note> want, const std::string& what)
    {
      HX_CHECK(sorted(got) == sorted(want), "ws:notified", what << " notified [" << Text(got) << " ] instead of [" << Text(want) << " ]\n" << log);
      std::map<std::string, std::vector<Note>> named;
      for (auto& w : want) named[w.name].push_back(w);
      HX_CHECK(named == got_named, "ws:notified-named", what << " notified the callbacks of single variables differently\n" << log);
      HX_CHECK(listening ? sorted(mine_all) == sorted(want) : mine_all.empty(), listening ? "ws:notified-second" : "ws:unregistered", what << "\n" << log);
      Count("notifications compared", static_cast<long>(want.size()));
      got.clear();
      got_named.clear();
      mine_all.clear();
    };
    auto compare = [&](const std::string& what)
    {
      for (auto& v : vars)
      {
        AnyValue x;
        bool ok = ws.GetValue(v.name, x);
        bool want = setup && !sup::dto::IsEmptyValue(v.value);
        if (!HX_CHECK(ok == want && (!ok || Json(x) == Json(v.value)), "ws:state", what << ": variable " << v.name << " reads " << (ok ? Json(x) : "nothing") << " instead of " << (want ? Json(v.value) : "nothing") << "\n" << log))
          v.value = x;
        HX_CHECK(ws.GetVariable(v.name)->IsAvailable() == setup, "ws:available", what << "\n" << log);
      }
    };
    auto do_setup = [&]
    {
      std::vector<Note> want;
      if (!setup)
        for (auto& v : vars)
        {
          v.value = v.initial;
          want.push_back({v.name, Json(v.value), true});
        }
      ws.Setup();
      setup = true;
      expect(want, "setup");
      HX_CHECK(ws.IsSuccessfullySetup(), "ws:is-setup", log);
    };
    if (r.chance(9, 10)) do_setup();
    int ops = r.range(5, 60);
    for (int o = 0; o < ops && !TooMany(); ++o)
    {
      auto& v = vars[r.below(vars.size())];
      switch (r.below(14))
      {
      case 0:
        log += "teardown\n";
        ws.Teardown();
        setup = false;
        expect({}, "teardown");
        break;
      case 1: case 2:
        log += "setup\n";
        do_setup();
        break;
      case 3:
        log += "reset " + v.name + "\n";
        if (setup)
        {
          HX_CHECK(ws.ResetVariable(v.name), "ws:reset", log);
          v.value = v.initial;
          expect({{v.name, Json(v.value), true}}, "reset of " + v.name);
        }
        HX_CHECK(!ws.ResetVariable("no such variable"), "ws:reset-unknown", log);
        break;
      case 4:
      {
        log += "duplicate\n";
        bool threw = false;
        try
        {
          ws.AddVariable(v.name, GlobalVariableRegistry().Create("Local"));
        }
        catch (const InvalidOperationException&)
        {
          threw = true;
        }
        HX_CHECK(threw && ws.VariableNames() == order, "ws:duplicate", log);
        break;
      }
      case 5:
        if (listening) mine.reset();
        else
        {
          mine.reset(new ScopeGuard(ws.GetCallbackGuard(&me)));
          listen(&me, mine_all, nullptr);
        }
        listening = !listening;
        log += listening ? "listen\n" : "stop listening\n";
        break;
      case 6: case 7:
      {
        // read of a field into an empty or a typed value
        std::vector<std::string> fields;
        Paths(v.value, "", fields);
        auto f = r.chance(1, 5) ? std::string(r.chance(1, 2) ? "zz" : "a.zz[1]") : r.pick(fields);
        auto full = f.empty() ? v.name : f[0] == '[' ? v.name + f : v.name + "." + f;
        AnyValue want, x;
        if (r.chance(1, 2))
        {
          x = RandomValue(r);
          want = x;
        }
        auto before = Json(x);
        bool can = setup && !sup::dto::IsEmptyValue(v.value) && (f.empty() || v.value.HasField(f));
        bool ok = can && sup::dto::TryAssignIfEmptyOrConvert(want, f.empty() ? v.value : v.value[f]);
        log += "read " + full + "\n";
        bool res = ws.GetValue(full, x);
        HX_CHECK(res == ok && Json(x) == (ok ? Json(want) : before), "ws:read", "read of " << full << (res ? " gave " : " failed with ") << Json(x) << ", expected " << (ok ? Json(want) : before) << "\n" << log);
        Count(ok ? "reads" : "refused reads");
        expect({}, "a read");
        break;
      }
      default:
      {
        std::vector<std::string> fields;
        Paths(v.value, "", fields);
        auto f = r.chance(1, 10) ? std::string(r.chance(1, 2) ? "zz" : "[9]") : r.chance(1, 2) ? std::string() : r.pick(fields);
        auto full = f.empty() ? v.name : f[0] == '[' ? v.name + f : v.name + "." + f;
        AnyValue x = RandomValue(r);
        if (r.chance(1, 2) && !sup::dto::IsEmptyValue(v.value) && (f.empty() || v.value.HasField(f)))
        {
          // a value of the very type
          x = AnyValue{(f.empty() ? v.value : v.value[f]).GetType()};
          Fill(r, x);
        }
        if (r.chance(1, 30)) x = AnyValue{};
        log += "write " + full + " " + Json(x) + "\n";
        bool ok = setup;
        AnyValue nv_ = v.value;
        if (f.empty()) ok = ok && (v.dynamic ? sup::dto::TryAssign(nv_, x) : sup::dto::TryAssignIfEmptyOrConvert(nv_, x));
        else
        {
          ok = ok && !sup::dto::IsEmptyValue(v.value) && v.value.HasField(f) && sup::dto::TryAssign(nv_[f], x);
          // the whole with the changed field has to fit as well
          AnyValue w = v.value;
          ok = ok && (v.dynamic ? sup::dto::TryAssign(w, nv_) : sup::dto::TryAssignIfEmptyOrConvert(w, nv_));
          if (ok) nv_ = w;
        }
        bool res = ws.SetValue(full, x);
        HX_CHECK(res == ok, "ws:write", "write to " << full << (res ? " succeeded" : " failed") << "\n" << log);
        if (ok) v.value = nv_;
        if (ok) expect({{v.name, Json(v.value), true}}, "write to " + full);
        else expect({}, "refused write to " + full);
        Count(ok ? "writes" : "refused writes");
      }
      }
      compare("after " + log.substr(log.rfind('\n', log.size() - 2) + 1));
      HX_CHECK(!ws.GetValue("nothing", *std::make_unique<AnyValue>()) && !ws.SetValue("nothing.a", AnyValue{1}) && !ws.HasVariable("nothing") && !ws.GetVariable("nothing"), "ws:unknown", log);
      Eval();
    }
    for (auto& v : vars) HX_CHECK(ws.HasVariable(v.name) && ws.GetVariable(v.name), "ws:has", log);
    Distinct(log);
    if (k % 100 == 0) Sample(log);
    Beat();
  }
}

void Names()
{
  Section s("names");
  if (!s.run) return;
  // every text of length up to 5 over a small alphabet
  const std::string alpha = "a.[]0";
  std::vector<std::string> all{""};
  for (size_t at = 0; at < all.size(); ++at)
    if (all[at].size() < 5)
      for (char c : alpha) all.push_back(all[at] + c);
  for (auto& t : all)
  {
    size_t p = t.find_first_of(".[");
    std::pair<std::string, std::string> want{t.substr(0, p), p == std::string::npos ? "" : t[p] == '.' ? t.substr(p + 1) : t.substr(p)};
    HX_CHECK(SplitFieldName(t) == want, "ws:split", Quote(t));
    // and whatever the name, the workspace answers without harm
    Workspace ws;
    auto var = GlobalVariableRegistry().Create("Local");
    var->AddAttribute("type", "{\"type\":\"r\",\"attributes\":[{\"a\":{\"type\":\"\",\"element\":{\"type\":\"int32\"}}}]}");
    var->AddAttribute("value", "{\"a\":[4,5]}");
    ws.AddVariable("a", std::move(var));
    ws.Setup();
    AnyValue x;
    bool ok = ws.GetValue(t, x);
    bool want_ok = t == "a" || t == "a.a" || t == "a.a[0]";
    if (want_ok) HX_CHECK(ok, "ws:path", Quote(t));
    if (!ok) HX_CHECK(!ws.SetValue(t, AnyValue{1}), "ws:path-write", Quote(t));
    Eval();
    Distinct("name " + t);
  }
  Exhaustive("all variable and field names up to length 5 over {a . [ ] 0}");
}
void Types()
{
  Section s("types");
  if (!s.run) return;
  Rng r(Opt().seed + 5);
  for (int k = 0; k < 300; ++k)
  {
    Workspace ws;
    AnyType a = sup::dto::EmptyStructType("t1");
    a.AddMember("m", sup::dto::SignedInteger32Type);
    AnyType b = sup::dto::EmptyStructType("t1");
    b.AddMember("m", r.chance(1, 2) ? sup::dto::SignedInteger32Type : sup::dto::Float32Type);
    HX_CHECK(ws.RegisterType(a), "ws:type", "first registration refused");
    HX_CHECK(ws.RegisterType(b) == (a == b), "ws:type-again", "registration of another type under a known name");
    HX_CHECK(ws.GetTypeRegistry().HasType("t1") && ws.GetTypeRegistry().GetType("t1") == a, "ws:type-kept", "the registered type changed");
    auto var = GlobalVariableRegistry().Create("Local");
    var->AddAttribute("type", "{\"type\":\"t1\"}");
    var->AddAttribute("value", "{\"m\":7}");
    ws.AddVariable("v", std::move(var));
    ws.Setup();
    AnyValue x;
    HX_CHECK(ws.GetValue("v.m", x) && x.As<sup::dto::int32>() == 7, "ws:type-used", "a variable of the registered type");
    Eval();
  }
}
// set-up and teardown: shared actions once each, every variable torn down and set up again by a reset
struct ActCfg { std::string id; bool setup, teardown; };
std::map<std::string, ActCfg> g_cfg;
std::vector<std::string> g_acts;
class ActVar : public Variable
{
public:
  explicit ActVar(std::string n) : Variable("ActVar"), m_n{std::move(n)} {}
private:
  std::string m_n;
  bool GetValueImpl(AnyValue&) const override { return false; }
  bool SetValueImpl(const AnyValue&) override { return false; }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    g_acts.push_back("setup " + m_n);
    auto& c = g_cfg[m_n];
    SetupTeardownActions a;
    a.m_identifier = c.id;
    auto n = m_n;
    if (c.setup) a.m_setup = [n, c] { g_acts.push_back("S " + c.id); };
    if (c.teardown) a.m_teardown = [n, c] { g_acts.push_back("T " + c.id); };
    return a;
  }
  void TeardownImpl() override { g_acts.push_back("teardown " + m_n); }
};
void Actions()
{
  Section s("actions");
  if (!s.run) return;
  Rng r(Opt().seed + 9);
  for (long k = 0; k < 800; ++k)
  {
    g_cfg.clear();
    g_acts.clear();
    auto wsp = std::make_unique<Workspace>();
    Workspace& ws = *wsp;
    bool left_up = false;
    int n = r.range(1, 6);
    std::string text;
    std::map<std::string, std::pair<bool, bool>> want;
    for (int i = 0; i < n; ++i)
    {
      std::string name(1, static_cast<char>('a' + i));
      ActCfg c{r.chance(1, 4) ? "" : std::string(1, static_cast<char>('x' + r.below(3))), r.chance(2, 3), r.chance(2, 3)};
      g_cfg[name] = c;
      text += " " + name + ":" + c.id + (c.setup ? "s" : "") + (c.teardown ? "t" : "");
      if (!c.id.empty()) { want[c.id].first |= c.setup; want[c.id].second |= c.teardown; }
      ws.AddVariable(name, std::make_unique<ActVar>(name));
    }
    Case("actions" + text);
    auto count = [](const std::string& x) { return std::count(g_acts.begin(), g_acts.end(), x); };
    int rounds = r.range(1, 3);
    for (int round = 0; round < rounds; ++round)
    {
      g_acts.clear();
      ws.Setup();
      if (r.chance(1, 2)) ws.Setup();   // does nothing
      for (auto& [name, c] : g_cfg) HX_CHECK(count("setup " + name) == 1, "ws:setup-once", name << " set up " << count("setup " + name) << " times:" << text);
      for (auto& [id, w] : want) HX_CHECK(count("S " + id) == (w.first ? 1 : 0), "ws:action-setup", id << " ran " << count("S " + id) << " times:" << text);
      size_t last_var = 0, first_act = g_acts.size();
      for (size_t i = 0; i < g_acts.size(); ++i)
        if (g_acts[i][0] == 'S') first_act = std::min(first_act, i);
        else last_var = i;
      HX_CHECK(first_act > last_var, "ws:action-order", "a shared action ran before all variables were set up:" << text);
      if (r.chance(1, 2))
      {
        auto name = std::string(1, static_cast<char>('a' + r.below(static_cast<unsigned>(n))));
        g_acts.clear();
        HX_CHECK(ws.ResetVariable(name), "ws:reset", name);
        HX_CHECK((g_acts == std::vector<std::string>{"teardown " + name, "setup " + name}), "ws:reset-again", "resetting " << name << " took " << g_acts.size() << " steps");
        HX_CHECK(!ws.ResetVariable("nobody"), "ws:reset-unknown", "");
      }
      g_acts.clear();
      if (round + 1 == rounds && r.chance(1, 3)) { left_up = true; break; }
      ws.Teardown();
      for (auto& [name, c] : g_cfg) HX_CHECK(count("teardown " + name) == 1, "ws:teardown-once", name << text);
      for (auto& [id, w] : want) HX_CHECK(count("T " + id) == (w.second ? 1 : 0), "ws:action-teardown", id << " ran " << count("T " + id) << " times:" << text);
      Count("set-ups with shared actions");
    }
    // destroying the workspace undoes what is still set up, and only that
    g_acts.clear();
    wsp.reset();
    for (auto& [id, w] : want) HX_CHECK(count("T " + id) == (left_up && w.second ? 1 : 0), "ws:action-destroy", id << " ran " << count("T " + id) << " times on destruction:" << text);
    Eval();
    Distinct("actions" + text);
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("one history of operations on one workspace; distinct by the operations and values");
    RegisterFixtures();
    Names();
    Types();
    Actions();
    Histories();
  })

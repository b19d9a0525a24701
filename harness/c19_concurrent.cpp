// Concurrent use of one workspace: recorded histories judged offline.
#include "full.h"

#include <limits>

#include <climits>

using namespace fx;
using namespace hx;
using sup::dto::AnyValue;

namespace
{
const char* const kType = "{\"type\":\"rec\",\"attributes\":[{\"a\":{\"type\":\"int64\"}},{\"b\":{\"type\":\"int64\"}},{\"s\":{\"type\":\"string\"}},{\"c\":{\"type\":\"\",\"element\":{\"type\":\"int64\"}}}]}";
const char* const kZero = "{\"a\":0,\"b\":0,\"s\":\"0\",\"c\":[0,0]}";

std::unique_ptr<Variable> Local(const std::string& type, const std::string& value, bool dynamic = false)
{
  auto v = GlobalVariableRegistry().Create("Local");
  v->AddAttribute("type", type);
  v->AddAttribute("value", value);
  if (dynamic) v->AddAttribute("dynamicType", "true");
  return v;
}
std::unique_ptr<Variable> Hx(const std::string& type, const std::string& value, bool avail)
{
  auto v = GlobalVariableRegistry().Create("HxVar");
  v->AddAttribute("type", type);
  v->AddAttribute("value", value);
  if (!avail) v->AddAttribute("avail", "0");
  return v;
}
// the number in a record when all its fields agree
bool Whole(const AnyValue& v, long& n)
{
  n = v["a"].As<sup::dto::int64>();
  return v["b"].As<sup::dto::int64>() == n && v["s"].As<std::string>() == std::to_string(n) && v["c[0]"].As<sup::dto::int64>() == n && v["c[1]"].As<sup::dto::int64>() == n;
}
void SetAll(AnyValue& v, long n)
{
  v["a"] = static_cast<sup::dto::int64>(n);
  v["b"] = static_cast<sup::dto::int64>(n);
  v["s"] = std::to_string(n);
  v["c[0]"] = static_cast<sup::dto::int64>(n);
  v["c[1]"] = static_cast<sup::dto::int64>(n);
}

struct Op
{
  bool write;
  long value;
  long inv, ret;
};
std::atomic<long> g_clock{1};

// Register with unique writes: clusters of operations on one value must have compatible zones.
std::string Linearizable(const std::vector<Op>& ops)
{
  struct Zone
  {
    long lo = LONG_MAX;   // earliest return
    long hi = 0;          // latest invocation
    long w_inv = -1;
  };
  std::map<long, Zone> z;
  z[0] = {0, 0, 0};
  for (auto& o : ops)
  {
    auto& c = z[o.value];
    c.lo = std::min(c.lo, o.ret);
    c.hi = std::max(c.hi, o.inv);
    if (o.write) c.w_inv = o.inv;
  }
  for (auto& o : ops)
    if (!o.write)
    {
      auto& c = z[o.value];
      if (c.w_inv < 0) return "value " + std::to_string(o.value) + " was read but never written";
      if (o.ret < c.w_inv) return "value " + std::to_string(o.value) + " was read before it was written";
    }
  std::vector<std::pair<long, Zone>> fwd, bwd;
  for (auto& [v, c] : z) (c.lo < c.hi ? fwd : bwd).emplace_back(v, c);
  std::sort(fwd.begin(), fwd.end(), [](auto& x, auto& y) { return x.second.lo < y.second.lo; });
  for (size_t k = 1; k < fwd.size(); ++k)
    if (fwd[k].second.lo < fwd[k - 1].second.hi)
      return "values " + std::to_string(fwd[k - 1].first) + " and " + std::to_string(fwd[k].first) + " were read in an order no sequence of writes allows";
  for (auto& [v, b] : bwd)
  {
    // contained in a forward zone
    auto it = std::upper_bound(fwd.begin(), fwd.end(), b.hi, [](long x, auto& f) { return x < f.second.lo; });
    if (it == fwd.begin()) continue;
    auto& f = std::prev(it)->second;
    if (f.lo < b.hi && b.lo < f.hi) return "the write of " + std::to_string(v) + " lies between reads of " + std::to_string(std::prev(it)->first) + " without effect";
  }
  return "";
}

void Registers()
{
  Section s("registers");
  if (!s.run) return;
  Rng r(Opt().seed * 19 + 1);
  long n = Scale(260, 14, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    Workspace ws;
    int kind = static_cast<int>(r.below(3));
    if (kind == 2) ws.AddVariable("v", Hx(kType, kZero, true));
    else ws.AddVariable("v", Local(kType, kZero, kind == 1));
    ws.AddVariable("w", Local(kType, kZero));
    ws.GetVariable("v");
    ws.Setup();
    AnyValue proto;
    ws.GetValue("w", proto);
    std::mutex cm;
    std::vector<long> order;   // writes as notified
    std::atomic<long> torn{0};
    int me;
    auto guard = ws.GetCallbackGuard(&me);
    ws.RegisterCallback(
      "v",
      [&](const AnyValue& v, bool)
      {
        long x = 0;
        if (!Whole(v, x)) ++torn;
        std::lock_guard<std::mutex> lk(cm);
        order.push_back(x);
      },
      &me);
    int writers = r.range(1, 3), readers = r.range(1, 3), per = r.range(5, 60);
    std::vector<std::vector<Op>> hist(static_cast<size_t>(writers + readers));
    bool perturb = r.chance(2, 3);
    if (perturb) PerturbOn(r.next(), 8, 40);
    Case("register kind " + std::to_string(kind) + " writers " + std::to_string(writers) + " readers " + std::to_string(readers));
    std::atomic<bool> go{false};
    std::vector<std::thread> th;
    for (int t = 0; t < writers + readers; ++t)
      th.emplace_back([&, t, seed = r.next()] {
        Rng q(seed);
        auto& h = hist[static_cast<size_t>(t)];
        AnyValue mine = proto;
        while (!go) std::this_thread::yield();
        for (int x = 0; x < per; ++x)
        {
          Op o{t < writers, 0, 0, 0};
          if (o.write)
          {
            o.value = 1 + t + 10L * (x + 1);
            SetAll(mine, o.value);
            o.inv = g_clock++;
            bool ok = ws.SetValue("v", mine);
            o.ret = g_clock++;
            if (!ok) Violation("ws:concurrent-write", "a write was refused");
          }
          else
          {
            AnyValue v;
            int what = static_cast<int>(q.below(5));
            o.inv = g_clock++;
            bool ok = ws.GetValue(what == 0 ? "v.a" : what == 1 ? "v.c[1]" : "v", v);
            o.ret = g_clock++;
            if (!ok)
            {
              Violation("ws:concurrent-read", "a read failed");
              continue;
            }
            if (what < 2) o.value = v.As<sup::dto::int64>();
            else if (!Whole(v, o.value)) ++torn;
          }
          h.push_back(o);
          if (q.chance(1, 4)) MaybeDelay();
        }
      });
    go = true;
    for (auto& t : th) t.join();
    if (perturb)
    {
      DistinctHash(InterleavingHash());
      PerturbOff();
    }
    HX_CHECK(torn == 0, "ws:torn", torn << " values whose fields do not belong together were read or notified");
    std::vector<Op> all;
    for (auto& h : hist) all.insert(all.end(), h.begin(), h.end());
    auto why = Linearizable(all);
    HX_CHECK(why.empty(), "ws:linearizable", why << " (" << writers << " writers, " << readers << " readers)");
    // the notifications are the writes, each once, in an order that respects real time
    std::map<long, size_t> pos;
    for (size_t i = 0; i < order.size(); ++i) pos[order[i]] = i;
    long nw = 0;
    std::vector<Op> ws_ops;
    for (auto& o : all)
      if (o.write)
      {
        ++nw;
        ws_ops.push_back(o);
        HX_CHECK(pos.count(o.value), "ws:notify-lost", "the write of " << o.value << " was not notified");
      }
    HX_CHECK(static_cast<long>(order.size()) == nw, "ws:notify-count", order.size() << " notifications of " << nw << " writes");
    long worst = -1;
    std::sort(ws_ops.begin(), ws_ops.end(), [&](auto& x, auto& y) { return pos[x.value] > pos[y.value]; });
    long min_ret = LONG_MAX;
    for (auto& o : ws_ops)   // from the last notified to the first
    {
      if (min_ret < o.inv) worst = o.value;
      min_ret = std::min(min_ret, o.ret);
    }
    HX_CHECK(worst < 0, "ws:notify-order", "the write of " << worst << " was notified before one that had ended when it began");
    // the last notified is what remains
    AnyValue last;
    long lv = 0;
    ws.GetValue("v", last);
    if (kind != 2 && !order.empty()) HX_CHECK(Whole(last, lv) && lv == order.back(), "ws:notify-last", "the last notification told " << order.back() << " but the variable holds " << lv);
    Count("operations in recorded histories", static_cast<long>(all.size()));
    std::string sig;
    for (auto& o : order) sig += std::to_string(o) + ",";
    Distinct(sig);
    Eval(static_cast<long>(all.size()));
    Beat();
  }
}

// different fields of one variable, each owned by a thread: no update is lost
void Fields()
{
  Section s("fields");
  if (!s.run) return;
  Rng r(Opt().seed * 23 + 1);
  long n = Scale(200, 14, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    Workspace ws;
    bool hxv = r.chance(1, 4);
    const char* t = "{\"type\":\"q\",\"attributes\":[{\"a\":{\"type\":\"int64\"}},{\"b\":{\"type\":\"int64\"}},{\"c\":{\"type\":\"\",\"element\":{\"type\":\"int64\"}}}]}";
    (void)hxv;
    ws.AddVariable("v", Local(t, "{\"a\":0,\"b\":0,\"c\":[0,0]}", r.chance(1, 2)));
    ws.Setup();
    static const std::vector<std::string> f{"v.a", "v.b", "v.c[0]", "v.c[1]"};
    bool perturb = r.chance(2, 3);
    if (perturb) PerturbOn(r.next(), 6, 40);
    int per = r.range(10, 80);
    std::vector<std::thread> th;
    std::atomic<bool> go{false};
    for (size_t i = 0; i < f.size(); ++i)
      th.emplace_back([&, i] {
        while (!go) std::this_thread::yield();
        for (int x = 1; x <= per; ++x)
        {
          bool ok = ws.SetValue(f[i], AnyValue{sup::dto::SignedInteger64Type, static_cast<sup::dto::int64>(x)});
          AnyValue v;
          ok = ws.GetValue(f[i], v) && ok;
          if (!ok || v.As<sup::dto::int64>() != x)
          {
            Violation("ws:lost-update", "field " + f[i] + " was set to " + std::to_string(x) + " by the only thread writing it but reads " + Json(v));
            return;
          }
        }
      });
    go = true;
    for (auto& x : th) x.join();
    if (perturb)
    {
      DistinctHash(InterleavingHash());
      PerturbOff();
    }
    Count("concurrent field updates", per * 4L);
    Eval(per * 4L);
    Beat();
  }
}

// waiting threads wake up when the condition becomes true
void Waiters()
{
  Section s("waiters");
  if (!s.run) return;
  Rng r(Opt().seed * 29 + 1);
  long n = Scale(900, 14, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    Workspace ws;
    bool start = r.chance(1, 2);
    auto name = "wv" + std::to_string(k % 7);
    auto var = Hx("{\"type\":\"int64\"}", "1", start);
    var->SetName(name);
    ws.AddVariable(name, std::move(var));
    ws.Setup();
    int waiters = r.range(1, 4);
    std::atomic<int> done{0}, wrong{0};
    std::atomic<bool> go{false};
    bool perturb = r.chance(2, 3);
    if (perturb) PerturbOn(r.next(), 4, 60);
    std::vector<std::thread> th;
    std::mutex m;
    double longest = 0;
    for (int t = 0; t < waiters; ++t)
      th.emplace_back([&, seed = r.next()] {
        Rng q(seed);
        while (!go) std::this_thread::yield();
        if (q.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(80)));
        double t0 = Now();
        bool ok = ws.WaitForVariable(name, 25, !start);
        double d = Now() - t0;
        if (!ok) ++wrong;
        ++done;
        std::lock_guard<std::mutex> lk(m);
        longest = std::max(longest, d);
      });
    go = true;
    auto d = r.below(120);
    if (d > 2) std::this_thread::sleep_for(std::chrono::microseconds(d));
    // changes that do not matter, then the one that does, once
    for (int x = static_cast<int>(r.below(3)); x > 0; --x) DriveAvail(name, start);
    DriveAvail(name, !start);
    for (auto& t : th) t.join();
    if (perturb)
    {
      DistinctHash(InterleavingHash());
      PerturbOff();
    }
    HX_CHECK(wrong == 0, "ws:wait-result", wrong << " of " << waiters << " waiting threads were told that the variable did not become " << (start ? "unavailable" : "available"));
    HX_CHECK(longest < 15, "ws:wait-lost", "a thread waiting for a variable woke up " << longest << " s after the change");
    Count("waiting threads woken", waiters);
    Eval(waiters);
    Beat();
  }
  // and otherwise at the timeout
  for (int k = 0; k < 30; ++k)
  {
    Workspace ws;
    auto var = Hx("{\"type\":\"int64\"}", "1", k % 2);
    var->SetName("tv");
    ws.AddVariable("tv", std::move(var));
    ws.Setup();
    double want = 0.0005 * k;
    double t0 = Now();
    bool ok = ws.WaitForVariable("tv", want, !(k % 2));
    double d = Now() - t0;
    HX_CHECK(!ok && d >= want - 1e-6, "ws:wait-timeout", "waiting " << want << " s in vain took " << d << " s and returned " << ok);
    t0 = Now();
    ok = ws.WaitForVariable("tv", 25, k % 2);
    HX_CHECK(ok && Now() - t0 < 10, "ws:wait-already", "a condition that holds was waited for");
    HX_CHECK(!ws.WaitForVariable("none", 25, true), "ws:wait-unknown", "an unknown variable");
    Count("waits that timed out");
    Eval(2);
  }
  // however long the timeout
  for (double w : {1e9, 9.3e9, 1e18, 1e300, std::numeric_limits<double>::infinity()})
  {
    Workspace ws;
    auto var = Hx("{\"type\":\"int64\"}", "1", false);
    var->SetName("tl");
    ws.AddVariable("tl", std::move(var));
    ws.Setup();
    std::thread t([] {
      std::this_thread::sleep_for(std::chrono::milliseconds(20));
      DriveAvail("tl", true);
    });
    double t0 = Now();
    bool ok = ws.WaitForVariable("tl", w, true);
    double d = Now() - t0;
    t.join();
    HX_CHECK(ok, "ws:wait-long", "waiting " << w << " s for a variable that became available after 0.02 s ended without it after " << d << " s");
    Eval();
  }
}

// everything at once: values stay whole, nothing deadlocks
void Mixed()
{
  Section s("mixed");
  if (!s.run) return;
  Rng r(Opt().seed * 37 + 1);
  long n = Scale(120, 14, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    Workspace ws;
    ws.AddVariable("v", Local(kType, kZero));
    ws.Setup();
    AnyValue proto;
    ws.GetValue("v", proto);
    std::atomic<long> torn{0}, calls{0};
    bool perturb = r.chance(2, 3);
    if (perturb) PerturbOn(r.next(), 8, 40);
    std::vector<std::thread> th;
    for (int t = 0; t < 5; ++t)
      th.emplace_back([&, t, seed = r.next()] {
        Rng q(seed);
        AnyValue mine = proto, v;
        long x = 0;
        for (int o = 0; o < 50; ++o)
          switch (t == 0 ? 0 : q.below(7))
          {
          case 0:
            ws.ResetVariable("v");
            break;
          case 1: case 2:
            SetAll(mine, t * 1000 + o);
            ws.SetValue("v", mine);
            break;
          case 3: case 4:
            v = AnyValue{};
            if (ws.GetValue("v", v) && !Whole(v, x)) ++torn;
            break;
          case 5: ws.WaitForVariable("v", 0.0002, q.chance(1, 2)); break;
          default:
          {
            int me;
            auto g = ws.GetCallbackGuard(&me);
            ws.RegisterCallback("v", [&](const AnyValue& y, bool) { long z; if (!Whole(y, z)) ++torn; ++calls; AnyValue again; ws.GetValue("v", again); }, &me);
            MaybeDelay();
          }
          }
      });
    for (auto& x : th) x.join();
    if (perturb)
    {
      DistinctHash(InterleavingHash());
      PerturbOff();
    }
    HX_CHECK(torn == 0, "ws:torn-reset", torn << " values whose fields do not belong together");
    Count("callbacks in mixed runs", calls.load());
    Eval(250);
    Beat();
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("one concurrent run on one workspace; distinct by the order of notified writes and, when perturbed, by the order of lock acquisitions");
    RegisterFixtures();
    Registers();
    Fields();
    Waiters();
    Mixed();
  })

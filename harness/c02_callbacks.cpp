// Named callback manager: sequential model for several argument lists, and concurrent delivery,
// finality of unregistration and serialisation.
#include "hx.h"

#include <sup/oac-tree/named_callback_manager.h>

#include <algorithm>

using namespace sup::oac_tree;
using namespace hx;

namespace
{
using Call = std::pair<int, std::string>;  // callback id, rendered arguments

std::string ShowCalls(const std::vector<Call>& v)
{
  std::string r;
  for (size_t i = 0; i < v.size() && i < 30; ++i) r += "#" + std::to_string(v[i].first) + "(" + Quote(v[i].second) + ") ";
  return r + (v.size() > 30 ? "..." : "");
}

template <typename... Args> struct Render;
template <> struct Render<int> { static std::string S(int i) { return std::to_string(i); } };
template <> struct Render<> { static std::string S() { return "-"; } };
template <> struct Render<std::string, bool> { static std::string S(const std::string& s, bool b) { return s + (b ? "|1" : "|0"); } };
template <> struct Render<std::shared_ptr<int>, std::vector<std::string>>
{
  static std::string S(const std::shared_ptr<int>& p, const std::vector<std::string>& v)
  {
    std::string r = p ? std::to_string(*p) : "null";
    for (auto& s : v) r += "," + s;
    return r;
  }
};

template <typename... Args> struct Seq
{
  using R = Render<Args...>;
  struct Entry { int id; int listener; bool generic; std::string name; };
  NamedCallbackManager<Args...> mgr;
  std::vector<Entry> model;   // in registration order
  std::vector<Call> log;
  std::string hist;
  int next_id = 0;

  void AddGeneric(int l, void* lp)
  {
    int id = next_id++;
    bool ok = mgr.RegisterGenericCallback([this, id](const std::string& n, Args... a) { log.push_back({id, n + "/" + R::S(a...)}); }, lp);
    HX_CHECK(ok, "callback:register-result", "registering a valid generic callback returned false; " << hist);
    model.push_back({id, l, true, ""});
    hist += "G" + std::to_string(id) + "@" + std::to_string(l) + "; ";
  }
  void AddNamed(const std::string& name, int l, void* lp)
  {
    int id = next_id++;
    bool ok = mgr.RegisterCallback(name, [this, id](Args... a) { log.push_back({id, R::S(a...)}); }, lp);
    HX_CHECK(ok, "callback:register-result", "registering a valid callback returned false; " << hist);
    model.push_back({id, l, false, name});
    hist += "N" + std::to_string(id) + "@" + std::to_string(l) + Quote(name) + "; ";
  }
  void AddEmpty(bool generic, void* lp)
  {
    bool ok = generic ? mgr.RegisterGenericCallback({}, lp) : mgr.RegisterCallback("x", {}, lp);
    HX_CHECK(!ok, "callback:register-result", "registering an empty function was accepted; " << hist);
    hist += "empty; ";
  }
  bool ModelRemove(int l)
  {
    auto it = std::remove_if(model.begin(), model.end(), [l](const Entry& e) { return e.listener == l; });
    bool any = it != model.end();
    model.erase(it, model.end());
    return any;
  }
  void Remove(int l, void* lp)
  {
    bool exp = ModelRemove(l);
    bool got = mgr.UnregisterListener(lp);
    hist += "U" + std::to_string(l) + "; ";
    HX_CHECK(got == exp, "callback:unregister-result", "UnregisterListener returned " << got << " expected " << exp << "; " << hist);
  }
  bool Execute(const std::string& name, const Args&... args)
  {
    std::vector<Call> exp;
    for (auto& e : model) if (e.generic) exp.push_back({e.id, name + "/" + R::S(args...)});
    for (auto& e : model) if (!e.generic && e.name == name) exp.push_back({e.id, R::S(args...)});
    log.clear();
    mgr.ExecuteCallbacks(name, args...);
    hist += "X" + Quote(name) + "; ";
    if (log != exp)
    {
      Violation("callback:delivery", "name " + Quote(name) + " delivered " + ShowCalls(log) + " expected " + ShowCalls(exp) + " after " + hist.substr(hist.size() > 1500 ? hist.size() - 1500 : 0));
      return false;
    }
    return true;
  }
};

const std::vector<std::string> kNames = {"", "a", "ab", "abc", "b", "A", std::string("a\0b", 3), "var.member", "a ", std::string(300, 'x')};

template <typename S, typename F> void Sequential(const char* label, F exec, long n)
{
  Section s(std::string("sequential-") + label);
  if (!s.run) return;
  Rng rng(Opt().seed * 101 + Hash(label));
  static int listeners[6];
  auto lp = [](int l) -> void* { return l == 0 ? nullptr : &listeners[l]; };
  for (; n > 0 && !TooMany(); --n)
  {
    S q;
    struct G { ScopeGuard g; int l; };
    std::vector<std::unique_ptr<G>> guards;
    int len = rng.range(3, 60);
    int names = rng.range(1, static_cast<int>(kNames.size()));
    long delivered = 0;
    bool ok = true;
    for (int i = 0; ok && i < len; ++i)
    {
      int r = rng.range(0, 99), l = rng.range(0, 5);
      auto& name = kNames[rng.below(names)];
      if (r < 18) q.AddGeneric(l, lp(l));
      else if (r < 45) q.AddNamed(name, l, lp(l));
      else if (r < 50) q.AddEmpty(rng.chance(1, 2), lp(l));
      else if (r < 58) q.Remove(l, lp(l));
      else if (r < 66) { guards.push_back(std::unique_ptr<G>(new G{q.mgr.GetCallbackGuard(lp(l)), l})); q.hist += "guard" + std::to_string(l) + "; "; }
      else if (r < 73 && !guards.empty())
      {
        size_t k = rng.below(guards.size());
        int gl = guards[k]->l;
        bool moved = rng.chance(1, 2);
        if (moved)
        {
          ScopeGuard tmp(std::move(guards[k]->g));
          guards.erase(guards.begin() + k);   // a moved-from guard does nothing
          exec(q, rng, name);
          q.hist += "movedguard; ";
        }
        else guards.erase(guards.begin() + k);
        if (gl != 0) q.ModelRemove(gl);
        q.hist += "dropguard" + std::to_string(gl) + "; ";
      }
      else { long before = Violations(); exec(q, rng, name); ok = Violations() == before; ++delivered; }
    }
    for (auto& nm : kNames) if (ok) { long b = Violations(); exec(q, rng, nm); ok = Violations() == b; }
    while (!guards.empty())
    {
      int gl = guards.back()->l;
      guards.pop_back();
      if (gl != 0) q.ModelRemove(gl);
    }
    if (ok) exec(q, rng, "a");
    Eval();
    if (delivered) Distinct(q.hist);
    if (n % 400 == 1) Sample(std::string(label) + ": " + q.hist);
  }
}

// ---- concurrency --------------------------------------------------------------------------
std::atomic<long> g_clock{0};

void Concurrent()
{
  Section s("concurrent-delivery");
  if (!s.run) return;
  Rng rng(Opt().seed * 7 + 11);
  for (long n = Scale(250, 10, 2); n > 0 && !TooMany(); --n)
  {
    NamedCallbackManager<long, std::string> mgr;
    const int publishers = rng.range(1, 3);
    const int listeners = rng.range(2, 4);
    const int per = rng.range(10, 60);
    struct Pub { long id; long call, ret; };
    std::vector<std::vector<Pub>> pubs(publishers);
    // two permanent observers, one generic and one on the name: same sequence, everything once
    std::vector<long> all_generic, all_named;
    std::atomic<int> inside{0}, overlap{0}, bad_args{0};
    struct Enter
    {
      std::atomic<int>&in, &ov;
      Enter(std::atomic<int>& i, std::atomic<int>& o) : in(i), ov(o) { if (in.fetch_add(1) != 0) ov.fetch_add(1); }
      ~Enter() { in.fetch_sub(1); }
    };
    int perm;
    mgr.RegisterGenericCallback([&](const std::string& nm, long id, std::string t) {
      Enter e(inside, overlap);
      if (nm != "v" || t != "text-of-some-length-" + std::to_string(id)) ++bad_args;
      all_generic.push_back(id);
    }, &perm);
    mgr.RegisterCallback("v", [&](long id, std::string t) {
      Enter e(inside, overlap);
      if (t != "text-of-some-length-" + std::to_string(id)) ++bad_args;
      all_named.push_back(id);
    }, &perm);
    mgr.RegisterCallback("w", [&](long, std::string) { ++bad_args; }, &perm);
    g_clock = 0;
    PerturbOn(rng.next(), rng.range(2, 10), rng.chance(1, 2) ? 50 : 0);
    std::atomic<int> go{0};
    std::atomic<int> publishing{publishers};
    std::vector<std::thread> th;
    for (int p = 0; p < publishers; ++p)
      th.emplace_back([&, p] {
        SetThreadTag(p);
        ++go;
        while (go.load() < publishers + listeners) {}
        for (int i = 0; i < per; ++i)
        {
          long id = p * 100000 + i;
          Pub x{id, ++g_clock, 0};
          mgr.ExecuteCallbacks("v", id, "text-of-some-length-" + std::to_string(id));
          x.ret = ++g_clock;
          pubs[p].push_back(x);
        }
        --publishing;
      });
    struct Life { long reg_ret, unreg_call, unreg_ret; std::vector<long> got; bool result; int entries; bool reg_ok; };
    std::vector<std::vector<std::unique_ptr<Life>>> lives(listeners);
    std::atomic<int> after_unregister{0};
    for (int l = 0; l < listeners; ++l)
    {
      uint64_t ls = rng.next();
      th.emplace_back([&, l, ls] {
        SetThreadTag(10 + l);
        Rng r(ls);
        ++go;
        while (go.load() < publishers + listeners) {}
        int rounds = 0;
        while ((publishing.load() > 0 || rounds < 1) && rounds < 60)
        {
          ++rounds;
          std::unique_ptr<Life> life(new Life{});
          // the state the callback touches is destroyed after unregistration: a late call is a
          // use after free for the sanitizers, and is counted as well
          struct State { std::atomic<bool> alive{true}; std::vector<long> got; };
          std::unique_ptr<State> st(new State);
          State* sp = st.get();
          Life* lf = life.get();
          int key = 0;
          bool use_guard = r.chance(1, 3);
          bool generic = r.chance(1, 2);
          bool both = r.chance(1, 4);
          auto record = [sp, &inside, &overlap, &after_unregister](long id) {
            Enter e(inside, overlap);
            if (!sp->alive.load()) ++after_unregister;
            MaybeDelay();
            sp->got.push_back(id);
          };
          {
            ScopeGuard guard;
            if (use_guard) guard = mgr.GetCallbackGuard(&key);
            lf->entries = 0;
            lf->reg_ok = true;
            if (generic || both) { lf->reg_ok &= mgr.RegisterGenericCallback([record](const std::string&, long id, std::string) { record(id); }, &key); ++lf->entries; }
            if (!generic || both) { lf->reg_ok &= mgr.RegisterCallback("v", [record](long id, std::string) { record(id); }, &key); ++lf->entries; }
            lf->reg_ret = ++g_clock;
            int spin = r.range(0, 60);
            for (int i = 0; i < spin; ++i) std::this_thread::yield();
            lf->unreg_call = ++g_clock;
            if (!use_guard) lf->result = mgr.UnregisterListener(&key);
            else lf->result = true;
          }
          lf->unreg_ret = ++g_clock;
          sp->alive = false;
          lf->got = sp->got;
          st.reset();
          lives[l].push_back(std::move(life));
        }
      });
    }
    for (auto& t : th) t.join();
    PerturbOff();
    std::vector<Pub> all;
    for (auto& p : pubs) all.insert(all.end(), p.begin(), p.end());
    HX_CHECK(overlap == 0, "callback:overlap", "two callbacks of one manager ran at the same time, " << overlap << " times");
    HX_CHECK(bad_args == 0, "callback:arguments", bad_args << " calls carried another name or other arguments than were published");
    HX_CHECK(after_unregister == 0, "callback:after-unregister", after_unregister << " callbacks ran after their listener was unregistered");
    HX_CHECK(all_generic == all_named, "callback:order-differs", "two permanent listeners saw different sequences");
    {
      auto sorted = all_generic;
      std::sort(sorted.begin(), sorted.end());
      std::vector<long> exp;
      for (auto& x : all) exp.push_back(x.id);
      std::sort(exp.begin(), exp.end());
      HX_CHECK(sorted == exp, "callback:permanent-listener", "a listener registered throughout received " << sorted.size() << " calls for " << exp.size() << " notifications, or others");
      // per publisher order
      std::map<long, long> last;
      for (long id : all_generic)
      {
        long p = id / 100000;
        HX_CHECK(!last.count(p) || last[p] < id, "callback:publisher-order", "notifications of one thread were delivered out of order");
        last[p] = id;
      }
    }
    long must_total = 0, optional = 0;
    for (auto& lv : lives)
      for (auto& lf : lv)
      {
        HX_CHECK(lf->reg_ok, "callback:register-result", "registration under concurrency returned false");
        HX_CHECK(lf->result, "callback:unregister-result", "unregistering a registered listener returned false");
        std::map<long, int> cnt;
        for (long id : lf->got) ++cnt[id];
        for (auto& x : all)
        {
          int c = cnt.count(x.id) ? cnt[x.id] : 0;
          bool must = lf->reg_ret < x.call && x.ret < lf->unreg_call;
          bool mustnot = lf->unreg_ret < x.call;
          if (must) { ++must_total; HX_CHECK(c == lf->entries, "callback:missed", "a notification made entirely while the listener was registered reached " << c << " of its " << lf->entries << " callbacks"); }
          else if (mustnot) HX_CHECK(c == 0, "callback:after-unregister", "notification started after unregistration was delivered");
          else { ++optional; HX_CHECK(c <= lf->entries, "callback:duplicate", "notification delivered " << c << " times to " << lf->entries << " callbacks"); }
        }
      }
    Count("notifications_that_had_to_arrive", must_total);
    Count("notifications_concurrent_with_registration", optional);
    Eval();
    DistinctHash(InterleavingHash());
    if (n % 100 == 2) Sample("concurrent run: " + std::to_string(publishers) + " publishers x " + std::to_string(per) + " notifications, " + std::to_string(listeners) + " listeners registering and unregistering, " + std::to_string(must_total) + " deliveries required, order seen by permanent listener starts " + [&] { std::string t; for (size_t i = 0; i < all_generic.size() && i < 12; ++i) t += std::to_string(all_generic[i]) + " "; return t; }());
  }
}

void Body()
{
  Rule("random registration/unregistration/guard/notification sequences compared call by call with a list "
       "model, and concurrent runs with interval checks; non-trivial: at least one notification was made; "
       "distinct by operation history or by lock-order hash");
  Sequential<Seq<int>>("int", [](Seq<int>& q, Rng& r, const std::string& n) { q.Execute(n, r.range(-1000000, 1000000)); }, Scale(1200, 10, 3));
  Sequential<Seq<>>("none", [](Seq<>& q, Rng&, const std::string& n) { q.Execute(n); }, Scale(600, 10, 3));
  Sequential<Seq<std::string, bool>>("string-bool", [](Seq<std::string, bool>& q, Rng& r, const std::string& n) {
    std::string v = r.chance(1, 3) ? "" : "value-that-does-not-fit-the-small-buffer-" + std::to_string(r.range(0, 99999));
    q.Execute(n, v, r.chance(1, 2)); }, Scale(1200, 10, 3));
  Sequential<Seq<std::shared_ptr<int>, std::vector<std::string>>>("pointer-vector", [](Seq<std::shared_ptr<int>, std::vector<std::string>>& q, Rng& r, const std::string& n) {
    q.Execute(n, std::make_shared<int>(r.range(0, 99)), {"one", std::string(40, 'z'), std::to_string(r.range(0, 999))}); }, Scale(600, 10, 3));
  Concurrent();
}
}  // namespace

HX_MAIN(Body)

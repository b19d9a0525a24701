// Requests for user input through the asynchronous adapter: pairing, exactly once, cancellation, waiting.
#include "full.h"

#include <sup/oac-tree/application_utils.h>
#include <sup/oac-tree/async_input_adapter.h>

#include <cmath>
#include <limits>
#include <set>

using namespace fx;
using namespace hx;
using sup::dto::AnyValue;

namespace
{
const double kSlack = 0.001;
const double kLate = 15;

// the user: answers request number n with n, after some time or when interrupted
struct User
{
  struct Rec
  {
    long served = 0, interrupted = 0;
    double started = -1, ended = -1;
    sup::dto::uint64 id = 0;
  };
  std::mutex mtx;
  std::condition_variable cv;
  std::map<long, Rec> rec;               // by request number
  std::map<sup::dto::uint64, long> interrupts;   // by id
  std::map<sup::dto::uint64, long> id_of;        // which request an id was used for
  std::atomic<int> inside{0};
  std::atomic<bool> stuck{true};         // slow answers need an interruption
  uint64_t seed = 0;
  // 0 answer at once, 1 after a delay, 2 only when interrupted, 3 throws, 4 throws something odd
  std::function<int(long)> mode = [](long) { return 0; };

  UserInputReply Ask(const UserInputRequest& rq, sup::dto::uint64 id)
  {
    HX_CHECK(++inside == 1, "request:one-at-a-time", "the user is asked while still being asked");
    AnyValue v;
    std::string d;
    bool is = ParseUserValueRequest(rq, v, d);
    long n = is ? std::atol(d.c_str()) : -1;
    HX_CHECK(is && n > 0, "request:content", "an unknown request reached the user");
    {
      std::lock_guard<std::mutex> lk(mtx);
      auto& r = rec[n];
      HX_CHECK(++r.served == 1, "request:once", "request " << n << " was put to the user twice");
      HX_CHECK(id_of.emplace(id, n).second, "request:id", "identification " << id << " used for two requests");
      HX_CHECK(id != 0, "request:id", "identification zero");
      r.started = Now();
      r.id = id;
    }
    MaybeDelay();
    int m = mode(n);
    {
      std::unique_lock<std::mutex> lk(mtx);
      auto hit = [&] { return interrupts.count(id) > 0; };
      if (m == 1) cv.wait_for(lk, std::chrono::microseconds(static_cast<long>(hx::Rng(seed + n).below(700))), hit);
      if (m == 2) HX_CHECK(cv.wait_for(lk, std::chrono::duration<double>(2 * kLate), hit), "request:never-interrupted", "request " << n << " was dropped while the user was asked and the user not told");
      rec[n].ended = Now();
    }
    --inside;
    if (m == 3) throw std::runtime_error("the user is gone");
    if (m == 4) throw 42;
    return CreateUserValueReply(true, AnyValue{sup::dto::SignedInteger64Type, n});
  }
  void Interrupt(sup::dto::uint64 id)
  {
    std::lock_guard<std::mutex> lk(mtx);
    HX_CHECK(++interrupts[id] == 1, "request:interrupts", "the same request is interrupted twice");
    cv.notify_all();
  }
  Rec Get(long n)
  {
    std::lock_guard<std::mutex> lk(mtx);
    return rec[n];
  }
};
UserInputRequest Request(long n) { return CreateUserValueRequest(AnyValue{sup::dto::SignedInteger64Type}, std::to_string(n)); }

void TakeReply(IUserInputFuture& f, long n, int mode, User& u)
{
  UserInputReply rep;
  auto id = f.GetId();
  HX_CHECK(f.IsReady(), "request:ready", "a wait succeeded but the request is not ready");
  try
  {
    rep = f.GetValue();
  }
  catch (const InvalidOperationException& e)
  {
    Violation("request:value", "the reply of a ready request cannot be had");
    return;
  }
  auto [ok, v] = ParseUserValueReply(rep);
  if (mode >= 3) HX_CHECK(!ok, "request:failed-source", "request " << n << " got a valid reply though the input function threw");
  else HX_CHECK(ok && v.As<sup::dto::int64>() == n, "request:pairing", "request " << n << " got the reply " << (ok ? Json(v) : "(invalid)"));
  auto r = u.Get(n);
  HX_CHECK(r.served == 1 && r.id == id, "request:served", "request " << n << " was answered without the user being asked");
  HX_CHECK(!f.IsValid(), "request:used", "a future is valid after its value was taken");
  HX_CHECK(!f.IsReady(), "request:used", "a future is ready after its value was taken");
  bool threw = false;
  try
  {
    f.GetValue();
  }
  catch (const InvalidOperationException&)
  {
    threw = true;
  }
  HX_CHECK(threw, "request:twice", "a reply was handed out twice");
}

void Crowd()
{
  Section s("crowd");
  if (!s.run) return;
  Rng r(Opt().seed * 61 + 1);
  long n = Scale(1200, 12, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    if (r.chance(1, 2)) PerturbOn(r.next(), r.range(2, 8), 200);
    User u;
    u.seed = r.next();
    int p_block = r.chance(1, 3) ? 0 : 12, p_throw = r.chance(1, 3) ? 0 : 10;
    auto mode_of = [&u, p_block, p_throw](long x)
    {
      Rng q(u.seed * 3 + x);
      if (p_block && q.chance(1, p_block)) return 2;
      if (p_throw && q.chance(1, p_throw)) return q.chance(1, 4) ? 4 : 3;
      return q.chance(1, 2) ? 1 : 0;
    };
    u.mode = mode_of;
    auto ad = std::make_unique<AsyncInputAdapter>([&](const UserInputRequest& rq, sup::dto::uint64 id) { return u.Ask(rq, id); }, [&](sup::dto::uint64 id) { u.Interrupt(id); });
    int nt = r.range(1, 6);
    int per = r.range(3, 25);
    std::atomic<long> next{1}, answered{0}, dropped{0};
    std::mutex fm;
    std::map<long, bool> fate;   // true: answered
    std::vector<std::thread> pool;
    for (int t = 0; t < nt; ++t)
      pool.emplace_back([&, seed = r.next()] {
        Rng q(seed);
        std::vector<std::pair<long, std::unique_ptr<IUserInputFuture>>> held;
        auto finish = [&](size_t i)
        {
          auto [num, f] = std::move(held[i]);
          held.erase(held.begin() + static_cast<long>(i));
          bool need_drop = mode_of(num) == 2;
          int how = static_cast<int>(q.below(5));
          if (!need_drop && how <= 2)
          {
            double t0 = Now();
            bool got = false;
            if (how == 0)
              while (!(got = f->IsReady()) && Now() - t0 < 2 * kLate) std::this_thread::sleep_for(std::chrono::microseconds(30));
            else if (how == 1) got = f->WaitFor(2 * kLate);
            else
              while (!(got = f->WaitFor(0.0003)) && Now() - t0 < 2 * kLate) {}
            double took = Now();
            auto rec = u.Get(num);
            // others may hold the user until they are dropped: late is what comes long after the answer
            if (!got)
            {
              if (rec.ended >= 0) Violation("request:lost", "request " + std::to_string(num) + " was answered by the user but its reply never arrived");
              else Count("requests given up behind a blocked one");
            }
            else
            {
              HX_CHECK(took - rec.ended < kLate, "request:late", "the reply arrived " << took - rec.ended << " s after it was given");
              TakeReply(*f, num, mode_of(num), u);
              ++answered;
              std::lock_guard<std::mutex> lk(fm);
              fate[num] = true;
            }
          }
          else
          {
            if (how == 3)
            {
              bool threw = false, ready = f->IsReady();
              if (!ready)
              {
                // not ready: no value, unless it became ready in between
                try
                {
                  f->GetValue();
                }
                catch (const InvalidOperationException&)
                {
                  threw = true;
                }
                if (!threw) HX_CHECK(u.Get(num).ended >= 0, "request:premature", "a reply is handed out before the user gave it");
              }
            }
            f.reset();
            ++dropped;
          }
        };
        for (int x = 0; x < per && !TooMany(); ++x)
        {
          long num = next++;
          auto f = ad->AddUserInputRequest(Request(num));
          HX_CHECK(f && f->IsValid(), "request:future", "no valid future");
          held.emplace_back(num, std::move(f));
          // a blocked user needs the drop of the request it is blocked with: do not keep those for long
          for (size_t i = 0; i < held.size();)
            if (mode_of(held[i].first) == 2 && q.chance(1, 2)) finish(i);
            else ++i;
          while (!held.empty() && q.chance(1, 2))
          {
            // waiting is only sure to end when nobody holds a blocking request
            for (size_t i = 0; i < held.size();)
              if (mode_of(held[i].first) == 2) finish(i);
              else ++i;
            if (!held.empty()) finish(q.below(held.size()));
          }
        }
        for (size_t i = 0; i < held.size();)
          if (mode_of(held[i].first) == 2) finish(i);
          else ++i;
        while (!held.empty()) finish(q.below(held.size()));
        Beat();
      });
    for (auto& t : pool) t.join();
    double t0 = Now();
    ad.reset();
    HX_CHECK(Now() - t0 < kLate, "request:shutdown", "the adapter took " << Now() - t0 << " s to end");
    PerturbOff();
    std::lock_guard<std::mutex> lk(u.mtx);
    long inter = 0;
    for (auto& [num, rec] : u.rec)
    {
      if (u.interrupts.count(rec.id)) ++inter;
      if (fate.count(num)) HX_CHECK(!u.interrupts.count(rec.id), "request:interrupted", "request " << num << " was interrupted and answered");
    }
    for (auto& [id, c] : u.interrupts) HX_CHECK(u.id_of.count(id), "request:interrupt-unknown", "an interruption of a request the user was never asked: " << id);
    Count("requests answered", answered);
    Count("requests dropped", dropped);
    Count("requests dropped while the user was asked", inter);
    Count("requests put to the user", static_cast<long>(u.rec.size()));
    Eval(next - 1);
    Distinct(std::to_string(InterleavingHash()) + ":" + std::to_string(answered) + ":" + std::to_string(inter));
  }
}

// a dropped request is neither asked nor delays or disturbs others
void Dropped()
{
  Section s("dropped");
  if (!s.run) return;
  Rng r(Opt().seed * 67 + 1);
  long n = Scale(2000, 12, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    User u;
    u.seed = r.next();
    int m = r.range(2, 8);
    u.mode = [](long x) { return x == 1 ? 2 : 0; };
    AsyncInputAdapter ad([&](const UserInputRequest& rq, sup::dto::uint64 id) { return u.Ask(rq, id); }, [&](sup::dto::uint64 id) { u.Interrupt(id); });
    std::vector<std::unique_ptr<IUserInputFuture>> f;
    for (long x = 1; x <= m; ++x) f.push_back(ad.AddUserInputRequest(Request(x)));
    bool asked = r.chance(3, 4);
    if (asked) HX_CHECK(WaitUntil([&] { return u.Get(1).served > 0; }, kLate), "request:first", "the first request is not put to the user");
    // while the first blocks the user, some of the others are dropped
    std::set<long> gone;
    for (int x = 1; x < m; ++x)
      if (r.chance(1, 2))
      {
        f[x].reset();
        gone.insert(x + 1);
      }
    for (int x = 1; x < m; ++x)
      if (f[x])
      {
        HX_CHECK(!f[x]->IsReady(), "request:order", "a request is answered while the user is still busy with another");
        if (r.chance(1, 8))
        {
          double t0 = Now(), w = 0.0005 * r.range(0, 4);
          HX_CHECK(!f[x]->WaitFor(w), "request:order", "a request is answered while the user is still busy with another");
          double took = Now() - t0;
          HX_CHECK(took >= w - kSlack && took < w + kLate, "request:wait", "waiting " << w << " s took " << took << " s");
        }
      }
    f[0].reset();   // interrupts the user
    for (int x = 1; x < m; ++x)
      if (f[x])
      {
        HX_CHECK(f[x]->WaitFor(kLate), "request:next", "request " << x + 1 << " of " << m << " is not answered after the first was dropped");
        if (f[x]->IsReady()) TakeReply(*f[x], x + 1, 0, u);
      }
    if (asked)
      for (auto x : gone) HX_CHECK(u.Get(x).served == 0, "request:dropped", "request " << x << " was put to the user after it had been dropped");
    if (u.Get(1).served) HX_CHECK(u.interrupts.size() == 1 && u.interrupts.begin()->first == u.Get(1).id, "request:interrupts", "dropping the current request interrupted " << u.interrupts.size() << " requests");
    Count("queued requests dropped", static_cast<long>(gone.size()));
    Eval(m);
    Distinct(std::to_string(m) + ":" + std::to_string(gone.size()) + (asked ? "a" : "b"));
    Beat();
  }
}

// waits of every length, including the ones that cannot be represented in nanoseconds
void Lengths()
{
  Section s("lengths");
  if (!s.run) return;
  for (double w : {0.0, -1.0, -1e300, 1e-12, 0.01, 1.0, 1e6, 1e9, 9.3e9, 1e10, 1e18, 1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()})
  {
    User u;
    std::atomic<bool> go{false};
    AsyncInputAdapter ad(
      [&](const UserInputRequest& rq, sup::dto::uint64 id)
      {
        WaitUntil([&] { return go.load(); }, kLate);
        return u.Ask(rq, id);
      },
      [&](sup::dto::uint64 id) { u.Interrupt(id); go = true; });
    auto f = ad.AddUserInputRequest(Request(1));
    std::thread user([&] {
      std::this_thread::sleep_for(std::chrono::milliseconds(60));
      go = true;
    });
    double t0 = Now();
    bool got = f->WaitFor(w);
    double took = Now() - t0;
    user.join();
    if (w >= kLate) HX_CHECK(got, "request:long-wait", "waiting " << w << " s for a reply given after 0.06 s ended without it after " << took << " s");
    if (!got) HX_CHECK(!(w >= kLate) && !(took < w - kSlack), "request:wait", "waiting " << w << " s took " << took << " s");
    if (!(w > 0.01)) HX_CHECK(took < kLate, "request:wait", "waiting " << w << " s took " << took << " s");
    Eval();
    Distinct("wait " + std::to_string(w));
  }
  // the same for the other waiting functions of the library
  for (double w : {0.0, -1.0, 0.01, 1e9, 9.3e9, 1e18, 1e300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()})
  {
    utils::SimpleJobStateMonitor mon;
    std::thread setter([&] {
      std::this_thread::sleep_for(std::chrono::milliseconds(40));
      mon.OnStateChange(JobState::kSucceeded);
    });
    double t0 = Now();
    bool got = mon.WaitForState(JobState::kSucceeded, w);
    double took = Now() - t0;
    setter.join();
    if (w >= kLate) HX_CHECK(got, "request:state-wait", "waiting " << w << " s for a state reached after 0.04 s ended without it after " << took << " s");
    HX_CHECK(took < kLate, "request:state-wait", "waiting " << w << " s took " << took);
    Eval();
  }
  Exhaustive("lengths of waits: none, negative, short, long, beyond what nanoseconds can count, infinite");
}
// the adapter is destroyed while the user is being asked and more requests wait: it ends at once
void Destroyed()
{
  Section s("destroyed");
  if (!s.run) return;
  static auto& orphans = *new std::vector<IUserInputFuture*>;   // futures must not outlive the adapter: these are never used again
  Rng r(Opt().seed * 71 + 1);
  long n = Scale(600, 12, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    User u;
    u.seed = r.next();
    int m = r.range(0, 4);
    bool blocks = r.chance(2, 3), asked = r.chance(3, 4);
    u.mode = [blocks](long) { return blocks ? 2 : 1; };
    double t0 = 0;
    {
      AsyncInputAdapter ad([&](const UserInputRequest& rq, sup::dto::uint64 id) { return u.Ask(rq, id); }, [&](sup::dto::uint64 id) { u.Interrupt(id); });
      for (long x = 1; x <= m; ++x) orphans.push_back(ad.AddUserInputRequest(Request(x)).release());
      if (asked && m) HX_CHECK(WaitUntil([&] { return u.Get(1).served > 0; }, kLate), "request:first", "the first request is not put to the user");
      t0 = Now();
    }
    HX_CHECK(Now() - t0 < kLate, "request:destroyed", "destroying the adapter with " << m << " requests took " << Now() - t0 << " s");
    long served = 0;
    {
      std::lock_guard<std::mutex> lk(u.mtx);
      for (auto& [x, rec] : u.rec) served += rec.served;
      HX_CHECK(!blocks || (served <= 1 && static_cast<long>(u.interrupts.size()) == served), "request:destroyed-asks", served << " requests were put to the user and " << u.interrupts.size() << " interrupted");
    }
    Count("adapters destroyed with requests pending", m > 0);
    Eval();
    Distinct("destroyed " + std::to_string(m) + (blocks ? "b" : "") + std::to_string(served));
    Beat();
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("requests for user input; distinct by observed schedule of answers, drops and interruptions");
    RegisterFixtures();
    Lengths();
    Dropped();
    Destroyed();
    Crowd();
  })

// Job command queue: sequential model (exhaustive), linearizability of concurrent histories,
// conservation and order, wake-up of blocked consumers.
#include "hx.h"

#include <sup/oac-tree/job_command_queue.h>

#include <algorithm>

using namespace sup::oac_tree;
using namespace hx;

namespace
{
const char* kNames[] = {"Start", "Step", "Pause", "Reset", "Halt", "Terminate"};
JobCommand Cmd(int i) { return static_cast<JobCommand>(i); }

struct Model
{
  std::deque<int> q;
  bool PriorityPush(int c)
  {
    if (!q.empty() && c <= q.front()) return false;
    q.push_front(c);
    return true;
  }
};

enum Op { kPush, kPrio, kPrioNoFunc, kTry, kWait, kSize, kEmpty };

std::string Show(int op, int c)
{
  switch (op)
  {
  case kPush: return std::string("Push(") + kNames[c] + ")";
  case kPrio: return std::string("PriorityPush(") + kNames[c] + ",f)";
  case kPrioNoFunc: return std::string("PriorityPush(") + kNames[c] + ",-)";
  case kTry: return "TryPop";
  case kWait: return "WaitForNextCommand";
  case kSize: return "GetSize";
  default: return "IsEmpty";
  }
}

// Runs one operation on both and compares; returns false on mismatch.
struct SeqRunner
{
  JobCommandQueue q;
  Model m;
  bool Step(int op, int c, const std::function<std::string()>& hist)
  {
    auto fail = [&](const std::string& key, const std::string& d) {
      Violation(key, d + " after " + hist());
      return false;
    };
    switch (op)
    {
    case kPush:
      q.Push(Cmd(c));
      m.q.push_back(c);
      break;
    case kPrio:
    {
      int called = 0;
      bool exp = m.PriorityPush(c);
      bool got = q.PriorityPush(Cmd(c), [&called] { ++called; });
      if (got != exp) return fail("queue:priority-result", Show(op, c) + " returned " + std::to_string(got));
      if (called != (exp ? 1 : 0)) return fail("queue:priority-function", Show(op, c) + " ran its function " + std::to_string(called) + " times, accepted=" + std::to_string(got));
      break;
    }
    case kPrioNoFunc:
    {
      bool exp = m.PriorityPush(c);
      bool got = q.PriorityPush(Cmd(c), {});
      if (got != exp) return fail("queue:priority-result", Show(op, c) + " returned " + std::to_string(got));
      break;
    }
    case kTry:
    {
      JobCommand out = JobCommand::kReset;
      bool got = q.TryPop(out);
      if (got != !m.q.empty()) return fail("queue:trypop-result", "TryPop returned " + std::to_string(got));
      if (got)
      {
        if (static_cast<int>(out) != m.q.front()) return fail("queue:pop-order", std::string("TryPop gave ") + std::to_string((int)out) + " expected " + kNames[m.q.front()]);
        m.q.pop_front();
      }
      else if (out != JobCommand::kReset) return fail("queue:trypop-output", "TryPop on an empty queue changed its output");
      break;
    }
    case kWait:
      if (m.q.empty()) break;
      {
        auto out = q.WaitForNextCommand();
        if (static_cast<int>(out) != m.q.front()) return fail("queue:pop-order", std::string("WaitForNextCommand gave ") + std::to_string((int)out) + " expected " + kNames[m.q.front()]);
        m.q.pop_front();
      }
      break;
    }
    if (q.GetSize() != m.q.size()) return fail("queue:size", "GetSize " + std::to_string(q.GetSize()) + " expected " + std::to_string(m.q.size()));
    if (q.IsEmpty() != m.q.empty()) return fail("queue:empty", "IsEmpty " + std::to_string(q.IsEmpty()));
    return true;
  }
  bool Drain(const std::function<std::string()>& hist)
  {
    while (!m.q.empty())
      if (!Step(kTry, 0, hist)) return false;
    return Step(kTry, 0, hist);
  }
};

void Exhaust()
{
  Section s("exhaustive-sequences");
  if (!s.run) return;
  // 6 pushes, 6 priority pushes with and 1 without function per parity, TryPop, Wait: 14 letters
  const int letters = 14;
  const int len = (Opt().thorough ? 6 : 5) - (Opt().variant == "tsan" ? 1 : 0);
  std::vector<int> w(len, 0);
  auto dec = [](int l, int& op, int& c) {
    if (l < 6) { op = kPush; c = l; }
    else if (l < 12) { op = (l % 2) ? kPrio : kPrioNoFunc; c = l - 6; if (c == 4 || c == 5) op = kPrio; }
    else { op = l == 12 ? kTry : kWait; c = 0; }
  };
  long total = 0;
  for (;;)
  {
    SeqRunner r;
    int upto = 0;
    auto hist = [&] {
      std::string h;
      for (int i = 0; i <= upto && i < len; ++i) { int op, c; dec(w[i], op, c); h += Show(op, c) + "; "; }
      return h;
    };
    bool ok = true;
    for (int i = 0; ok && i < len; ++i)
    {
      upto = i;
      int op, c;
      dec(w[i], op, c);
      ok = r.Step(op, c, hist);
    }
    if (ok) r.Drain(hist);
    ++total;
    if ((total & 1023) == 0) { Eval(1024); if (TooMany()) return; }
    if (total % 97 == 0) DistinctHash(0x100000000ull + total);
    if (total == 123457) Sample("sequence of operations checked step by step against a list: " + hist());
    int i = len - 1;
    while (i >= 0 && ++w[i] == letters) w[i--] = 0;
    if (i < 0) break;
  }
  Eval(total & 1023);
  Count("sequences_enumerated", total);
  Exhaustive("all sequences of " + std::to_string(len) + " queue operations over 14 operation letters");
}

void RandomLong()
{
  Section s("random-long-sequences");
  if (!s.run) return;
  Rng rng(Opt().seed * 31 + 1);
  for (long n = Scale(1500, 20, 2); n > 0 && !TooMany(); --n)
  {
    SeqRunner r;
    std::vector<std::pair<int, int>> ops;
    int len = rng.range(20, 400);
    int bias = rng.range(1, 9);
    auto hist = [&] {
      std::string h;
      size_t from = ops.size() > 40 ? ops.size() - 40 : 0;
      for (size_t i = from; i < ops.size(); ++i) h += Show(ops[i].first, ops[i].second) + "; ";
      return h;
    };
    uint64_t hash = 77;
    size_t maxsize = 0;
    for (int i = 0; i < len; ++i)
    {
      int op = rng.range(0, 9) < bias ? (rng.chance(1, 2) ? kPush : rng.chance(1, 2) ? kPrio : kPrioNoFunc)
                                      : (rng.chance(1, 2) ? kTry : kWait);
      int c = rng.range(0, 5);
      ops.push_back({op, c});
      hash = hash * 1099511628211ull + op * 7 + c;
      if (!r.Step(op, c, hist)) break;
      maxsize = std::max(maxsize, r.m.q.size());
    }
    r.Drain(hist);
    CountMax("longest_queue", static_cast<long>(maxsize));
    Eval();
    DistinctHash(hash);
  }
}

// ---- linearizability ---------------------------------------------------------------------
struct Ev
{
  int thread, op, c;
  long call, ret;
  int result;      // popped command, bool, size
  int called;      // times the function ran
};
std::atomic<long> g_clock{0};

std::string ShowEv(const Ev& e)
{
  return "t" + std::to_string(e.thread) + ":" + Show(e.op, e.c) + "=" + std::to_string(e.result) +
         " [" + std::to_string(e.call) + "," + std::to_string(e.ret) + "]";
}

bool Apply(const Ev& e, std::string& st)
{
  switch (e.op)
  {
  case kPush: st.push_back(static_cast<char>('0' + e.c)); return true;
  case kPrio:
  case kPrioNoFunc:
  {
    bool acc = st.empty() || e.c > st[0] - '0';
    if (acc != (e.result != 0)) return false;
    if (acc) st.insert(st.begin(), static_cast<char>('0' + e.c));
    return true;
  }
  case kTry:
    if (st.empty()) return e.result == -1;
    if (e.result != st[0] - '0') return false;
    st.erase(0, 1);
    return true;
  case kWait:
    if (st.empty() || e.result != st[0] - '0') return false;
    st.erase(0, 1);
    return true;
  case kSize: return e.result == static_cast<int>(st.size());
  case kEmpty: return (e.result != 0) == st.empty();
  }
  return false;
}

bool Linear(const std::vector<Ev>& h, uint32_t done, const std::string& st,
            std::set<std::pair<uint32_t, std::string>>& seen, const std::string& final_state)
{
  if (done == (1u << h.size()) - 1) return st == final_state;
  if (!seen.insert({done, st}).second) return false;
  long minret = 1l << 60;
  for (size_t i = 0; i < h.size(); ++i)
    if (!(done & (1u << i))) minret = std::min(minret, h[i].ret);
  for (size_t i = 0; i < h.size(); ++i)
  {
    if (done & (1u << i)) continue;
    if (h[i].call > minret) continue;
    std::string ns = st;
    if (Apply(h[i], ns) && Linear(h, done | (1u << i), ns, seen, final_state)) return true;
  }
  return false;
}

void Linearizable()
{
  Section s("linearizable-histories");
  if (!s.run) return;
  Rng rng(Opt().seed * 131 + 7);
  long overlapping = 0;
  for (long n = Scale(2500, 12, 2); n > 0 && !TooMany(); --n)
  {
    int threads = rng.range(2, 4);
    int per = threads == 4 ? 4 : threads == 3 ? 5 : 7;
    JobCommandQueue q;
    std::vector<std::vector<Ev>> logs(threads);
    std::vector<std::vector<std::pair<int, int>>> plan(threads);
    // WaitForNextCommand only in a plan where pushes surely suffice: at most as many waits as
    // plain pushes minus the pops of the other kinds.
    int pushes = 0, pops = 0;
    int lo = rng.range(0, 3), hi = rng.range(lo, 5);
    for (int t = 0; t < threads; ++t)
      for (int i = 0; i < per; ++i)
      {
        int r = rng.range(0, 99);
        int c = rng.range(lo, hi);
        int op = r < 25 ? kPush : r < 50 ? kPrio : r < 55 ? kPrioNoFunc : r < 80 ? kTry : r < 86 ? kWait : r < 95 ? kSize : kEmpty;
        if (op == kPush) ++pushes;
        if (op == kTry || op == kWait) ++pops;
        plan[t].push_back({op, c});
      }
    if (pops > pushes || rng.chance(1, 2))
    {
      for (auto& p : plan)
        for (auto& o : p)
          if (o.first == kWait) o.first = kTry;
    }
    else
    {
      // a wait before its own thread's pushes could still block for ever: move waits to thread 0
      // only, and only pushes of the other threads count
      int others = 0, mypops = 0;
      for (int t = 1; t < threads; ++t)
        for (auto& o : plan[t])
        {
          if (o.first == kWait) o.first = kTry;
          if (o.first == kPush) ++others;
          if (o.first == kTry) --others;
        }
      for (auto& o : plan[0])
        if (o.first == kWait || o.first == kTry) { if (++mypops > others) o.first = kSize; }
    }
    g_clock = 0;
    PerturbOn(rng.next(), rng.range(2, 6), rng.chance(1, 3) ? 60 : 0);
    std::atomic<int> go{0};
    std::vector<std::thread> th;
    for (int t = 0; t < threads; ++t)
      th.emplace_back([&, t] {
        SetThreadTag(t);
        ++go;
        while (go.load() < threads) {}
        for (auto& o : plan[t])
        {
          Ev e{t, o.first, o.second, 0, 0, 0, 0};
          e.call = ++g_clock;
          switch (o.first)
          {
          case kPush: q.Push(Cmd(o.second)); break;
          case kPrio: e.result = q.PriorityPush(Cmd(o.second), [&e] { ++e.called; }); break;
          case kPrioNoFunc: e.result = q.PriorityPush(Cmd(o.second), {}); break;
          case kTry: { JobCommand c; e.result = q.TryPop(c) ? static_cast<int>(c) : -1; break; }
          case kWait: e.result = static_cast<int>(q.WaitForNextCommand()); break;
          case kSize: e.result = static_cast<int>(q.GetSize()); break;
          case kEmpty: e.result = q.IsEmpty(); break;
          }
          e.ret = ++g_clock;
          logs[t].push_back(e);
        }
      });
    for (auto& t : th) t.join();
    PerturbOff();
    std::vector<Ev> h;
    for (auto& l : logs) h.insert(h.end(), l.begin(), l.end());
    std::sort(h.begin(), h.end(), [](const Ev& a, const Ev& b) { return a.call < b.call; });
    std::string final_state;
    JobCommand c;
    while (q.TryPop(c)) final_state.push_back(static_cast<char>('0' + static_cast<int>(c)));
    std::set<std::pair<uint32_t, std::string>> seen;
    std::string text;
    bool conc = false;
    long maxret = -1;
    for (auto& e : h)
    {
      if (e.call < maxret) conc = true;
      maxret = std::max(maxret, e.ret);
      text += ShowEv(e) + "; ";
      if (e.op == kPrio && e.called != e.result)
        Violation("queue:priority-function", "function ran " + std::to_string(e.called) + " times, accepted=" + std::to_string(e.result) + " in " + text);
    }
    if (!Linear(h, 0, "", seen, final_state))
      Violation("queue:not-linearizable", "no order of the operations explains this history (left in queue: " + final_state + "): " + text);
    if (conc) ++overlapping;
    Eval();
    DistinctHash(InterleavingHash());
    if (n % 500 == 3) Sample("concurrent history accepted as linearizable: " + text);
  }
  Count("histories_with_overlap", overlapping);
}

// ---- streams -----------------------------------------------------------------------------
// Producers own disjoint command sets, so a popped command names its producer.
void Streams()
{
  Section s("producer-streams");
  if (!s.run) return;
  Rng rng(Opt().seed * 17 + 3);
  for (long n = Scale(60, 12, 2); n > 0 && !TooMany(); --n)
  {
    JobCommandQueue q;
    const int len = rng.range(50, 400);
    std::vector<std::vector<int>> sent(3);
    for (int p = 0; p < 3; ++p)
      for (int i = 0; i < len; ++i) sent[p].push_back(2 * p + rng.range(0, 1));
    PerturbOn(rng.next(), rng.range(2, 20), rng.chance(1, 2) ? 40 : 0);
    std::vector<std::vector<int>> got(3);
    bool blocking = rng.chance(1, 2);
    std::atomic<bool> done{false};
    std::thread consumer([&] {
      SetThreadTag(9);
      for (int i = 0; i < 3 * len;)
      {
        JobCommand c = JobCommand::kStart;
        if (blocking) c = q.WaitForNextCommand();
        else if (!q.TryPop(c)) { std::this_thread::yield(); continue; }
        got[std::min(2, std::max(0, static_cast<int>(c) / 2))].push_back(static_cast<int>(c));
        ++i;
        Beat();
      }
      done = true;
    });
    std::vector<std::thread> prod;
    for (int p = 0; p < 3; ++p)
      prod.emplace_back([&, p] {
        SetThreadTag(p);
        for (int c : sent[p]) { q.Push(Cmd(c)); MaybeDelay(); }
      });
    for (auto& t : prod) t.join();
    // everything was pushed: the consumer must get all of it (the watchdog bounds this)
    if (!WaitUntil([&] { return done.load(); }, 60))
    {
      Violation("queue:consumer-starved", "all commands were pushed, the consumer did not receive them; size " + std::to_string(q.GetSize()));
      // release it
      for (int i = 0; i < 3 * len + 10 && !done; ++i) q.Push(JobCommand::kStart);
    }
    consumer.join();
    PerturbOff();
    for (int p = 0; p < 3; ++p)
      if (got[p] != sent[p])
      {
        size_t i = 0;
        while (i < got[p].size() && i < sent[p].size() && got[p][i] == sent[p][i]) ++i;
        Violation("queue:stream-order", "producer " + std::to_string(p) + ": position " + std::to_string(i) + " differs, sent " + std::to_string(sent[p].size()) + " received " + std::to_string(got[p].size()));
      }
    HX_CHECK(q.IsEmpty() && q.GetSize() == 0, "queue:leftover", "commands left after all were received");
    Eval();
    Count("streamed_commands", 3 * len);
    DistinctHash(InterleavingHash());
  }
}

// ---- blocked consumers -------------------------------------------------------------------
void Blocked()
{
  Section s("blocked-consumers");
  if (!s.run) return;
  Rng rng(Opt().seed * 1009 + 5);
  for (long n = Scale(400, 12, 2); n > 0 && !TooMany(); --n)
  {
    JobCommandQueue q;
    int k = rng.range(1, 4);
    bool stealer = rng.chance(1, 3);
    std::atomic<int> waiting{0}, got{0};
    std::atomic<bool> stop{false};
    std::vector<int> count_sent(6, 0);
    std::mutex m;
    std::vector<int> count_got(6, 0);
    PerturbOn(rng.next(), rng.range(2, 8), rng.chance(1, 2) ? 80 : 0);
    std::vector<std::thread> th;
    for (int i = 0; i < k; ++i)
      th.emplace_back([&, i] {
        SetThreadTag(i);
        ++waiting;
        int c = static_cast<int>(q.WaitForNextCommand());
        { std::lock_guard<std::mutex> lk(m); if (c >= 0 && c < 6) ++count_got[c]; else Violation("queue:garbage", "received " + std::to_string(c)); }
        ++got;
      });
    std::thread st;
    if (stealer)
      st = std::thread([&] {
        SetThreadTag(20);
        while (!stop)
        {
          JobCommand c = JobCommand::kStart;
          if (q.TryPop(c)) { std::lock_guard<std::mutex> lk(m); ++count_got[static_cast<int>(c)]; }
          std::this_thread::yield();
        }
      });
    // usually let them block first, sometimes race with them
    if (rng.chance(3, 4))
    {
      WaitUntil([&] { return waiting.load() == k; });
      std::this_thread::sleep_for(std::chrono::microseconds(rng.range(0, 2) * 400));
    }
    std::string pushes;
    auto push = [&](Rng& r) {
      int c = r.range(0, 5);
      if (r.chance(1, 2)) { q.Push(Cmd(c)); ++count_sent[c]; pushes += Show(kPush, c) + "; "; }
      else if (q.PriorityPush(Cmd(c), [&] { ++count_sent[c]; })) pushes += Show(kPrio, c) + "; ";
    };
    if (!stealer)
    {
      int accepted = 0;
      while (accepted < k)
      {
        int before = 0, after = 0;
        for (int x : count_sent) before += x;
        push(rng);
        for (int x : count_sent) after += x;
        accepted += after - before;
        if (rng.chance(1, 4)) std::this_thread::yield();
      }
      if (!WaitUntil([&] { return got.load() == k; }, 60))
        Violation("queue:lost-wakeup", std::to_string(k) + " blocked consumers, " + pushes + " pushed, only " + std::to_string(got.load()) + " returned, queue holds " + std::to_string(q.GetSize()));
    }
    else
    {
      auto limit = Clock::now() + std::chrono::seconds(60);
      while (got.load() < k && Clock::now() < limit) { push(rng); if (rng.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(20)); }
      if (got.load() < k)
        Violation("queue:lost-wakeup", "consumers stay blocked although commands keep being pushed");
    }
    bool released = got.load() >= k;
    // release blocked threads if the check failed
    while (got.load() < k) { q.Push(JobCommand::kStart); std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
    stop = true;
    for (auto& t : th) t.join();
    if (stealer) st.join();
    PerturbOff();
    JobCommand c;
    while (q.TryPop(c)) ++count_got[static_cast<int>(c)];
    if (released && count_got != count_sent)
      Violation("queue:conservation", "commands accepted and commands received differ; " + pushes);
    Eval();
    DistinctHash(InterleavingHash());
    Count(stealer ? "cases_with_competing_poller" : "cases_all_blocked");
  }
}

// The function of an accepted priority push has run before any consumer can see the command, and
// of several simultaneous pushes of one priority onto an empty queue exactly one is accepted.
void PriorityRace()
{
  Section s("priority-race");
  if (!s.run) return;
  Rng rng(Opt().seed * 77 + 5);
  for (long n = Scale(600, 12, 2); n > 0 && !TooMany(); --n)
  {
    JobCommandQueue q;
    int threads = rng.range(2, 4);
    int cmd = rng.range(0, 5);
    int pre = rng.range(-1, cmd - 1);
    if (pre >= 0) q.Push(Cmd(pre));
    bool consumer = rng.chance(1, 2);
    std::atomic<int> accepted{0}, effect{0}, go{0}, bad{0}, received{0};
    std::atomic<bool> stop{false};
    PerturbOn(rng.next(), 2, 50);
    std::vector<std::thread> th;
    for (int t = 0; t < threads; ++t)
      th.emplace_back([&, t] {
        SetThreadTag(t);
        ++go;
        while (go.load() < threads) {}
        if (q.PriorityPush(Cmd(cmd), [&] { MaybeDelay(); ++effect; })) ++accepted;
      });
    std::thread cons;
    if (consumer)
      cons = std::thread([&] {
        SetThreadTag(11);
        int seen = 0;
        while (!stop)
        {
          JobCommand c;
          if (q.TryPop(c) && static_cast<int>(c) == cmd)
          {
            ++seen;
            ++received;
            if (effect.load() < seen) ++bad;
          }
        }
      });
    for (auto& t : th) t.join();
    stop = true;
    if (consumer) cons.join();
    PerturbOff();
    HX_CHECK(bad == 0, "queue:function-after-visibility", "a consumer received the prioritised command before its function had run");
    HX_CHECK(effect == accepted, "queue:priority-function", "function ran " << effect << " times for " << accepted << " accepted");
    if (!consumer)
    {
      HX_CHECK(accepted == 1, "queue:priority-duplicate", accepted << " simultaneous priority pushes of the same command were accepted");
      HX_CHECK(q.GetSize() == (pre >= 0 ? 2u : 1u), "queue:size", "size " << q.GetSize());
    }
    Eval();
    DistinctHash(InterleavingHash());
  }
}

void Body()
{
  Rule("sequences of queue operations (all of a fixed length, then random long ones) and concurrent "
       "histories of 2-4 threads under random delays at every lock; a case is non-trivial when it has "
       "at least two operations; distinct by operation sequence or by the order in which threads took locks");
  Exhaust();
  RandomLong();
  Linearizable();
  Streams();
  Blocked();
  PriorityRace();
}
}  // namespace

HX_MAIN(Body)

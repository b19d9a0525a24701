// Jobs that are created, controlled from several threads and destroyed at any time.
#include "full.h"

#include <sup/oac-tree/instruction_info.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/variable_info.h>
#include <sup/oac-tree/workspace_info.h>

using namespace fx;
using namespace hx;

namespace
{
// A user that takes time, and that can be interrupted.
struct SlowUser
{
  std::mutex mtx;
  std::condition_variable cv;
  std::set<sup::dto::uint64> interrupted;
  bool over = false;
  std::atomic<long> asked{0}, cancelled{0}, inside{0};
  double think;     // seconds until an answer, 1e9 never
  bool Wait(sup::dto::uint64 id)
  {
    ++asked;
    ++inside;
    std::unique_lock<std::mutex> lk(mtx);
    bool stop = cv.wait_for(lk, std::chrono::duration<double>(std::min(think, 100.0)), [&] { return interrupted.count(id) > 0; });
    if (stop) ++cancelled;
    --inside;
    return !stop;
  }
  void Stop(sup::dto::uint64 id)
  {
    std::lock_guard<std::mutex> lk(mtx);
    interrupted.insert(id);
    cv.notify_all();
  }
};

void Destroyed()
{
  Section s("destroyed");
  if (!s.run) return;
  Rng r(Opt().seed * 101 + 1);
  long n = Scale(1200, 10, 2);
  ThreadCount();
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    FullOpt o;
    o.dir = Opt().scratch;
    o.max_nodes = r.range(3, 18);
    o.us = r.chance(1, 2) ? 300 : 0;
    auto p = GenFull(r, o);
    std::string text;
    for (auto& x : p.roots) text += ToText(x) + " ";
    if (std::getenv("HX_SHOW")) fprintf(stderr, "%s\n", text.c_str());
    SlowUser user;
    user.think = r.chance(1, 3) ? 1e9 : 1e-6 * static_cast<double>(r.below(4000));
    Case(text);
    int threads0 = ThreadCount();
    int clients = r.range(0, 2);
    long at = r.chance(1, 2) ? static_cast<long>(r.below(40)) : -1;   // destroyed after that many notifications
    double after = 1e-6 * static_cast<double>(r.below(r.chance(1, 4) ? 8000 : 600));
    std::unique_ptr<RecJobIO> io(new RecJobIO);
    io->on_value = [&](sup::dto::uint64 id, sup::dto::AnyValue&, const std::string&) { return user.Wait(id); };
    io->on_choice = [&](sup::dto::uint64 id, const std::vector<std::string>& opt) { return user.Wait(id) ? static_cast<int>(opt.size()) - 1 : -1; };
    io->on_interrupt = [&](sup::dto::uint64 id) { user.Stop(id); };
    std::atomic<long> seen{0};
    io->on_any = [&] { ++seen; MaybeDelay(); };
    io->keep_trace = false;
    bool perturb = r.chance(1, 2);
    if (perturb) PerturbOn(r.next(), 24, 80);
    double t0;
    std::unique_ptr<LocalJob> job;
    try
    {
      job = std::make_unique<LocalJob>(BuildProc(p), *io);
    }
    catch (const std::exception& e)
    {
      Violation("lifetime:setup", std::string("a procedure of the generator is refused: ") + e.what() + " " + text);
      PerturbOff();
      continue;
    }
    {
      unsigned instr = job->GetInfo().GetNumberOfInstructions();
      if (r.chance(1, 6))
      {
        LocalJob other(std::move(*job));
        *job = std::move(other);
      }
      std::vector<std::thread> th;
      if (r.chance(9, 10)) job->Start();
      for (int c = 0; c < clients; ++c)
        th.emplace_back([&, seed = r.next()] {
          Rng q(seed);
          int m = q.range(1, 12);
          for (int x = 0; x < m; ++x)
          {
            switch (q.below(9))
            {
            case 0: case 1: job->Start(); break;
            case 2: job->Step(); break;
            case 3: job->Pause(); break;
            case 4: job->Reset(); break;
            case 5: job->Halt(); break;
            case 6: job->SetBreakpoint(static_cast<sup::dto::uint32>(q.below(instr + 1))); break;
            case 7: job->RemoveBreakpoint(static_cast<sup::dto::uint32>(q.below(instr + 1))); break;
            default: job->GetInfo().GetNumberOfVariables(); break;
            }
            if (q.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(q.below(300)));
            if (q.chance(1, 6)) DriveVar("hx", sup::dto::AnyValue{sup::dto::SignedInteger32Type, static_cast<int>(q.below(5))}, q.chance(3, 4));
          }
        });
      for (auto& t : th) t.join();
      if (at >= 0) WaitUntil([&] { return seen.load() >= at || IsFinishedJobState(io->State()); }, 0.01);
      else
      {
        double until = Now() + after;
        while (Now() < until) std::this_thread::yield();
      }
      static const char* const names[] = {"initial", "paused", "stepping", "running", "succeeded", "failed", "halted"};
      Count(std::string("destroyed while ") + names[static_cast<int>(io->State())]);
      if (user.inside.load()) Count("destroyed while the user was asked");
      t0 = Now();
      job.reset();
    }
    io->closed = true;
    double took = Now() - t0;
    CountMax("longest destruction, microseconds", static_cast<long>(took * 1e6));
    HX_CHECK(user.inside.load() == 0, "lifetime:user", text << " is destroyed but its user is still being asked");
    int threads1 = 0;
    bool gone = WaitUntil([&] { return (threads1 = ThreadCount()) <= threads0; }, 20);
    HX_CHECK(gone, "lifetime:threads", text << " is destroyed but " << threads1 - threads0 << " of its threads live on");
    HX_CHECK(io->late.load() == 0, "lifetime:late", text << " notifies " << io->late.load() << " times after its destruction");
    if (perturb)
    {
      DistinctHash(InterleavingHash());
      PerturbOff();
    }
    Count("notifications", seen.load());
    Count("user asked", user.asked.load());
    Count("user interrupted", user.cancelled.load());
    DistinctHash(Hash(text) ^ static_cast<uint64_t>(seen.load()));
    if (k % 60 == 0) Sample(text);
    Eval();
    Beat();
  }
}

// the asynchronous runner with the procedure outliving it: a reset of the procedure ends all activity
void Outliving()
{
  Section s("outliving");
  if (!s.run) return;
  Rng r(Opt().seed * 103 + 2);
  long n = Scale(500, 10, 1);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    FullOpt o;
    o.dir = Opt().scratch;
    o.max_nodes = r.range(3, 14);
    o.us = 200;
    auto p = GenFull(r, o);
    std::string text;
    for (auto& x : p.roots) text += ToText(x) + " ";
    Case(text + " outlives its runner");
    auto proc = BuildProc(p);
    std::mutex m;
    Rng answers(r.next());
    {
      RecUI ui;
      ui.record_var = false;
      std::atomic<bool> closed{false};
      std::atomic<long> late{0};
      ui.on_input = [&](const UserInputRequest& rq) {
        std::lock_guard<std::mutex> lk(m);
        return RandomAnswer(answers, rq);
      };
      ui.on_status = [&](const Instruction*, ES) { if (closed) ++late; };
      {
        AsyncRunner run(*proc, ui);
        run.Start();
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500)));
        if (r.chance(1, 2)) run.Halt();
        else if (r.chance(1, 2)) { run.Pause(); run.Reset(); }
      }
      // the procedure belongs to the caller: it is to be reset before its interface goes away
      proc->Reset(ui);
      closed = true;
      for (auto i : Preorder(proc->RootInstruction()))
        HX_CHECK(i->GetStatus() == ES::NOT_STARTED, "lifetime:reset", text << " has an instruction " << StatusChar(i->GetStatus()) << " after a reset");
      HX_CHECK(late.load() == 0, "lifetime:late", text << " notifies after its reset");
      Count("runners");
    }
    Eval();
    Distinct(text);
    Beat();
  }
}

// many jobs at a time
void Crowd()
{
  Section s("crowd");
  if (!s.run) return;
  Rng r(Opt().seed * 107 + 3);
  long n = Scale(60, 12, 1);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    int threads0 = ThreadCount();
    std::vector<std::thread> th;
    std::atomic<long> late{0}, jobs{0};
    for (int t = 0; t < 6; ++t)
      th.emplace_back([&, seed = r.next(), t] {
        Rng q(seed);
        std::vector<std::pair<std::unique_ptr<RecJobIO>, std::unique_ptr<LocalJob>>> own;
        for (int x = 0; x < 8; ++x)
        {
          if (own.size() < 3 && q.chance(2, 3))
          {
            FullOpt o;
            o.dir = Opt().scratch;
            o.max_nodes = q.range(2, 9);
            o.input = q.chance(1, 2);
            o.includes = false;
            o.files = false;
            o.hxvars = false;
            auto p = GenFull(q, o);
            auto io = std::make_unique<RecJobIO>();
            io->keep_trace = false;
            auto job = std::make_unique<LocalJob>(BuildProc(p), *io);
            job->Start();
            own.emplace_back(std::move(io), std::move(job));
            ++jobs;
          }
          else if (!own.empty())
          {
            auto& v = own[q.below(own.size())];
            if (q.chance(1, 3)) v.second->Halt();
            else if (q.chance(1, 2)) v.second->Pause();
            else
            {
              v.second.reset();
              v.first->closed = true;
              if (v.first->late.load()) ++late;
              std::swap(v, own.back());
              own.pop_back();
            }
          }
          std::this_thread::sleep_for(std::chrono::microseconds(q.below(400)));
        }
        while (!own.empty())
        {
          own.back().second.reset();
          own.back().first->closed = true;
          if (own.back().first->late.load()) ++late;
          own.pop_back();
        }
      });
    for (auto& t : th) t.join();
    HX_CHECK(late.load() == 0, "lifetime:late", "one of many jobs notifies after its destruction");
    int threads1 = 0;
    bool gone = WaitUntil([&] { return (threads1 = ThreadCount()) <= threads0; }, 20);
    HX_CHECK(gone, "lifetime:threads", "many jobs are destroyed but " << threads1 - threads0 << " threads live on");
    Count("jobs side by side", jobs.load());
    Eval(jobs.load());
    DistinctHash(r.next());
    Beat();
  }
}
}  // namespace

HX_MAIN([] {
  RegisterFixtures();
  Rule("a distinct case is a procedure with the number of notifications it had given when it was destroyed, or a distinct order of lock operations");
  Destroyed();
  Outliving();
  Crowd();
})

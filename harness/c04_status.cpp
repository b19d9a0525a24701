// Execution status, job state and job command vocabularies.
#include "hx.h"

#include <sup/oac-tree/execution_status.h>
#include <sup/oac-tree/job_commands.h>
#include <sup/oac-tree/job_states.h>

#include <climits>

using namespace sup::oac_tree;
using namespace hx;

namespace
{
void StatusAt(int v)
{
  auto s = static_cast<ExecutionStatus>(v);
  static const std::map<int, std::string> text = {
    {(int)ExecutionStatus::NOT_STARTED, "Not started"}, {(int)ExecutionStatus::NOT_FINISHED, "Not finished"},
    {(int)ExecutionStatus::RUNNING, "Running"}, {(int)ExecutionStatus::SUCCESS, "Success"}, {(int)ExecutionStatus::FAILURE, "Failure"}};
  bool known = text.count(v) > 0;
  auto got = StatusToString(s);
  std::string exp = known ? text.at(v) : "Unknown status";
  HX_CHECK(got == exp, "status:text", "status " << v << " is rendered " << Quote(got) << " expected " << Quote(exp));
  bool fin = s == ExecutionStatus::SUCCESS || s == ExecutionStatus::FAILURE;
  bool ready = s == ExecutionStatus::NOT_STARTED || s == ExecutionStatus::NOT_FINISHED;
  bool exec = s == ExecutionStatus::NOT_FINISHED || s == ExecutionStatus::RUNNING;
  HX_CHECK(IsFinishedStatus(s) == fin, "status:finished", "IsFinished(" << v << ")");
  HX_CHECK(NeedsExecute(s) == !fin, "status:needs-execute", "NeedsExecute(" << v << ")");
  HX_CHECK(ReadyForExecute(s) == ready, "status:ready", "ReadyForExecute(" << v << ")");
  HX_CHECK(IsExecutingStatus(s) == exec, "status:executing", "IsExecuting(" << v << ")");
}
void StateAt(int v)
{
  auto s = static_cast<JobState>(v);
  static const std::map<int, std::string> text = {
    {(int)JobState::kInitial, "Initial"}, {(int)JobState::kPaused, "Paused"}, {(int)JobState::kStepping, "Stepping"},
    {(int)JobState::kRunning, "Running"}, {(int)JobState::kSucceeded, "Success"}, {(int)JobState::kFailed, "Failure"}, {(int)JobState::kHalted, "Halted"}};
  bool known = text.count(v) > 0;
  auto got = ToString(s);
  std::string exp = known ? text.at(v) : "Unknown JobState";
  HX_CHECK(got == exp, "jobstate:text", "job state " << v << " is rendered " << Quote(got) << " expected " << Quote(exp));
  bool fin = s == JobState::kSucceeded || s == JobState::kFailed || s == JobState::kHalted;
  HX_CHECK(IsFinishedJobState(s) == fin, "jobstate:finished", "IsFinished(" << v << ")");
}

void Body()
{
  Rule("every declared enumerator, every integer in a wide range and random integers for each classification "
       "function, all ordered pairs of commands, and concurrent first use; each value is one case");
  // first use from several threads at once, before anything else touched the tables
  {
    Section s("concurrent-first-use");
    if (s.run)
    {
      std::atomic<int> go{0};
      std::vector<std::thread> th;
      for (int t = 0; t < 8; ++t)
        th.emplace_back([&] {
          ++go;
          while (go.load() < 8) {}
          for (int v = -3; v < 12; ++v) { StateAt(v); StatusAt(v); }
        });
      for (auto& t : th) t.join();
      Eval(8 * 15);
    }
  }
  {
    Section s("classification");
    if (s.run)
    {
      int span = Opt().thorough ? 300000 : 40000;
      for (int v = -span; v <= span && !TooMany(); ++v) { StatusAt(v); StateAt(v); if ((v & 63) == 0 || (v > -8 && v < 16)) DistinctHash(static_cast<uint64_t>(v + 10000000)); }
      Eval(2 * (2 * span + 1));
      for (int v : {INT_MIN, INT_MAX, INT_MIN + 1, INT_MAX - 1}) { StatusAt(v); StateAt(v); Eval(2); }
      Rng rng(Opt().seed);
      for (int i = 0; i < 20000 && !TooMany(); ++i) { int v = static_cast<int>(rng.next()); StatusAt(v); StateAt(v); }
      Eval(40000);
      Exhaustive("all enumerators of execution status and job state, and all integers within +-" + std::to_string(span));
      Sample("execution status 3 -> " + StatusToString(static_cast<ExecutionStatus>(3)) + ", job state 6 -> " + ToString(static_cast<JobState>(6)) + ", job state 7 -> " + ToString(static_cast<JobState>(7)));
    }
  }
  {
    Section s("command-order");
    if (s.run)
    {
      const char* names[] = {"Start", "Step", "Pause", "Reset", "Halt", "Terminate"};
      const JobCommand rank[] = {JobCommand::kStart, JobCommand::kStep, JobCommand::kPause, JobCommand::kReset, JobCommand::kHalt, JobCommand::kTerminate};
      for (int i = 0; i < 6; ++i)
        for (int j = 0; j < 6; ++j)
        {
          bool got = rank[i] <= rank[j];
          HX_CHECK(got == (i <= j), "command:order", names[i] << " <= " << names[j] << " is " << got);
          Eval();
          DistinctHash(50000000 + i * 6 + j);
        }
      Exhaustive("all 36 ordered pairs of job commands");
      Sample("Halt <= Terminate is true, Terminate <= Halt is false, Halt <= Halt is true");
    }
  }
}
}  // namespace

HX_MAIN(Body)

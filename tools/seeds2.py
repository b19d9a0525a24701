from mkseed import seed

seed("c10-command-before-finish", "C10", "full",
[("runner/async_runner.cpp", """  if (SwitchStateOnFinished())
  {
    return;
  }
  JobCommand command = JobCommand::kStart;
  if (m_command_queue.TryPop(command))
  {
    auto action = HandleCommand(command);
    // Ignore action, all necessary actions are already taken by HandleCommand.
    (void)action;
  }""", """  JobCommand command = JobCommand::kStart;
  if (m_command_queue.TryPop(command))
  {
    auto action = HandleCommand(command);
    // Ignore action, all necessary actions are already taken by HandleCommand.
    (void)action;
  }
  SwitchStateOnFinished();""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml("<Sequence><Hook name=\"h\"/></Sequence>"));
  UI ui;
  Mon mon;
  AsyncRunner* r = nullptr;
  Hooks()["h"] = [&](const std::string&) { r->Pause(); return ExecutionStatus::SUCCESS; };
  AsyncRunner runner{*p, ui, mon};
  r = &runner;
  runner.Start();
  EXPECT(mon.Wait(JobState::kSucceeded));
  EXPECT(mon.Text() == "Initial Running Success ");
}
""",
"a command that arrives during the tick in which the procedure finishes",
"the finished job first reports a state (paused) it is not in, and a reset sent at that moment is swallowed")

seed("c11-released-forever", "C11", "full",
[("runner/breakpoint_manager.cpp", """    if (breakpoint.GetStatus() == Breakpoint::kReleased)
    {
      breakpoint.SetStatus(Breakpoint::kSet);
    }
  }""", """    if (breakpoint.GetStatus() == Breakpoint::kReleased)
    {
      breakpoint.SetStatus(Breakpoint::kSet);
      break;
    }
  }""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml(
    "<Sequence name=\"a\"><Inverter name=\"b\"><Inverter name=\"c\"><Hook name=\"d\"/></Inverter></Inverter></Sequence>"));
  UI ui;
  Mon mon;
  AsyncRunner r{*p, ui, mon};
  for (auto n : {"b", "c", "d"}) r.SetBreakpoint(Find(*p, n));
  r.Start();
  EXPECT(mon.Wait(JobState::kPaused));
  r.Start();
  EXPECT(mon.Wait(JobState::kSucceeded));
  r.Reset();
  EXPECT(mon.Wait(JobState::kInitial));
  r.RemoveBreakpoint(Find(*p, "b"));
  r.RemoveBreakpoint(Find(*p, "c"));
  r.Start();
  EXPECT(mon.Wait(JobState::kPaused));
  r.Halt();
  EXPECT(mon.Wait(JobState::kHalted));
}
""",
"several breakpoints that are hit at the same moment (nested instructions or parallel branches), and a later execution of the same instructions",
"only one of the breakpoints is armed again: the other one never stops the job any more")

seed("c12-halt-not-forwarded", "C12", "full",
[("instructions/wait.cpp", """    while (!IsHaltRequested() && m_finish > utils::GetNanosecsSinceEpoch())
    {""", """    const bool halted = IsHaltRequested();
    while (!halted && m_finish > utils::GetNanosecsSinceEpoch())
    {""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml("<Sequence><Wait name=\"w\" timeout=\"8.0\" blocking=\"true\"/></Sequence>"));
  UI ui;
  Mon mon;
  AsyncRunner r{*p, ui, mon};
  std::atomic<bool> started{false};
  ui.on_status = [&](const Instruction* i) { if (i->GetName() == "w") started = true; };
  auto t = Secs();
  r.Start();
  while (!started && Secs() - t < 5) Msleep(1);
  Msleep(50);
  t = Secs();
  r.Halt();
  for (;;)
  {
    EXPECT(Secs() - t < 4);
    Msleep(2);
    std::lock_guard<std::mutex> lk(mon.m);
    if (IsFinishedJobState(mon.states.back())) break;
  }
}
""",
"a halt that arrives while a blocking wait is already sleeping",
"the wait runs to its end before the job stops")

seed("c07-repeat-count-kept", "C07", "full",
[("instructions/repeat.cpp", """  m_count = 0;
  m_max_count = 0;
  if (!Get""", """  m_max_count = 0;
  if (!Get"""),
 ("instructions/repeat.cpp", """    m_count++;
  }
  return CalculateStatus();""", """    m_count++;
  }
  const auto status = CalculateStatus();
  if (status == ExecutionStatus::SUCCESS)
  {
    m_count = 0;
  }
  return status;""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml(
    "<Sequence><Repeat maxCount=\"3\"><Hook name=\"h\"/></Repeat></Sequence>"));
  UI ui;
  int n = 0;
  Hooks()["h"] = [&](const std::string&) { ++n; return n == 2 ? ExecutionStatus::FAILURE : ExecutionStatus::SUCCESS; };
  p->Setup();
  EXPECT(Run(*p, ui) == ExecutionStatus::FAILURE);
  EXPECT(n == 2);
  p->Reset(ui);
  EXPECT(Run(*p, ui) == ExecutionStatus::SUCCESS);
  EXPECT(n == 5);
  p->Reset(ui);
}
""",
"a repeat that is left before its last iteration (failure, halt) and executed again",
"the iterations of the earlier execution are counted in the later one: too few (or endless) repetitions")


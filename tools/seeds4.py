from mkseed import seed

seed("c02-named-outside-lock", "C02", "core",
[("named_callback_manager.h", """  for (const auto& cb_entry : cb_entries)
  {
    if (cb_entry.name == name)
    {
      cb_entry.cb(args...);
    }
  }
}""", """  for (std::size_t i = 0; i < cb_entries.size(); ++i)
  {
    if (cb_entries[i].name == name)
    {
      auto cb = cb_entries[i].cb;
      lk.unlock();
      cb(args...);
      lk.lock();
    }
  }
}"""),
("named_callback_manager.h", """const std::string& name, Args... args) const
{
  std::lock_guard<std::mutex> lk(mtx);""", """const std::string& name, Args... args) const
{
  std::unique_lock<std::mutex> lk(mtx);""")],
r"""
#include <sup/oac-tree/named_callback_manager.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
using namespace sup::oac_tree;
#define EXPECT(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); std::_Exit(1); } } while (0)
int main()
{
  NamedCallbackManager<int> m;
  int listener = 0;
  std::atomic<bool> in{false}, out{false};
  m.RegisterCallback("a", [&](int) { in = true; std::this_thread::sleep_for(std::chrono::milliseconds(300)); out = true; }, &listener);
  std::thread t([&] { m.ExecuteCallbacks("a", 1); });
  while (!in) std::this_thread::yield();
  m.UnregisterListener(&listener);
  bool ended = out;
  t.join();
  EXPECT(ended);
}
""",
"a listener is unregistered while its named callback is being delivered by another thread",
"unregistering returns although the callback is still running; deliveries overlap")

seed("c13-terminate-queued", "C13", "full",
[("runner/async_runner.cpp", """  m_command_queue.PriorityPush(JobCommand::kTerminate, terminate_func);""",
"""  terminate_func();
  m_command_queue.Push(JobCommand::kTerminate);""")],
r"""
#include "dh.h"
#include <sup/oac-tree/async_runner.h>
#include <sup/oac-tree/job_state_monitor.h>
struct Watch : public JobStateMonitor
{
  std::atomic<int> state{-1};
  std::atomic<bool> hold{false};
  void OnStateChange(JobState s) noexcept override
  {
    state = static_cast<int>(s);
    while (s == JobState::kHalted && hold) std::this_thread::sleep_for(std::chrono::milliseconds(5));
  }
  void OnBreakpointChange(const Instruction*, bool) noexcept override {}
  void OnProcedureTick(const Procedure&) override {}
};
int main()
{
  auto p = ParseProcedureString(Xml("<Wait timeout=\"15\" blocking=\"true\"/>"));
  UI ui;
  Watch mon;
  double t0 = 0;
  {
    AsyncRunner job{*p, ui, mon};
    mon.hold = true;
    job.Start();
    while (mon.state != static_cast<int>(JobState::kRunning)) std::this_thread::yield();
    job.Halt();
    while (mon.state != static_cast<int>(JobState::kHalted)) std::this_thread::yield();
    job.Reset();
    job.Start();
    std::thread t([&] { std::this_thread::sleep_for(std::chrono::milliseconds(300)); mon.hold = false; });
    t.detach();
    t0 = Secs();
  }
  EXPECT(Secs() - t0 < 8);
  p->Reset(ui);
}
""",
"a job is destroyed while a reset and a start are still queued and its procedure blocks",
"the queued commands run first and the destruction waits for the end of the blocking instruction")

seed("c21-member-prefix", "C21", "full",
[("instructions/add_member.cpp", "{ return (0 == name.compare(member_name)); };", "{ return (0 == name.compare(0, member_name.size(), member_name)); };")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml("<AddMember inputVar=\"a\" outputVar=\"s\" memberName=\"val\"/>",
    "<Local name=\"a\" type='{\"type\":\"int32\"}' value=\"3\"/>"
    "<Local name=\"s\" dynamicType=\"true\" type='{\"type\":\"\",\"attributes\":[{\"value\":{\"type\":\"int32\"}}]}' value='{\"value\":1}'/>"));
  UI ui;
  p->Setup();
  EXPECT(Run(*p, ui) == ExecutionStatus::SUCCESS);
  dto::AnyValue v;
  EXPECT(p->GetWorkspace().GetValue("s.val", v) && v == 3);
  p->Reset(ui);
}
""",
"a member is added whose name is the beginning of the name of an existing member",
"the instruction fails as if the member already existed")

seed("c25-choice-index-end", "C25", "asan",
[("instructions/choice.cpp", "    if (idx >= child_instructions.size())", "    if (idx > child_instructions.size())")],
r"""
#include "dh.h"
int main()
{
  for (int n = 1; n < 6; ++n)
  {
    std::string body = "<Choice varName=\"i\">";
    for (int k = 0; k < n; ++k) body += "<Succeed/>";
    auto p = ParseProcedureString(Xml(body + "</Choice>", "<Local name=\"i\" type='{\"type\":\"uint32\"}' value=\"" + std::to_string(n) + "\"/>"));
    UI ui;
    p->Setup();
    EXPECT(Run(*p, ui) == ExecutionStatus::FAILURE);
    p->Reset(ui);
  }
}
""",
"the selector of a Choice is exactly the number of its children",
"an element past the end of the list of children is used")

seed("c28-float32-parsed-as-float64", "C28", "full",
[("src/app/oac-tree-cli/cl_interface.cpp", 'parser_map["float32"] = ParserFunctionT<sup::dto::float32>;', 'parser_map["float32"] = ParserFunctionT<sup::dto::float64>;')],
r"""
#include "dh.h"
#include <cl_interface.cpp>
#include <sup/log/basic_logger.h>
#include <sstream>
int main()
{
  sup::log::BasicLogger logger([](int, const std::string&, const std::string&) {}, "demo", 0);
  std::istringstream in("1e300\n2.5\n");
  std::cin.rdbuf(in.rdbuf());
  for (int k = 0; k < 2; ++k)
  {
    CLInterface ui(logger);
    auto f = ui.RequestUserInput(CreateUserValueRequest(dto::AnyValue{dto::Float32Type}, "x"));
    EXPECT(f->WaitFor(10));
    auto [ok, v] = ParseUserValueReply(f->GetValue());
    EXPECT(ok == (k == 1));
    EXPECT(!ok || v.GetType() == dto::Float32Type);
  }
}
""",
"the user is asked for a float32 in the command-line interface",
"the value has another type than requested and values outside of the range of the type are accepted")

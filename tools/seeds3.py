from mkseed import seed

JOBINFO = r"""
#include "dh.h"
#include <sup/oac-tree/i_job_info_io.h>
#include <sup/oac-tree/local_job.h>
#include <sup/oac-tree/instruction_state.h>
struct IO : public IJobInfoIO
{
  std::mutex m;
  std::condition_variable cv;
  JobState state = JobState::kInitial;
  int choice = -1;
  std::vector<std::string> logs;
  void InitNumberOfInstructions(dto::uint32) override {}
  void InstructionStateUpdated(dto::uint32, InstructionState) override {}
  void VariableUpdated(dto::uint32, const dto::AnyValue&, bool) override {}
  void JobStateUpdated(JobState s) override { { std::lock_guard<std::mutex> lk(m); state = s; } cv.notify_all(); }
  void PutValue(const dto::AnyValue&, const std::string&) override {}
  bool GetUserValue(dto::uint64, dto::AnyValue&, const std::string&) override { return false; }
  int GetUserChoice(dto::uint64, const std::vector<std::string>&, const dto::AnyValue&) override { return choice; }
  void Interrupt(dto::uint64) override {}
  void Message(const std::string&) override {}
  void Log(int, const std::string& s) override { std::lock_guard<std::mutex> lk(m); logs.push_back(s); }
  void NextInstructionsUpdated(const std::vector<dto::uint32>&) override {}
  bool Wait(JobState s)
  {
    std::unique_lock<std::mutex> lk(m);
    return cv.wait_for(lk, std::chrono::seconds(10), [&] { return state == s; });
  }
};
"""

seed("c09-branches-left-on-failure", "C09", "full",
[("instructions/parallel_sequence.cpp", """  if (IsFinishedStatus(status))
  {
    Halt();""", """  if (status == ExecutionStatus::SUCCESS)
  {
    Halt();""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml(
    "<ParallelSequence><Wait timeout=\"40\" blocking=\"true\"/><Sequence><Wait timeout=\"0.1\"/><Fail/></Sequence></ParallelSequence>"));
  UI ui;
  p->Setup();
  const double t0 = Secs();
  EXPECT(Run(*p, ui) == ExecutionStatus::FAILURE);
  p->Reset(ui);
  EXPECT(Secs() - t0 < 20);
}
""",
"a parallel sequence that fails while another of its branches is inside a blocking instruction",
"the branch that is still running is not halted: resetting or ending the procedure hangs until it ends by itself")

seed("c11-branch-runs-past", "C11", "full",
[("instructions/async_wrapper.cpp", """    auto status_changed = UpdateStatus();
    if (!status_changed && NeedsExecute(m_status))""", """    (void)UpdateStatus();
    if (NeedsExecute(m_status))""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml(
    "<ParallelSequence><Sequence><Hook name=\"a\"/><Hook name=\"b\"/></Sequence></ParallelSequence>"));
  UI ui;
  Mon mon;
  std::atomic<int> ran{0};
  Hooks()["b"] = [&](const std::string&) { ++ran; return ExecutionStatus::SUCCESS; };
  AsyncRunner r{*p, ui, mon};
  r.SetBreakpoint(Find(*p, "b"));
  r.Start();
  EXPECT(mon.Wait(JobState::kPaused));
  EXPECT(ran == 0);
  r.Start();
  EXPECT(mon.Wait(JobState::kSucceeded));
  EXPECT(ran == 1);
}
""",
"a breakpoint on an instruction that is not the first of a branch of a parallel sequence",
"the branch goes on to its next instruction in the same tick, before the breakpoint can be seen: execution does not pause")

seed("c27-cancel-drops-later", "C27", "full",
[("base/async_input_adapter.cpp", """    m_request_queue.erase(request_it);
    return;""", """    m_request_queue.erase(request_it, m_request_queue.end());
    return;""")],
r"""
#include "dh.h"
#include <sup/oac-tree/async_input_adapter.h>
#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/i_user_input_future.h>
int main()
{
  std::atomic<bool> go{false};
  AsyncInputAdapter a{[&](const UserInputRequest&, dto::uint64) { while (!go) Msleep(1); return CreateUserChoiceReply(true, 1); },
                      [&](dto::uint64) {}};
  auto req = CreateUserChoiceRequest({"x", "y"}, dto::AnyValue{});
  auto f1 = a.AddUserInputRequest(req);
  Msleep(50);
  auto f2 = a.AddUserInputRequest(req);
  auto f3 = a.AddUserInputRequest(req);
  f2.reset();
  go = true;
  EXPECT(f1->WaitFor(10));
  EXPECT(f3->WaitFor(5));
}
""",
"three requests pending at once, of which the second is cancelled while the first is being answered",
"cancelling one request silently drops the later ones: they are never answered")

seed("c27-destroy-with-queue", "C27", "full",
[("base/async_input_adapter.cpp", """    if (m_current_id != 0)
    {
      m_interrupt_func(m_current_id);""", """    if (m_current_id != 0 && m_request_queue.empty())
    {
      m_interrupt_func(m_current_id);""")],
r"""
#include "dh.h"
#include <sup/oac-tree/async_input_adapter.h>
#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/i_user_input_future.h>
int main()
{
  std::atomic<bool> stop{false};
  const double t0 = Secs();
  {
    AsyncInputAdapter a{[&](const UserInputRequest&, dto::uint64) { while (!stop && Secs() - t0 < 20) Msleep(1); return CreateUserChoiceReply(true, 1); },
                        [&](dto::uint64) { stop = true; }};
    auto req = CreateUserChoiceRequest({"x", "y"}, dto::AnyValue{});
    auto f1 = a.AddUserInputRequest(req).release();
    Msleep(50);
    auto f2 = a.AddUserInputRequest(req).release();
    (void)f1; (void)f2;
  }
  EXPECT(stop);
  EXPECT(Secs() - t0 < 10);
}
""",
"the adapter is destroyed while one request is being answered and another is still queued",
"the request being answered is not interrupted, so the destruction hangs for as long as the user does not answer")

seed("c16-deadline-kept", "C16", "full",
[("instructions/wait_for_variables.cpp", """  m_finish = utils::GetNanosecsSinceEpoch() + timeout_ns;
""", """  if (m_finish == 0)
  {
    m_finish = utils::GetNanosecsSinceEpoch() + timeout_ns;
  }
"""), ("instructions/wait_for_variables.cpp", """  m_finish = 0;
  m_var_names.clear();""", """  m_var_names.clear();""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml(
    "<Sequence><WaitForVariables name=\"w\" varType=\"File\" timeout=\"0.4\"/></Sequence>", "<File name=\"v\" file=\"nothing_here.json\"/>"));
  UI ui;
  p->Setup();
  for (int i = 0; i < 2; ++i)
  {
    const double t0 = Secs();
    EXPECT(Run(*p, ui) == ExecutionStatus::FAILURE);
    EXPECT(Secs() - t0 > 0.3);
    p->Reset(ui);
  }
}
""",
"a procedure with WaitForVariables that is run again after a reset",
"the second run keeps the deadline of the first one, so it fails without waiting")

seed("c20-announced-before-written", "C20", "full",
[("variables/file_variable.cpp", """    sup::dto::AnyValueToJSONFile(value, filename, pretty_json);
    Notify(value, true);""", """    Notify(value, true);
    sup::dto::AnyValueToJSONFile(value, filename, pretty_json);""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml("<Succeed/>", "<File name=\"v\" file=\"no/such/dir/f.json\"/>"));
  p->Setup();
  auto& ws = p->GetWorkspace();
  int told = 0, x = 0;
  const_cast<Workspace&>(ws).RegisterCallback("v", [&](const dto::AnyValue&, bool connected) { told += connected; }, &x);
  EXPECT(!const_cast<Workspace&>(ws).SetValue("v", dto::AnyValue{dto::UnsignedInteger32Type, 3}));
  EXPECT(told == 0);
}
""",
"a write to a file variable that fails (its directory does not exist)",
"listeners are told a value that was never stored")

seed("c19-field-write-not-atomic", "C19", "full",
[("procedure/workspace.cpp", "#include <sup/dto/anytype_registry.h>\n", "#include <sup/dto/anytype_registry.h>\n#include <sup/dto/anyvalue_helper.h>\n"),
 ("procedure/workspace.cpp", """  return it->second->SetValue(value, fieldname);
""", """  sup::dto::AnyValue whole;
  if (fieldname.empty() || !it->second->GetValue(whole) || !whole.HasField(fieldname)
      || !sup::dto::TryAssign(whole[fieldname], value))
  {
    return it->second->SetValue(value, fieldname);
  }
  return it->second->SetValue(whole);
""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml("<Succeed/>",
    "<Local name=\"v\" type='{\"type\":\"s\",\"attributes\":[{\"a\":{\"type\":\"uint32\"}},{\"b\":{\"type\":\"uint32\"}}]}' value='{\"a\":0,\"b\":0}'/>"));
  p->Setup();
  auto& ws = const_cast<Workspace&>(p->GetWorkspace());
  std::atomic<int> lost{0};
  auto work = [&](std::string f)
  {
    for (dto::uint32 i = 1; i <= 20000; ++i)
    {
      EXPECT(ws.SetValue("v." + f, dto::AnyValue{dto::UnsignedInteger32Type, i}));
      dto::AnyValue r;
      EXPECT(ws.GetValue("v." + f, r));
      if (r.As<dto::uint32>() != i) ++lost;
    }
  };
  std::thread t1(work, "a"), t2(work, "b");
  t1.join();
  t2.join();
  EXPECT(lost == 0);
}
""",
"two threads that write different members of the same structured variable at the same time",
"one of the writes is lost: the other thread puts back the member's old value")

seed("c18-teardown-skipped", "C18", "full",
[("procedure/workspace.cpp", """    if (action.m_teardown && teardown_iter == teardown_identifiers.end())""",
"""    if (action.m_teardown && setup_iter == setup_identifiers.end())""")],
r"""
#include "dh.h"
#include <sup/oac-tree/setup_teardown_actions.h>
int setups, teardowns;
struct V : public Variable
{
  bool m_td;
  explicit V(bool td) : Variable("V"), m_td{td} {}
  bool GetValueImpl(dto::AnyValue&) const override { return false; }
  bool SetValueImpl(const dto::AnyValue&) override { return false; }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    if (m_td) return { "id", [] { ++setups; }, [] { ++teardowns; } };
    return { "id", [] { ++setups; }, {} };
  }
};
int main()
{
  Workspace ws;
  ws.AddVariable("a", std::make_unique<V>(false));
  ws.AddVariable("b", std::make_unique<V>(true));
  ws.Setup();
  EXPECT(setups == 1);
  ws.Teardown();
  EXPECT(teardowns == 1);
}
""",
"two variables that share a set-up identifier, of which only the later one brings a teardown action",
"the shared teardown action is never run")

seed("c24-empty-attribute-dropped", "C24", "full",
[("parser/procedure_to_treedata_utils.cpp", """  auto result = internal::make_unique<sup::xml::TreeData>(variable.GetType());
  for (const auto& [attr_name, attr_value] : variable.GetStringAttributes())
  {
""", """  auto result = internal::make_unique<sup::xml::TreeData>(variable.GetType());
  for (const auto& [attr_name, attr_value] : variable.GetStringAttributes())
  {
    if (attr_value.empty())
    {
      continue;
    }
""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml("<Succeed/>", "<Local name=\"v\" type='{\"type\":\"string\"}' value='\"\"' dynamicType=\"\"/>"));
  auto q = ParseProcedureString(GetXMLString(*p));
  auto a = p->GetWorkspace().GetVariable("v"), b = q->GetWorkspace().GetVariable("v");
  EXPECT(a->HasAttribute("dynamicType") && b->HasAttribute("dynamicType"));
  EXPECT(a->GetStringAttributes() == b->GetStringAttributes());
}
""",
"a workspace variable that has an attribute with an empty value",
"the attribute is lost when the procedure is written as XML and read back")

seed("c23-first-option-refused", "C23", "full",
[("runner/job_interface_adapter.cpp", """    if (choice < 0)""", """    if (choice <= 0)""")],
JOBINFO + r"""
int main()
{
  auto p = ParseProcedureString(Xml(
    "<UserChoice description=\"d\"><Hook name=\"a\" text=\"A\"/><Hook name=\"b\" text=\"B\"/></UserChoice>"));
  std::atomic<int> a{0}, b{0};
  Hooks()["a"] = [&](const std::string&) { ++a; return ExecutionStatus::SUCCESS; };
  Hooks()["b"] = [&](const std::string&) { ++b; return ExecutionStatus::SUCCESS; };
  IO io;
  io.choice = 0;
  LocalJob job{std::move(p), io};
  job.Start();
  EXPECT(io.Wait(JobState::kSucceeded));
  EXPECT(a == 1 && b == 0);
}
""",
"a job controlled through the job interface whose user picks the first option of a choice",
"the reply is taken for a refusal, so the choice fails instead of running the first option")

seed("c08-failed-init-unreported", "C08", "full",
[("instructions/instruction.cpp", """      SetStatus(ExecutionStatus::NOT_FINISHED);
    }
    ui.UpdateInstructionStatus(this);
  }""", """      SetStatus(ExecutionStatus::NOT_FINISHED);
      ui.UpdateInstructionStatus(this);
    }
  }""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml("<Fallback><Wait name=\"w\" timeout=\"-3\"/><Succeed/></Fallback>"));
  UI ui;
  p->Setup();
  EXPECT(Run(*p, ui) == ExecutionStatus::SUCCESS);
  EXPECT(ui.Count("w:FAILURE") + ui.Count("w:Failure") + ui.Count("w:failure") == 1 || ui.Count("w:" + StatusToString(ExecutionStatus::FAILURE)) == 1);
}
""",
"an instruction whose initialisation fails (a timeout outside the limits)",
"its change of status to failure is never reported to the user interface")

seed("c22-long-timeout-wraps", "C22", "full",
[("instructions/instruction_utils.cpp", """  timeout_ns = std::lround(timeout_sec * 1e9);""", """  const int whole_seconds = static_cast<int>(timeout_sec);
  const int ms = static_cast<int>(std::lround((timeout_sec - whole_seconds) * 1e3));
  timeout_ns = static_cast<sup::dto::uint32>(whole_seconds * 1000000000u) + ms * 1000000;""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml("<Wait timeout=\"5.0\"/>"));
  UI ui;
  p->Setup();
  const double t0 = Secs();
  EXPECT(Run(*p, ui) == ExecutionStatus::SUCCESS);
  EXPECT(Secs() - t0 > 4.9);
}
""",
"a timeout of more than about four seconds (or one with a fraction below a millisecond)",
"the timeout wraps around in 32 bits: the wait ends seconds too early")

seed("c15-outer-parameter-wins", "C15", "full",
[("instructions/include.cpp", """    if (!HasAttribute(attr_name))
    {
      result = AddAttribute(attr_name, attr_value) && result;
    }""", """    if (!HasAttribute(attr_name))
    {
      result = AddAttribute(attr_name, attr_value) && result;
    }
    else
    {
      result = SetAttribute(attr_name, attr_value) && result;
    }""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml(
    "<Sequence name=\"inner\"><Message text=\"$t\"/></Sequence>"
    "<Sequence name=\"mid\"><Include path=\"inner\" t=\"own\"/></Sequence>"
    "<Sequence isRoot=\"true\"><Include path=\"mid\" t=\"outer\"/></Sequence>"));
  UI ui;
  p->Setup();
  EXPECT(Run(*p, ui) == ExecutionStatus::SUCCESS);
  EXPECT(ui.msgs == std::vector<std::string>{"own"});
}
""",
"an Include inside an included tree that gives its own value to a parameter the outer Include also has",
"the outer value replaces the one written on the inner Include")

seed("c17-validation-stops-early", "C17", "full",
[("attributes/attribute_validator.cpp", """      continue;  // Don't validate attribute values referring to workspace variables""",
"""      break;  // Don't validate attribute values referring to workspace variables""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml("<WaitForVariable varName=\"v\" timeout=\"abc\"/>",
    "<Local name=\"v\" type='{\"type\":\"uint32\"}' value='1'/>"));
  bool thrown = false;
  try { p->Setup(); } catch (const std::exception&) { thrown = true; }
  EXPECT(thrown);
}
""",
"an attribute with an unparsable value written after one that refers to a workspace variable",
"the ill-formed attribute is accepted at set-up and only fails during execution")

seed("c26-conflicting-type-accepted", "C26", "full",
[("procedure/workspace.cpp", """    return anytype == m_type_registry->GetType(anytype.GetTypeName());""",
"""    return anytype.GetTypeCode() == m_type_registry->GetType(anytype.GetTypeName()).GetTypeCode();""")],
r"""
#include "dh.h"
int main()
{
  Workspace ws;
  dto::AnyType a({{"x", dto::UnsignedInteger32Type}}, "t"), b({{"y", dto::Float64Type}}, "t");
  EXPECT(ws.RegisterType(a));
  EXPECT(ws.RegisterType(a));
  EXPECT(!ws.RegisterType(b));
}
""",
"a second, different structure type registered under a name already in use",
"the conflicting registration is reported as accepted although the first definition stays in force")

seed("c29-choice-next-stuck", "C29", "full",
[("instructions/choice.cpp", """    if (ReadyForExecute(child_status))
    {
      result.push_back(instruction);
      return result;
    }
    break;""", """    if (ReadyForExecute(child_status))
    {
      result.push_back(m_instruction_list.front());
      return result;
    }
    break;""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml(
    "<Choice varName=\"sel\"><Hook name=\"a\"/><Hook name=\"b\"/></Choice>",
    "<Local name=\"sel\" type='{\"type\":\"arr\",\"element\":{\"type\":\"uint32\"}}' value='[1,0]'/>"));
  UI ui;
  p->Setup();
  std::string prev;
  for (int i = 0; i < 10 && !IsFinishedStatus(p->GetStatus()); ++i)
  {
    auto next = GetNextLeaves(*p);
    std::string ran;
    Hooks()["a"] = Hooks()["b"] = [&](const std::string& n) { ran = n; return ExecutionStatus::SUCCESS; };
    p->ExecuteSingle(ui);
    if (!ran.empty() && next.size() == 1 && next[0]->GetType() == "Hook") EXPECT(next[0]->GetName() == ran);
  }
}
""",
"a choice whose selector is an array with at least two different indices",
"after the first selected child has succeeded, that child is announced as the next instruction instead of the second one")

seed("c06-repeated-registration-dropped", "C06", "core",
[("procedure/procedure_preamble.cpp", """  m_type_registrations.push_back(info);""", """  if (!m_type_registrations.empty() && m_type_registrations.back().GetString() == info.GetString())
  {
    return;
  }
  m_type_registrations.push_back(info);""")],
r"""
#include <sup/oac-tree/procedure_preamble.h>
using namespace sup::oac_tree;
int main()
{
  ProcedurePreamble p;
  p.AddTypeRegistration({TypeRegistrationInfo::kJSONFile, "x"});
  p.AddTypeRegistration({TypeRegistrationInfo::kJSONString, "x"});
  auto v = p.GetTypeRegistrations();
  return v.size() == 2 && v[1].GetRegistrationMode() == TypeRegistrationInfo::kJSONString ? 0 : 1;
}
""",
"two consecutive type registrations with the same text",
"the second registration is lost, although it may be of another kind")

seed("c05-abbreviated-severity", "C05", "core",
[("base/log_severity.cpp", """  auto on_element = [&str](auto &element) { return str == element.second; };""",
"""  auto on_element = [&str](auto &element) {
    return !str.empty() && element.second.compare(0, str.size(), str) == 0;
  };""")],
r"""
#include <sup/oac-tree/log_severity.h>
using namespace sup::oac_tree;
int main()
{
  for (int s = 0; s < log::NUMBER_OF_LOG_LEVELS; ++s)
  {
    const auto name = log::SeverityString(s);
    if (log::GetSeverityFromString(name) != s) return 1;
    if (log::GetSeverityFromString(name.substr(0, name.size() - 1)) != log::NUMBER_OF_LOG_LEVELS) return 1;
  }
  return 0;
}
""",
"a severity name that is a proper prefix of a known one",
"text that is not a severity name is taken for one")

seed("c30-status-read-unlocked", "C30", "tsan",
[("instructions/instruction.cpp", """  std::lock_guard<std::mutex> lock(m_status_mutex);
  return m_status;""", """  return m_status;""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml(
    "<ParallelSequence><Sequence><Hook name=\"a\"/><Hook name=\"b\"/></Sequence><Sequence><Hook name=\"a\"/><Wait timeout=\"0.05\"/></Sequence></ParallelSequence>"));
  Hooks()["a"] = Hooks()["b"] = [](const std::string&) { Msleep(5); return ExecutionStatus::SUCCESS; };
  UI ui;
  p->Setup();
  std::atomic<bool> stop{false};
  std::thread t([&] { while (!stop) (void)Find(*p, "b")->GetStatus(); });
  for (int i = 0; i < 3; ++i)
  {
    EXPECT(Run(*p, ui) == ExecutionStatus::SUCCESS);
    p->Reset(ui);
  }
  stop = true;
  t.join();
}
""",
"a status that is read by one thread while the branch of a parallel sequence changes it in another",
"a data race on the status of an instruction")

seed("c14-breakpoint-forgets-status", "C14", "full",
[("runner/job_interface_adapter.cpp", """  instr_state.m_execution_status = status;
  m_job_info_io""", """  instr_state = InstructionState{ instr_state.m_breakpoint_set && !IsFinishedStatus(status), status };
  m_job_info_io""")],
JOBINFO.replace("void InstructionStateUpdated(dto::uint32, InstructionState) override {}",
 "std::map<dto::uint32, InstructionState> st;\n  void InstructionStateUpdated(dto::uint32 i, InstructionState s) override { std::lock_guard<std::mutex> lk(m); st[i] = s; }") + r"""
int main()
{
  auto p = ParseProcedureString(Xml("<Sequence><Hook name=\"a\"/><Hook name=\"b\"/></Sequence>"));
  IO io;
  LocalJob job{std::move(p), io};
  job.SetBreakpoint(2);
  job.Start();
  EXPECT(io.Wait(JobState::kPaused));
  job.Start();
  EXPECT(io.Wait(JobState::kSucceeded));
  { std::lock_guard<std::mutex> lk(io.m); EXPECT(io.st[2].m_breakpoint_set); }
}
""",
"a breakpoint on an instruction that then runs to its end",
"the observer is told that the breakpoint is gone although it is still in force")

from mkseed import seed

seed("c14-children-sorted", "C14", "full",
[("runner/instruction_info_utils.cpp", """      auto mem_names = children_av.MemberNames();
      for (const auto& mem_name : mem_names)""", """      auto mem_names = children_av.MemberNames();
      std::sort(mem_names.begin(), mem_names.end());
      for (const auto& mem_name : mem_names)""")],
r"""
#include "dh.h"
#include <sup/oac-tree/instruction_map.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/job_info_utils.h>
int main()
{
  std::string body = "<Sequence>";
  for (int k = 0; k < 12; ++k) body += "<Wait name=\"w" + std::to_string(k) + "\" timeout=\"0.1\"/>";
  auto p = ParseProcedureString(Xml(body + "</Sequence>"));
  p->Setup();
  InstructionMap map{p->RootInstruction()};
  auto info = utils::CreateJobInfo(*p, map);
  auto back = utils::ToJobInfo(utils::ToAnyValue(info));
  EXPECT(back == info);
  EXPECT(back.GetRootInstructionInfo()->Children()[2]->GetIndex() == info.GetRootInstructionInfo()->Children()[2]->GetIndex());
}
""",
"an instruction with more than ten children is described by a value and read back",
"the children come back in another order, so the observer attributes states to the wrong place of the tree")

seed("c31-stale-error", "C31", "full",
[("base/application_utils.cpp", """  std::unique_ptr<AsyncRunner> result;
  error_msg.clear();
""", """  std::unique_ptr<AsyncRunner> result;
"""),
("base/application_utils.cpp", """  error_msg.clear();
  if (!utils::FileExists(filename))""", """  if (!utils::FileExists(filename))""")],
r"""
#include "dh.h"
#include <sup/oac-tree/application_utils.h>
int main()
{
  std::string error;
  EXPECT(!utils::SafeParseProcedure("/nonexistent/file.xml", error));
  EXPECT(!error.empty());
  auto p = ParseProcedureString(Xml("<Wait/>"));
  UI ui;
  utils::SimpleJobStateMonitor mon;
  auto r = utils::CreateAsyncRunner(*p, ui, mon, error);
  EXPECT(r);
  EXPECT(error.empty());
}
""",
"an attempt fails, and the next one, which uses the same string for its error, succeeds",
"success is reported together with the error of the previous attempt")

seed("c16-choice-selection-kept", "C16", "full",
[("instructions/choice.cpp", """  m_instruction_list.clear();
  m_instruction_list_initialized = false;
  ResetChildren(ui);""", """  m_instruction_list.clear();
  ResetChildren(ui);""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml("<Choice varName=\"i\"><Fail/><Succeed/></Choice>", "<Local name=\"i\" type='{\"type\":\"uint32\"}' value=\"0\"/>"));
  UI ui;
  p->Setup();
  EXPECT(Run(*p, ui) == ExecutionStatus::FAILURE);
  p->Reset(ui);
  p->Setup();
  EXPECT(Run(*p, ui) == ExecutionStatus::FAILURE);
  p->Reset(ui);
}
""",
"a Choice is executed again after a reset",
"the second run selects nothing and succeeds without executing a child")

seed("c18-teardown-shared-identifier", "C18", "full",
[("procedure/workspace.cpp", "    if (action.m_teardown && teardown_iter == teardown_identifiers.end())", "    if (action.m_teardown && setup_iter == setup_identifiers.end() && teardown_iter == teardown_identifiers.end())")],
r"""
#include "dh.h"
static int downs = 0, ups = 0;
struct V : public Variable
{
  bool up, down;
  V(bool u, bool d) : Variable("V"), up(u), down(d) {}
  bool GetValueImpl(dto::AnyValue&) const override { return false; }
  bool SetValueImpl(const dto::AnyValue&) override { return false; }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    SetupTeardownActions a;
    a.m_identifier = "shared";
    if (up) a.m_setup = [] { ++ups; };
    if (down) a.m_teardown = [] { ++downs; };
    return a;
  }
};
int main()
{
  Workspace ws;
  ws.AddVariable("a", std::make_unique<V>(true, false));
  ws.AddVariable("b", std::make_unique<V>(true, true));
  ws.Setup();
  EXPECT(ups == 1);
  ws.Teardown();
  EXPECT(downs == 1);
}
""",
"two variables share an identifier and only the second has a teardown action",
"what the setup action acquired is never released")

seed("c22-once-available", "C22", "full",
[("instructions/wait_for_variables.cpp", """  auto now = utils::GetNanosecsSinceEpoch();
  if""", """  m_var_names = var_names;
  auto now = utils::GetNanosecsSinceEpoch();
  if""")],
r"""
#include "dh.h"
struct V : public Variable
{
  bool avail = false;
  V() : Variable("V") {}
  bool GetValueImpl(dto::AnyValue&) const override { return false; }
  bool SetValueImpl(const dto::AnyValue&) override { return false; }
  bool IsAvailableImpl() const override { return avail; }
};
int main()
{
  Procedure p;
  auto a = new V, b = new V;
  p.AddVariable("a", std::unique_ptr<Variable>(a));
  p.AddVariable("b", std::unique_ptr<Variable>(b));
  auto w = GlobalInstructionRegistry().Create("WaitForVariables");
  w->AddAttribute("timeout", "60");
  w->AddAttribute("varType", "V");
  p.PushInstruction(std::move(w));
  UI ui;
  p.Setup();
  a->avail = true;
  p.ExecuteSingle(ui);
  EXPECT(p.GetStatus() == ExecutionStatus::RUNNING);
  a->avail = false;
  b->avail = true;
  p.ExecuteSingle(ui);
  EXPECT(p.GetStatus() == ExecutionStatus::RUNNING);
  a->avail = true;
  p.ExecuteSingle(ui);
  EXPECT(p.GetStatus() == ExecutionStatus::SUCCESS);
  p.Reset(ui);
}
""",
"a variable becomes unavailable again while another one is still being waited for",
"WaitForVariables succeeds although not all variables are available")

seed("c09-failure-threshold-unbounded", "C09", "full",
[("instructions/parallel_sequence.cpp", """  m_failure_th = std::min(N, m_failure_th);
""", "")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml("<ParallelSequence failureThreshold=\"5\"><Fail/><Fail/></ParallelSequence>"));
  UI ui;
  p->Setup();
  EXPECT(Run(*p, ui, 3000) == ExecutionStatus::FAILURE);
  p->Reset(ui);
}
""",
"the failure threshold is larger than the number of branches and all of them fail",
"the parallel sequence never ends")

seed("c07-listen-one-change", "C07", "full",
[("instructions/listen.cpp", """    var_value = new_value;
    cache_changed = true;
""", """    var_value = new_value;
    cache_changed = true;
    break;
""")],
r"""
#include "dh.h"
int main()
{
  int runs = 0;
  Hooks()["h"] = [&](const std::string&) { ++runs; return ExecutionStatus::SUCCESS; };
  auto p = ParseProcedureString(Xml("<Listen varNames=\"a,b\"><Hook name=\"h\"/></Listen>",
    "<Local name=\"a\" type='{\"type\":\"int32\"}' value=\"1\"/><Local name=\"b\" type='{\"type\":\"int32\"}' value=\"2\"/>"));
  UI ui;
  p->Setup();
  for (int k = 0; k < 10; ++k) p->ExecuteSingle(ui);
  EXPECT(runs == 1);
  dto::AnyValue v{dto::SignedInteger32Type, 7};
  EXPECT(p->GetWorkspace().SetValue("a", v) && p->GetWorkspace().SetValue("b", v));
  for (int k = 0; k < 10; ++k) p->ExecuteSingle(ui);
  EXPECT(runs == 2);
  p->Reset(ui);
}
""",
"two variables change between two ticks of a Listen",
"the child is executed once per variable instead of once per change seen")

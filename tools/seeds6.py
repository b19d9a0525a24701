from mkseed import seed

seed("c12-flag-after-children", "C12", "full",
[("instructions/instruction.cpp", """  m_halt_requested.store(true);
  HaltImpl();""", """  HaltImpl();
  m_halt_requested.store(true);""")],
r"""
#include "dh.h"
struct Slow : public Instruction
{
  static const std::string Type;
  Slow() : Instruction(Type) {}
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override { return ExecutionStatus::SUCCESS; }
  void HaltImpl() override { Msleep(500); }
};
const std::string Slow::Type = "Slow";
struct Until : public Instruction
{
  static const std::string Type;
  Until() : Instruction(Type) {}
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    while (!IsHaltRequested()) Msleep(1);
    return ExecutionStatus::SUCCESS;
  }
};
const std::string Until::Type = "Until";
int main()
{
  RegisterGlobalInstruction<Slow>();
  RegisterGlobalInstruction<Until>();
  auto p = ParseProcedureString(Xml("<Repeat maxCount=\"-1\"><Sequence><Until/><Slow/></Sequence></Repeat>"));
  UI ui;
  Runner r(ui);
  r.SetProcedure(p.get());
  std::atomic<bool> done{false};
  std::thread t([&] { r.ExecuteProcedure(); done = true; });
  Msleep(100);
  p->Halt();
  for (int k = 0; k < 100 && !done; ++k) Msleep(100);
  EXPECT(done);
  t.join();
  p->Reset(ui);
}
""",
"a sibling of the instruction that waits in a loop takes some time to be told to halt, so the loop comes round while the halt is being passed down",
"the loop resets the instruction that was already told to halt and executes it again, and it never ends")

seed("c12-reset-forgets-branches", "C12", "full",
[("instructions/instruction.cpp", """  ResetHook(ui);
  m_status_before = GetStatus();
  SetStatus(ExecutionStatus::NOT_STARTED);
""", """  m_status_before = GetStatus();
  SetStatus(ExecutionStatus::NOT_STARTED);
  ResetHook(ui);
""")],
r"""
#include "dh.h"
int main()
{
  auto p = ParseProcedureString(Xml("<ParallelSequence><Wait timeout=\"40\" blocking=\"true\"/><Succeed/></ParallelSequence>"));
  UI ui;
  p->Setup();
  p->ExecuteSingle(ui);
  double t = Secs();
  p->Reset(ui);
  EXPECT(Secs() - t < 20);
}
""",
"a procedure is reset without a halt while a parallel branch is blocked",
"the reset does not halt the branch but waits for all of it")

seed("c26-type-file-relative-to-cwd", "C26", "full",
[("procedure/procedure.cpp", """    auto json_filename = GetFullPathName(GetFileDirectory(filename), info.GetString());
""", """    auto json_filename = info.GetString();
""")],
r"""
#include "dh.h"
#include <filesystem>
#include <fstream>
#include <cstdlib>
int main()
{
  char d[] = "/tmp/demoXXXXXX";
  EXPECT(mkdtemp(d) != nullptr);
  std::string dir = d;
  std::ofstream(dir + "/t.json") << "{\"type\":\"T\",\"attributes\":[{\"a\":{\"type\":\"int8\"}}]}";
  std::ofstream(dir + "/p.xml") << "<Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p\">"
    "<RegisterType jsonfile=\"t.json\"/><Succeed/><Workspace><Local name=\"v\" type='{\"type\":\"T\"}'/></Workspace></Procedure>";
  bool ok = true;
  try
  {
    auto p = ParseProcedureFile(dir + "/p.xml");
    p->Setup();
  }
  catch (const std::exception& e) { ok = false; }
  std::filesystem::remove_all(dir);
  EXPECT(ok);
}
""",
"a type is registered from a file given by a relative path by a procedure that is not in the working directory of the process",
"the type file is looked up in the working directory, so setup of a well-formed procedure fails or takes another file's type")

// helpers of the demonstrations
#pragma once
#include <sup/oac-tree/async_runner.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/instruction_tree.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/runner.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/workspace.h>
#include <sup/dto/anyvalue.h>
#include <sup/dto/anyvalue_helper.h>
#include <sup/dto/anytype_helper.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
using namespace sup::oac_tree;
namespace dto = sup::dto;
#define EXPECT(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); std::_Exit(1); } } while (0)
struct UI : public DefaultUserInterface
{
  std::mutex m;
  std::vector<std::string> status;   // "name:S"
  std::vector<std::string> logs, msgs;
  std::vector<std::pair<std::string, dto::AnyValue>> vars, puts;
  std::function<void(const Instruction*)> on_status;
  void UpdateInstructionStatus(const Instruction* i) override
  {
    {
      std::lock_guard<std::mutex> lk(m);
      status.push_back(i->GetName() + ":" + StatusToString(i->GetStatus()));
    }
    if (on_status) on_status(i);
  }
  void VariableUpdated(const std::string& n, const dto::AnyValue& v, bool) override
  {
    std::lock_guard<std::mutex> lk(m);
    vars.push_back({n, v});
  }
  bool PutValue(const dto::AnyValue& v, const std::string& d) override
  {
    std::lock_guard<std::mutex> lk(m);
    puts.push_back({d, v});
    return true;
  }
  void Message(const std::string& s) override { std::lock_guard<std::mutex> lk(m); msgs.push_back(s); }
  void Log(int, const std::string& s) override { std::lock_guard<std::mutex> lk(m); logs.push_back(s); }
  int Count(const std::string& s)
  {
    std::lock_guard<std::mutex> lk(m);
    int n = 0;
    for (auto& x : status) n += x == s;
    return n;
  }
};
struct Mon : public JobStateMonitor
{
  std::mutex m;
  std::condition_variable cv;
  std::vector<JobState> states;
  int ticks = 0;
  void OnStateChange(JobState s) noexcept override { { std::lock_guard<std::mutex> lk(m); states.push_back(s); } cv.notify_all(); }
  void OnBreakpointChange(const Instruction*, bool) noexcept override {}
  void OnProcedureTick(const Procedure&) override { { std::lock_guard<std::mutex> lk(m); ++ticks; } cv.notify_all(); }
  // waits until the latest state is s
  bool Wait(JobState s, double sec = 5)
  {
    std::unique_lock<std::mutex> lk(m);
    return cv.wait_for(lk, std::chrono::duration<double>(sec), [&] { return !states.empty() && states.back() == s; });
  }
  std::string Text()
  {
    std::lock_guard<std::mutex> lk(m);
    std::string r;
    for (auto s : states) r += ToString(s) + " ";
    return r;
  }
};
struct Hook;
void RegisterHook();
inline std::string Xml(const std::string& body, const std::string& ws = "", const std::string& attrs = "")
{
  RegisterHook();
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?><Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p\" "
         "xmlns:xs=\"http://www.w3.org/2001/XMLSchema-instance\" xs:schemaLocation=\"http://codac.iter.org/sup/oac-tree oac-tree.xsd\" "
         + attrs + ">" + body + "<Workspace>" + ws + "</Workspace></Procedure>";
}
inline ExecutionStatus Run(Procedure& p, UserInterface& ui, int max_ticks = 100000)
{
  for (int i = 0; i < max_ticks && !IsFinishedStatus(p.GetStatus()); ++i)
  {
    p.ExecuteSingle(ui);
    if (p.GetStatus() == ExecutionStatus::RUNNING) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  }
  return p.GetStatus();
}
inline void Msleep(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
inline double Secs()
{
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
// finds an instruction by its name
inline Instruction* Find(Procedure& p, const std::string& name)
{
  std::function<Instruction*(Instruction*)> f = [&](Instruction* i) -> Instruction*
  {
    if (i->GetName() == name) return i;
    for (auto c : i->ChildInstructions()) if (auto r = f(c)) return r;
    return nullptr;
  };
  return f(p.RootInstruction());
}
// an instruction that runs a function: <Hook name="..."/>
inline std::map<std::string, std::function<ExecutionStatus(const std::string&)>>& Hooks()
{
  static std::map<std::string, std::function<ExecutionStatus(const std::string&)>> h;
  return h;
}
struct Hook : public Instruction
{
  static const std::string Type;
  Hook() : Instruction(Type) {}
  ExecutionStatus ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    auto it = Hooks().find(GetName());
    return it == Hooks().end() ? ExecutionStatus::SUCCESS : it->second(GetName());
  }
};
const std::string Hook::Type = "Hook";

inline void RegisterHook() { static const bool done = RegisterGlobalInstruction<Hook>(); (void)done; }

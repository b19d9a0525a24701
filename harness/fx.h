// Fixtures for the monitors of the whole library: instrumented leaf instructions, recording user
// interfaces, procedure specifications and their random generation, and the reference interpreter.
#ifndef FX_H_
#define FX_H_

#include "hx.h"

#include <sup/oac-tree/async_runner.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/i_job_info_io.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/instruction_tree.h>
#include <sup/oac-tree/instruction_utils.h>
#include <sup/oac-tree/job_interface.h>
#include <sup/oac-tree/local_job.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/runner.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/workspace.h>

#include <sup/dto/anyvalue.h>
#include <sup/dto/anyvalue_helper.h>
#include <sup/dto/anytype_helper.h>

namespace fx
{
using namespace sup::oac_tree;
using ES = ExecutionStatus;

char StatusChar(ES s);   // '-' not started, 'N' not finished, 'R' running, 'S', 'F'
std::string Json(const sup::dto::AnyValue& v);   // type + value text, for comparison

// ---- recorded events ---------------------------------------------------------------------
enum class K
{
  kStatus,      // status reported to the user interface
  kVar,         // variable update reported
  kPut, kMsg, kLog, kInput,
  kEnter, kExit,      // an instrumented leaf is executing (real execution of its body)
  kInit, kHalt, kReset,   // hooks of an instrumented leaf
  kState, kBreak, kTick,  // job monitor
  kMark               // harness markers
};
struct Ev
{
  long seq = 0;
  double t = 0;              // seconds on the monotonic clock
  int tid = 0;
  K kind = K::kMark;
  const Instruction* instr = nullptr;
  std::string id;            // "id" attribute of a leaf
  ES st = ES::NOT_STARTED;
  int num = 0;               // severity, job state, ...
  bool flag = false;         // connected, breakpoint set
  std::string name, text;    // variable name, message, JSON of values
};
double Now();

class Trace
{
public:
  void Add(Ev e);
  std::vector<Ev> Get() const;
  std::vector<Ev> Of(K kind) const;
  long Size() const;
  void Clear();
private:
  mutable std::mutex m_mtx;
  std::vector<Ev> m_events;
  long m_seq = 0;
};
// The trace instrumented leaves report to (one at a time per process; nullptr to switch off).
void SetTrace(Trace* t);
Trace* GetTrace();

// ---- instrumented leaf "HxLeaf" ----------------------------------------------------------
// attributes: id; script: runs separated by '|', each a string of outcomes, one per execution:
//   N R S F   return that status
//   B         block until halted (polling), then FAILURE
//   T         throw (not used by default)
// the last run repeats for later runs, the last outcome for later executions of a run.
// initok: '1'/'0' per run, last repeats. us: maximal random duration of an execution.
// inc: variable incremented at every execution. show: variable whose value is recorded.
// gate: an execution waits until the gate of that name is open, or until it is halted (then FAILURE).
//
// ---- variable "HxVar": value and availability driven by the harness, like a network variable ----
// attributes: type, value (JSON), avail ("0" when it starts disconnected)
void DriveVar(const std::string& name, const sup::dto::AnyValue& value, bool available);   // an external update
void DriveAvail(const std::string& name, bool available);                                   // keeps the value
void RegisterFixtures();
void OpenGate(const std::string& name);
void CloseGates();

// ---- specification of instruction trees ---------------------------------------------------
struct Spec
{
  std::string type;
  std::vector<std::pair<std::string, std::string>> attrs;
  std::vector<Spec> ch;
  int id = 0;   // preorder number given by Number()
  std::string Attr(const std::string& n) const;
  bool Has(const std::string& n) const;
  Spec& Set(const std::string& n, const std::string& v);
};
Spec Leaf(const std::string& id, const std::string& script);
Spec Comp(const std::string& type, std::vector<Spec> ch);
int Number(Spec& s, int first = 0);             // preorder ids; returns the next free
std::unique_ptr<Instruction> Build(const Spec& s);
std::string ToText(const Spec& s);              // compact, for messages and distinctness
std::string ToXml(const Spec& s, int indent = 2);
std::string EscapeXml(const std::string& s);
// preorder instruction list of a built tree matches the ids of the spec
std::vector<Instruction*> Preorder(Instruction* root);
int CountNodes(const Spec& s);

struct VarSpec
{
  std::string type;   // Local, File
  std::string name;
  std::vector<std::pair<std::string, std::string>> attrs;
};
struct ProcSpec
{
  std::vector<Spec> roots;        // more than one: isRoot attribute set by the generator
  std::vector<VarSpec> vars;
  std::vector<std::pair<std::string, std::string>> attrs;
  std::vector<std::string> json_types;
};
VarSpec LocalVar(const std::string& name, const std::string& type, const std::string& value, bool dynamic = false);
std::unique_ptr<Procedure> BuildProc(const ProcSpec& p, const std::string& filename = "");
std::string ToXml(const ProcSpec& p);

// ---- user interfaces ---------------------------------------------------------------------
// Future with a reply available from a given time on (or never).
class ScriptedFuture : public IUserInputFuture
{
public:
  ScriptedFuture(UserInputReply reply, double ready_after_s, std::function<void()> on_destroy = {});
  ~ScriptedFuture();
  sup::dto::uint64 GetId() const override { return m_id; }
  bool IsValid() const override { return m_valid; }
  bool IsReady() const override;
  bool WaitFor(double seconds) const override;
  UserInputReply GetValue() override;
  bool m_valid = true;
private:
  UserInputReply m_reply;
  double m_ready_at;
  sup::dto::uint64 m_id;
  std::function<void()> m_on_destroy;
};

class RecUI : public JobInterface
{
public:
  RecUI();
  ~RecUI();
  void UpdateInstructionStatus(const Instruction* instruction) override;
  void VariableUpdated(const std::string& name, const sup::dto::AnyValue& value, bool connected) override;
  bool PutValue(const sup::dto::AnyValue& value, const std::string& description) override;
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& request) override;
  void Message(const std::string& message) override;
  void Log(int severity, const std::string& message) override;
  void OnStateChange(JobState state) noexcept override;
  void OnBreakpointChange(const Instruction* instruction, bool breakpoint_set) noexcept override;
  void OnProcedureTick(const Procedure& proc) override;

  Trace trace;
  std::function<std::unique_ptr<IUserInputFuture>(const UserInputRequest&)> on_input;
  std::function<void(const Procedure&)> on_tick;
  std::function<void(const Instruction*, ES)> on_status;
  std::function<void(JobState)> on_state;
  std::atomic<int> state{0};
  std::atomic<long> ticks{0};
  std::atomic<bool> alive{true};
  bool record_var = true;

  JobState State() const { return static_cast<JobState>(state.load()); }
  bool WaitState(std::function<bool(JobState)> pred, double seconds = 30.0);
  bool WaitFinished(double seconds = 30.0) { return WaitState([](JobState s) { return IsFinishedJobState(s); }, seconds); }
private:
  std::mutex m_mtx;
  std::condition_variable m_cv;
};

// Observer of a LocalJob: keeps what a remote client would know.
class RecJobIO : public IJobInfoIO
{
public:
  RecJobIO();
  ~RecJobIO();
  void InitNumberOfInstructions(sup::dto::uint32 n) override;
  void InstructionStateUpdated(sup::dto::uint32 idx, InstructionState st) override;
  void VariableUpdated(sup::dto::uint32 idx, const sup::dto::AnyValue& value, bool connected) override;
  void JobStateUpdated(JobState state) override;
  void PutValue(const sup::dto::AnyValue& value, const std::string& description) override;
  bool GetUserValue(sup::dto::uint64 id, sup::dto::AnyValue& value, const std::string& description) override;
  int GetUserChoice(sup::dto::uint64 id, const std::vector<std::string>& options, const sup::dto::AnyValue& metadata) override;
  void Interrupt(sup::dto::uint64 id) override;
  void Message(const std::string& message) override;
  void Log(int severity, const std::string& message) override;
  void NextInstructionsUpdated(const std::vector<sup::dto::uint32>& idx) override;

  // what the updates add up to
  struct Obs
  {
    long n_instr = -1;
    std::map<unsigned, InstructionState> instr;
    std::map<unsigned, std::pair<sup::dto::AnyValue, bool>> vars;
    std::vector<unsigned> next;
    JobState state = JobState::kInitial;
    long n_state = 0, n_instr_upd = 0, n_var_upd = 0, n_next = 0;
  };
  Obs Get() const;
  // instruction events carry num = index, name = statuses as text
  Trace trace;
  std::function<bool(sup::dto::uint64, sup::dto::AnyValue&, const std::string&)> on_value;
  std::function<int(sup::dto::uint64, const std::vector<std::string>&)> on_choice;
  std::function<int(sup::dto::uint64, const std::vector<std::string>&, const sup::dto::AnyValue&)> on_choice_full;
  std::function<void(sup::dto::uint64)> on_interrupt;
  std::function<void()> on_any;    // called for every notification
  std::atomic<bool> closed{false}; // set by the harness once no notification may arrive
  std::atomic<long> late{0};
  JobState State() const { return static_cast<JobState>(state.load()); }
  bool WaitState(std::function<bool(JobState)> pred, double seconds = 30.0);
  bool WaitFinished(double seconds = 30.0) { return WaitState([](JobState s) { return IsFinishedJobState(s); }, seconds); }
  std::atomic<int> state{0};
  bool keep_trace = true;
private:
  void Note(Ev e);
  mutable std::mutex m_mtx;
  std::condition_variable m_cv;
  Obs m_obs;
};

// ---- reference interpreter for trees without asynchronous instructions ---------------------
struct MEv
{
  char kind;       // 'S' status report, 'X' leaf execution, 'I' leaf initialisation
  int id;          // node
  ES st;
  std::string text;   // value shown by a leaf
};
struct ModelVars
{
  std::map<std::string, std::vector<long>> arrays;   // index arrays / int arrays
  std::map<std::string, long> scalars;
};
class Model
{
public:
  Model(const Spec& root, ModelVars vars);
  ~Model();
  void Tick();
  void Reset();
  ES Status() const;
  ES Status(int id) const;
  std::vector<int> Next() const;       // next tree, level by level, empty when not ready
  std::vector<int> NextLeaves() const;
  std::vector<MEv> TakeEvents();
  const ModelVars& Vars() const { return m_vars; }
  struct Node;
private:
  std::unique_ptr<Node> m_root;
  std::vector<Node*> m_nodes;
  std::vector<MEv> m_events;
  ModelVars m_vars;
  void Exec(Node& n);
  ES Impl(Node& n);
  bool Init(Node& n);
  void ResetNode(Node& n);
  std::vector<Node*> NextOf(const Node& n) const;
};

// ---- random trees --------------------------------------------------------------------------
struct GenOpt
{
  int max_nodes = 14;
  int max_depth = 4;
  bool reactive = true, choice = true, loops = true, decorators = true;
  bool init_failures = true;
  bool multi_run = true;        // scripts with several runs
  bool running = true;          // leaves may return RUNNING
  int us = 0;                   // leaf duration
  std::string id_prefix = "L";
  bool terminating = true;      // loops are bounded
  // not understood by the reference interpreter:
  bool parallel = false;        // ParallelSequence with thresholds, Async
  bool waits = false;           // short Wait instructions
  bool blocking = false;        // leaves that block until halted
};
// declares the variables its choices and loops use in p
Spec GenTree(hx::Rng& r, const GenOpt& o, ProcSpec& p, ModelVars& mv);
std::string GenScript(hx::Rng& r, const GenOpt& o, bool single_run = false);

}  // namespace fx

#endif

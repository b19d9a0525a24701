#include "fx.h"

#include <sup/dto/json_type_parser.h>

#include <algorithm>

namespace fx
{
using hx::Rng;

char StatusChar(ES s)
{
  switch (s)
  {
  case ES::NOT_STARTED: return '-';
  case ES::NOT_FINISHED: return 'N';
  case ES::RUNNING: return 'R';
  case ES::SUCCESS: return 'S';
  case ES::FAILURE: return 'F';
  }
  return '?';
}

std::string Json(const sup::dto::AnyValue& v)
{
  try
  {
    return sup::dto::AnyTypeToJSONString(v.GetType()) + "=" + sup::dto::ValuesToJSONString(v);
  }
  catch (const std::exception& e)
  {
    return std::string("<") + e.what() + ">";
  }
}

double Now()
{
  return std::chrono::duration<double>(hx::Clock::now().time_since_epoch()).count();
}

namespace
{
std::atomic<int> g_next_tid{1};
thread_local int t_tid = 0;
int Tid()
{
  if (t_tid == 0) t_tid = g_next_tid++;
  return t_tid;
}
std::atomic<Trace*> g_trace{nullptr};
}  // namespace

void Trace::Add(Ev e)
{
  e.tid = Tid();
  std::lock_guard<std::mutex> lk(m_mtx);
  e.t = Now();
  e.seq = ++m_seq;
  m_events.push_back(std::move(e));
}
std::vector<Ev> Trace::Get() const
{
  std::lock_guard<std::mutex> lk(m_mtx);
  return m_events;
}
std::vector<Ev> Trace::Of(K kind) const
{
  std::vector<Ev> out;
  std::lock_guard<std::mutex> lk(m_mtx);
  for (auto& e : m_events)
    if (e.kind == kind) out.push_back(e);
  return out;
}
long Trace::Size() const
{
  std::lock_guard<std::mutex> lk(m_mtx);
  return static_cast<long>(m_events.size());
}
void Trace::Clear()
{
  std::lock_guard<std::mutex> lk(m_mtx);
  m_events.clear();
}
void SetTrace(Trace* t) { g_trace.store(t); }
Trace* GetTrace() { return g_trace.load(); }

// ---- leaf ---------------------------------------------------------------------------------
namespace
{
void Report(K kind, const Instruction* i, const std::string& id, ES st = ES::NOT_STARTED, const std::string& text = {}, int num = 0)
{
  auto t = GetTrace();
  if (!t) return;
  Ev e;
  e.kind = kind;
  e.instr = i;
  e.id = id;
  e.st = st;
  e.text = text;
  e.num = num;
  t->Add(std::move(e));
}

std::mutex g_gate_mtx;
std::set<std::string> g_open_gates;
bool GateOpen(const std::string& n)
{
  std::lock_guard<std::mutex> lk(g_gate_mtx);
  return g_open_gates.count(n) > 0;
}

class HxLeaf : public Instruction
{
public:
  static const std::string Type;
  HxLeaf() : Instruction(Type)
  {
    AddAttributeDefinition("id");
    AddAttributeDefinition("script");
    AddAttributeDefinition("initok");
    AddAttributeDefinition("us", sup::dto::SignedInteger32Type);
    AddAttributeDefinition("inc");
    AddAttributeDefinition("show");
    AddAttributeDefinition("gate");
    AddAttributeDefinition("par").SetCategory(AttributeCategory::kBoth);
  }
  ~HxLeaf() override { m_dead.store(true); }

private:
  std::atomic<int> m_run{0};
  std::atomic<int> m_pos{0};
  std::atomic<int> m_inside{0};
  std::atomic<bool> m_dead{false};

  std::string Id() const { return GetAttributeString("id"); }
  std::vector<std::string> Runs() const
  {
    std::vector<std::string> runs(1);
    for (char c : GetAttributeString("script"))
      if (c == '|') runs.emplace_back();
      else runs.back() += c;
    if (runs[0].empty()) runs[0] = "S";
    return runs;
  }
  bool InitHook(UserInterface&, Workspace&) override
  {
    m_pos = 0;
    auto s = GetAttributeString("initok");
    bool ok = true;
    if (!s.empty()) ok = s[std::min<size_t>(static_cast<size_t>(m_run.load()), s.size() - 1)] != '0';
    Report(K::kInit, this, Id(), ES::NOT_STARTED, {}, ok);
    return ok;
  }
  ES ExecuteSingleImpl(UserInterface& ui, Workspace& ws) override
  {
    auto id = Id();
    std::string shown;
    auto show = GetAttributeString("show");
    if (!show.empty())
    {
      sup::dto::AnyValue v;
      shown = ws.GetValue(show, v) ? Json(v) : "<unreadable>";
    }
    if (HasAttribute("par"))
    {
      sup::dto::AnyValue v;
      shown += GetAttributeValue("par", ws, ui, v) ? " par:" + Json(v) : " par:<none>";
    }
    Report(K::kEnter, this, id, GetStatus(), shown, ++m_inside);
    auto runs = Runs();
    const auto& run = runs[std::min<size_t>(static_cast<size_t>(m_run.load()), runs.size() - 1)];
    char c = run.empty() ? 'S' : run[std::min<size_t>(static_cast<size_t>(m_pos++), run.size() - 1)];
    auto us = GetAttributeString("us");
    if (!us.empty())
    {
      int n = std::atoi(us.c_str());
      if (n > 0)
      {
        static thread_local Rng rng(hx::Opt().seed * 7919 + static_cast<uint64_t>(Tid()));
        auto d = rng.below(static_cast<uint64_t>(n) + 1);
        if (d < 3) std::this_thread::yield();
        else std::this_thread::sleep_for(std::chrono::microseconds(d));
      }
    }
    auto inc = GetAttributeString("inc");
    if (!inc.empty())
    {
      sup::dto::AnyValue v;
      if (ws.GetValue(inc, v))
      {
        auto n = v.As<sup::dto::int64>();
        ws.SetValue(inc, sup::dto::AnyValue{sup::dto::SignedInteger64Type, n + 1});
      }
    }
    auto gate = GetAttributeString("gate");
    if (!gate.empty())
      while (!GateOpen(gate))
      {
        if (IsHaltRequested())
        {
          c = 'F';
          break;
        }
        std::this_thread::sleep_for(std::chrono::microseconds(50));
      }
    ES result = ES::SUCCESS;
    switch (c)
    {
    case 'N': result = ES::NOT_FINISHED; break;
    case 'R': result = ES::RUNNING; break;
    case 'F': result = ES::FAILURE; break;
    case 'B':
      while (!IsHaltRequested()) std::this_thread::sleep_for(std::chrono::microseconds(200));
      result = ES::FAILURE;
      break;
    case 'T':
      --m_inside;
      Report(K::kExit, this, id, ES::FAILURE);
      throw RuntimeException("scripted failure");
    default: break;
    }
    --m_inside;
    Report(K::kExit, this, id, result);
    return result;
  }
  void HaltImpl() override { Report(K::kHalt, this, Id()); }
  void ResetHook(UserInterface&) override
  {
    Report(K::kReset, this, Id(), GetStatus(), {}, m_inside.load());
    if (GetStatus() != ES::NOT_STARTED) ++m_run;
    m_pos = 0;
  }
};
const std::string HxLeaf::Type = "HxLeaf";

class HxVar;
std::mutex g_var_mtx;
std::map<std::string, HxVar*> g_vars;

class HxVar : public Variable
{
public:
  static const std::string Type;
  HxVar() : Variable(Type)
  {
    AddAttributeDefinition("type", sup::dto::StringType).SetMandatory();
    AddAttributeDefinition("value", sup::dto::StringType);
    AddAttributeDefinition("avail", sup::dto::StringType);
  }
  ~HxVar() override
  {
    Forget();
    // somebody may be driving it
    while (m_users.load() > 0) std::this_thread::yield();
  }
  std::atomic<int> m_users{0};
  void Drive(const sup::dto::AnyValue* v, bool avail)
  {
    sup::dto::AnyValue copy;
    {
      std::lock_guard<std::mutex> lk(m_mtx);
      if (v) m_value = *v;
      m_avail = avail;
      copy = m_value;
    }
    Notify(copy, avail);
  }

private:
  mutable std::mutex m_mtx;
  sup::dto::AnyValue m_value;
  bool m_avail = true;

  void Forget()
  {
    std::lock_guard<std::mutex> lk(g_var_mtx);
    for (auto it = g_vars.begin(); it != g_vars.end();)
      it = it->second == this ? g_vars.erase(it) : std::next(it);
  }
  bool GetValueImpl(sup::dto::AnyValue& value) const override
  {
    std::lock_guard<std::mutex> lk(m_mtx);
    if (!m_avail || sup::dto::IsEmptyValue(m_value)) return false;
    value = m_value;
    return true;
  }
  bool SetValueImpl(const sup::dto::AnyValue& value) override
  {
    sup::dto::AnyValue copy;
    {
      std::lock_guard<std::mutex> lk(m_mtx);
      if (!m_avail) return false;
      sup::dto::AnyValue tmp(m_value);
      if (!sup::dto::TryConvert(tmp, value)) return false;
      m_value = tmp;
      copy = tmp;
    }
    Notify(copy, true);
    return true;
  }
  bool IsAvailableImpl() const override
  {
    std::lock_guard<std::mutex> lk(m_mtx);
    return m_avail;
  }
  SetupTeardownActions SetupImpl(const Workspace& ws) override
  {
    auto v = ParseAnyValueAttributePair(*this, "type", "value", ws.GetTypeRegistry());
    bool avail = GetAttributeString("avail") != "0";
    {
      std::lock_guard<std::mutex> lk(g_var_mtx);
      g_vars[GetName()] = this;
    }
    Drive(&v, avail);
    return {};
  }
  void TeardownImpl() override
  {
    Forget();
    std::lock_guard<std::mutex> lk(m_mtx);
    m_value = sup::dto::AnyValue{};
  }
};
const std::string HxVar::Type = "HxVar";
}  // namespace

void DriveVar(const std::string& name, const sup::dto::AnyValue& value, bool available)
{
  HxVar* v = nullptr;
  {
    std::lock_guard<std::mutex> lk(g_var_mtx);
    auto it = g_vars.find(name);
    if (it != g_vars.end()) {
      v = it->second;
      ++v->m_users;
    }
  }
  if (!v) return;
  v->Drive(&value, available);
  --v->m_users;
}
void DriveAvail(const std::string& name, bool available)
{
  HxVar* v = nullptr;
  {
    std::lock_guard<std::mutex> lk(g_var_mtx);
    auto it = g_vars.find(name);
    if (it != g_vars.end()) {
      v = it->second;
      ++v->m_users;
    }
  }
  if (!v) return;
  v->Drive(nullptr, available);
  --v->m_users;
}
void OpenGate(const std::string& name)
{
  std::lock_guard<std::mutex> lk(g_gate_mtx);
  g_open_gates.insert(name);
}
void CloseGates()
{
  std::lock_guard<std::mutex> lk(g_gate_mtx);
  g_open_gates.clear();
}
void RegisterFixtures()
{
  static std::once_flag once;
  std::call_once(once, [] {
    if (!GlobalInstructionRegistry().IsRegisteredInstructionName("HxLeaf"))
      RegisterInstruction<HxLeaf>(GlobalInstructionRegistry());
    if (!GlobalVariableRegistry().IsRegisteredVariableName("HxVar"))
      RegisterVariable<HxVar>(GlobalVariableRegistry());
  });
}

// ---- specs --------------------------------------------------------------------------------
std::string Spec::Attr(const std::string& n) const
{
  for (auto& [k, v] : attrs)
    if (k == n) return v;
  return {};
}
bool Spec::Has(const std::string& n) const
{
  for (auto& [k, v] : attrs)
    if (k == n) return true;
  return false;
}
Spec& Spec::Set(const std::string& n, const std::string& v)
{
  for (auto& [k, w] : attrs)
    if (k == n)
    {
      w = v;
      return *this;
    }
  attrs.emplace_back(n, v);
  return *this;
}
Spec Leaf(const std::string& id, const std::string& script)
{
  Spec s;
  s.type = "HxLeaf";
  s.attrs = {{"id", id}, {"script", script}};
  return s;
}
Spec Comp(const std::string& type, std::vector<Spec> ch)
{
  Spec s;
  s.type = type;
  s.ch = std::move(ch);
  return s;
}
int Number(Spec& s, int first)
{
  s.id = first++;
  for (auto& c : s.ch) first = Number(c, first);
  return first;
}
int CountNodes(const Spec& s)
{
  int n = 1;
  for (auto& c : s.ch) n += CountNodes(c);
  return n;
}
std::unique_ptr<Instruction> Build(const Spec& s)
{
  RegisterFixtures();
  auto i = GlobalInstructionRegistry().Create(s.type);
  for (auto& [k, v] : s.attrs) i->AddAttribute(k, v);
  int n = 0;
  for (auto& c : s.ch)
    if (!i->InsertInstruction(Build(c), n++)) throw std::logic_error("child refused by " + s.type);
  return i;
}
std::string ToText(const Spec& s)
{
  std::string t = s.type == "HxLeaf" ? "L" : s.type;
  if (!s.attrs.empty())
  {
    t += "[";
    bool first = true;
    for (auto& [k, v] : s.attrs)
    {
      if (!first) t += " ";
      first = false;
      t += (s.type == "HxLeaf" && (k == "id" || k == "script")) ? v : k + "=" + v;
    }
    t += "]";
  }
  if (!s.ch.empty())
  {
    t += "(";
    for (size_t k = 0; k < s.ch.size(); ++k) t += (k ? "," : "") + ToText(s.ch[k]);
    t += ")";
  }
  return t;
}
std::string EscapeXml(const std::string& s)
{
  std::string o;
  for (char c : s)
    switch (c)
    {
    case '&': o += "&amp;"; break;
    case '<': o += "&lt;"; break;
    case '>': o += "&gt;"; break;
    case '"': o += "&quot;"; break;
    case '\n': o += "&#10;"; break;
    case '\t': o += "&#9;"; break;
    case '\r': o += "&#13;"; break;
    default: o += c;
    }
  return o;
}
std::string ToXml(const Spec& s, int indent)
{
  std::string pad(static_cast<size_t>(indent), ' ');
  std::string o = pad + "<" + s.type;
  for (auto& [k, v] : s.attrs) o += " " + k + "=\"" + EscapeXml(v) + "\"";
  if (s.ch.empty()) return o + "/>\n";
  o += ">\n";
  for (auto& c : s.ch) o += ToXml(c, indent + 2);
  return o + pad + "</" + s.type + ">\n";
}
std::vector<Instruction*> Preorder(Instruction* root)
{
  std::vector<Instruction*> out;
  if (!root) return out;
  out.push_back(root);
  for (auto c : root->ChildInstructions())
  {
    auto sub = Preorder(c);
    out.insert(out.end(), sub.begin(), sub.end());
  }
  return out;
}

VarSpec LocalVar(const std::string& name, const std::string& type, const std::string& value, bool dynamic)
{
  VarSpec v;
  v.type = "Local";
  v.name = name;
  if (!type.empty()) v.attrs.emplace_back("type", type[0] == '{' ? type : "{\"type\":\"" + type + "\"}");
  if (!value.empty()) v.attrs.emplace_back("value", value);
  if (dynamic) v.attrs.emplace_back("dynamicType", "true");
  return v;
}
std::unique_ptr<Procedure> BuildProc(const ProcSpec& p, const std::string& filename)
{
  RegisterFixtures();
  auto proc = std::make_unique<Procedure>(filename);
  for (auto& [k, v] : p.attrs) proc->AddAttribute(k, v);
  for (auto& t : p.json_types) proc->GetPreamble().AddTypeRegistration({TypeRegistrationInfo::kJSONString, t});
  for (auto& v : p.vars)
  {
    auto var = GlobalVariableRegistry().Create(v.type);
    if (!v.name.empty()) var->SetName(v.name);
    for (auto& [k, w] : v.attrs) var->AddAttribute(k, w);
    if (!proc->AddVariable(v.name, std::move(var))) throw std::logic_error("variable refused: " + v.name);
  }
  for (auto& r : p.roots) proc->PushInstruction(Build(r));
  return proc;
}
std::string ToXml(const ProcSpec& p)
{
  std::string o = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Procedure version=\"1.0\" "
                  "xmlns=\"http://codac.iter.org/sup/oac-tree\"";
  for (auto& [k, v] : p.attrs) o += " " + k + "=\"" + EscapeXml(v) + "\"";
  o += ">\n";
  for (auto& t : p.json_types) o += "  <RegisterType jsontype=\"" + EscapeXml(t) + "\"/>\n";
  for (auto& r : p.roots) o += ToXml(r, 2);
  o += "  <Workspace>\n";
  for (auto& v : p.vars)
  {
    o += "    <" + v.type + " name=\"" + EscapeXml(v.name) + "\"";
    for (auto& [k, w] : v.attrs) o += " " + k + "=\"" + EscapeXml(w) + "\"";
    o += "/>\n";
  }
  o += "  </Workspace>\n</Procedure>\n";
  return o;
}

// ---- futures and interfaces ---------------------------------------------------------------
namespace { std::atomic<uint64_t> g_future_id{1}; }
ScriptedFuture::ScriptedFuture(UserInputReply reply, double ready_after_s, std::function<void()> on_destroy)
  : m_reply(std::move(reply)), m_ready_at(Now() + ready_after_s), m_id(g_future_id++), m_on_destroy(std::move(on_destroy))
{}
ScriptedFuture::~ScriptedFuture()
{
  if (m_on_destroy) m_on_destroy();
}
bool ScriptedFuture::IsReady() const { return Now() >= m_ready_at; }
bool ScriptedFuture::WaitFor(double seconds) const
{
  double end = Now() + seconds;
  while (!IsReady() && Now() < end)
    std::this_thread::sleep_for(std::chrono::duration<double>(std::min(0.0005, std::max(0.0, end - Now()))));
  return IsReady();
}
UserInputReply ScriptedFuture::GetValue()
{
  if (!IsReady()) throw InvalidOperationException("reply not ready");
  m_valid = false;
  return m_reply;
}

RecUI::RecUI() = default;
RecUI::~RecUI() { alive = false; }
void RecUI::UpdateInstructionStatus(const Instruction* i)
{
  Ev e;
  e.kind = K::kStatus;
  e.instr = i;
  e.st = i->GetStatus();
  auto st = e.st;
  trace.Add(std::move(e));
  if (on_status) on_status(i, st);
}
void RecUI::VariableUpdated(const std::string& name, const sup::dto::AnyValue& value, bool connected)
{
  if (!record_var) return;
  Ev e;
  e.kind = K::kVar;
  e.name = name;
  e.text = Json(value);
  e.flag = connected;
  trace.Add(std::move(e));
}
bool RecUI::PutValue(const sup::dto::AnyValue& value, const std::string& description)
{
  Ev e;
  e.kind = K::kPut;
  e.name = description;
  e.text = Json(value);
  trace.Add(std::move(e));
  return true;
}
std::unique_ptr<IUserInputFuture> RecUI::RequestUserInput(const UserInputRequest& request)
{
  Ev e;
  e.kind = K::kInput;
  e.num = static_cast<int>(request.m_request_type);
  trace.Add(std::move(e));
  if (on_input) return on_input(request);
  return std::make_unique<UnsupportedInputFuture>();
}
void RecUI::Message(const std::string& message)
{
  Ev e;
  e.kind = K::kMsg;
  e.text = message;
  trace.Add(std::move(e));
}
void RecUI::Log(int severity, const std::string& message)
{
  Ev e;
  e.kind = K::kLog;
  e.num = severity;
  e.text = message;
  trace.Add(std::move(e));
}
void RecUI::OnStateChange(JobState s) noexcept
{
  Ev e;
  e.kind = K::kState;
  e.num = static_cast<int>(s);
  trace.Add(std::move(e));
  if (on_state) on_state(s);
  {
    std::lock_guard<std::mutex> lk(m_mtx);
    state = static_cast<int>(s);
  }
  m_cv.notify_all();
}
void RecUI::OnBreakpointChange(const Instruction* i, bool set) noexcept
{
  Ev e;
  e.kind = K::kBreak;
  e.instr = i;
  e.flag = set;
  trace.Add(std::move(e));
}
void RecUI::OnProcedureTick(const Procedure& proc)
{
  Ev e;
  e.kind = K::kTick;
  e.st = proc.GetStatus();
  trace.Add(std::move(e));
  ++ticks;
  if (on_tick) on_tick(proc);
}
bool RecUI::WaitState(std::function<bool(JobState)> pred, double seconds)
{
  std::unique_lock<std::mutex> lk(m_mtx);
  return m_cv.wait_for(lk, std::chrono::duration<double>(seconds), [&] { return pred(State()); });
}

RecJobIO::RecJobIO() = default;
RecJobIO::~RecJobIO() { closed = true; }
void RecJobIO::Note(Ev e)
{
  if (closed) ++late;
  if (keep_trace) trace.Add(std::move(e));
  if (on_any) on_any();
}
void RecJobIO::InitNumberOfInstructions(sup::dto::uint32 n)
{
  Ev e;
  e.kind = K::kMark;
  e.num = static_cast<int>(n);
  Note(std::move(e));
  std::lock_guard<std::mutex> lk(m_mtx);
  m_obs.n_instr = n;
}
void RecJobIO::InstructionStateUpdated(sup::dto::uint32 idx, InstructionState st)
{
  Ev e;
  e.kind = K::kStatus;
  e.num = static_cast<int>(idx);
  e.st = st.m_execution_status;
  e.flag = st.m_breakpoint_set;
  Note(std::move(e));
  std::lock_guard<std::mutex> lk(m_mtx);
  m_obs.instr[idx] = st;
  ++m_obs.n_instr_upd;
}
void RecJobIO::VariableUpdated(sup::dto::uint32 idx, const sup::dto::AnyValue& value, bool connected)
{
  Ev e;
  e.kind = K::kVar;
  e.num = static_cast<int>(idx);
  e.text = Json(value);
  e.flag = connected;
  Note(std::move(e));
  std::lock_guard<std::mutex> lk(m_mtx);
  m_obs.vars[idx] = std::make_pair(value, connected);
  ++m_obs.n_var_upd;
}
void RecJobIO::JobStateUpdated(JobState s)
{
  Ev e;
  e.kind = K::kState;
  e.num = static_cast<int>(s);
  Note(std::move(e));
  {
    std::lock_guard<std::mutex> lk(m_mtx);
    m_obs.state = s;
    ++m_obs.n_state;
    state = static_cast<int>(s);
  }
  m_cv.notify_all();
}
void RecJobIO::PutValue(const sup::dto::AnyValue& value, const std::string& description)
{
  Ev e;
  e.kind = K::kPut;
  e.name = description;
  e.text = Json(value);
  Note(std::move(e));
}
bool RecJobIO::GetUserValue(sup::dto::uint64 id, sup::dto::AnyValue& value, const std::string& description)
{
  Ev e;
  e.kind = K::kInput;
  e.name = description;
  Note(std::move(e));
  return on_value ? on_value(id, value, description) : false;
}
int RecJobIO::GetUserChoice(sup::dto::uint64 id, const std::vector<std::string>& options, const sup::dto::AnyValue& metadata)
{
  Ev e;
  e.kind = K::kInput;
  e.num = static_cast<int>(options.size());
  Note(std::move(e));
  if (on_choice_full) return on_choice_full(id, options, metadata);
  return on_choice ? on_choice(id, options) : -1;
}
void RecJobIO::Interrupt(sup::dto::uint64 id)
{
  if (closed) ++late;
  if (on_interrupt) on_interrupt(id);
}
void RecJobIO::Message(const std::string& message)
{
  Ev e;
  e.kind = K::kMsg;
  e.text = message;
  Note(std::move(e));
}
void RecJobIO::Log(int severity, const std::string& message)
{
  Ev e;
  e.kind = K::kLog;
  e.num = severity;
  e.text = message;
  Note(std::move(e));
}
void RecJobIO::NextInstructionsUpdated(const std::vector<sup::dto::uint32>& idx)
{
  Ev e;
  e.kind = K::kTick;
  for (auto i : idx) e.text += std::to_string(i) + ",";
  Note(std::move(e));
  std::lock_guard<std::mutex> lk(m_mtx);
  m_obs.next.assign(idx.begin(), idx.end());
  ++m_obs.n_next;
}
RecJobIO::Obs RecJobIO::Get() const
{
  std::lock_guard<std::mutex> lk(m_mtx);
  return m_obs;
}
bool RecJobIO::WaitState(std::function<bool(JobState)> pred, double seconds)
{
  std::unique_lock<std::mutex> lk(m_mtx);
  return m_cv.wait_for(lk, std::chrono::duration<double>(seconds), [&] { return pred(State()); });
}

// ---- reference interpreter ------------------------------------------------------------------
struct Model::Node
{
  const Spec* spec = nullptr;
  int id = 0;
  std::string type;
  ES st = ES::NOT_STARTED;
  std::vector<std::unique_ptr<Node>> ch;
  // leaf
  std::vector<std::string> runs;
  size_t run = 0, pos = 0;
  // loops and choices
  long count = 0, max = 0;
  std::vector<long> arr;
  bool arr_ok = false;
  std::vector<Node*> list;
  bool list_done = false;
};

namespace
{
bool Fin(ES s) { return s == ES::SUCCESS || s == ES::FAILURE; }
std::unique_ptr<Model::Node> MakeNode(const Spec& s, std::vector<Model::Node*>& all)
{
  auto n = std::make_unique<Model::Node>();
  n->spec = &s;
  n->id = static_cast<int>(all.size());
  n->type = s.type;
  all.push_back(n.get());
  if (s.type == "HxLeaf")
  {
    n->runs.assign(1, "");
    for (char c : s.Attr("script"))
      if (c == '|') n->runs.emplace_back();
      else n->runs.back() += c;
    if (n->runs[0].empty()) n->runs[0] = "S";
  }
  for (auto& c : s.ch) n->ch.push_back(MakeNode(c, all));
  return n;
}
}  // namespace

Model::Model(const Spec& root, ModelVars vars) : m_vars(std::move(vars)) { m_root = MakeNode(root, m_nodes); }
Model::~Model() = default;
ES Model::Status() const { return m_root->st; }
ES Model::Status(int id) const { return m_nodes[static_cast<size_t>(id)]->st; }
std::vector<MEv> Model::TakeEvents()
{
  std::vector<MEv> e;
  std::swap(e, m_events);
  return e;
}
void Model::Tick() { Exec(*m_root); }
void Model::Reset() { ResetNode(*m_root); }

void Model::Exec(Node& n)
{
  if (n.st == ES::NOT_STARTED)
  {
    n.st = Init(n) ? ES::NOT_FINISHED : ES::FAILURE;
    m_events.push_back({'S', n.id, n.st, ""});
  }
  if (Fin(n.st)) return;
  auto before = n.st;
  n.st = Impl(n);
  if (n.st != before) m_events.push_back({'S', n.id, n.st, ""});
}
void Model::ResetNode(Node& n)
{
  for (auto& c : n.ch) ResetNode(*c);
  if (n.type == "HxLeaf")
  {
    if (n.st != ES::NOT_STARTED) ++n.run;
    n.pos = 0;
  }
  n.list.clear();
  n.list_done = false;
  if (n.st != ES::NOT_STARTED)
  {
    n.st = ES::NOT_STARTED;
    m_events.push_back({'S', n.id, n.st, ""});
  }
}
bool Model::Init(Node& n)
{
  if (n.type == "HxLeaf")
  {
    n.pos = 0;
    auto s = n.spec->Attr("initok");
    bool ok = s.empty() || s[std::min(n.run, s.size() - 1)] != '0';
    m_events.push_back({'I', n.id, ES::NOT_STARTED, ok ? "1" : "0"});
    return ok;
  }
  if (n.type == "Repeat")
  {
    n.count = 0;
    n.max = 0;
    auto a = n.spec->Attr("maxCount");
    if (!a.empty())
    {
      if (a[0] == '@')
      {
        auto it = m_vars.scalars.find(a.substr(1));
        if (it == m_vars.scalars.end()) return false;
        n.max = it->second;
      }
      else n.max = std::atol(a.c_str());
    }
    if (n.max < 0) n.max = -1;
  }
  if (n.type == "For")
  {
    n.count = 0;
    auto name = n.spec->Attr("arrayVar");
    n.arr_ok = m_vars.arrays.count(name) > 0;
    if (n.arr_ok) n.arr = m_vars.arrays.at(name);
    else if (!m_vars.scalars.count(name)) return false;
  }
  return true;
}
ES Model::Impl(Node& n)
{
  auto seq_status = [](const std::vector<Node*>& l, ES skip) {
    for (auto c : l)
    {
      if (c->st == skip) continue;
      if (c->st == ES::NOT_STARTED || c->st == ES::NOT_FINISHED) return ES::NOT_FINISHED;
      return c->st;
    }
    return skip;
  };
  std::vector<Node*> kids;
  for (auto& c : n.ch) kids.push_back(c.get());
  if (n.type == "HxLeaf")
  {
    std::string text;
    auto show = n.spec->Attr("show");
    if (!show.empty()) text = std::to_string(m_vars.scalars[show]);
    m_events.push_back({'X', n.id, n.st, text});
    auto& run = n.runs[std::min(n.run, n.runs.size() - 1)];
    char c = run.empty() ? 'S' : run[std::min(n.pos++, run.size() - 1)];
    auto inc = n.spec->Attr("inc");
    if (!inc.empty()) ++m_vars.scalars[inc];
    return c == 'N' ? ES::NOT_FINISHED : c == 'R' ? ES::RUNNING : c == 'F' ? ES::FAILURE : ES::SUCCESS;
  }
  if (n.type == "Succeed") return ES::SUCCESS;
  if (n.type == "Fail") return ES::FAILURE;
  if (n.type == "Sequence" || n.type == "Fallback" || n.type == "ReactiveSequence" || n.type == "ReactiveFallback")
  {
    bool fb = n.type.find("Fallback") != std::string::npos;
    bool reactive = n.type[0] == 'R';
    ES skip = fb ? ES::FAILURE : ES::SUCCESS;
    for (auto c : kids)
    {
      if (c->st == skip) continue;
      if (!Fin(c->st))
      {
        Exec(*c);
        if (reactive && c->st == ES::RUNNING)
        {
          for (auto o : kids)
            if (o != c) ResetNode(*o);
          return ES::RUNNING;
        }
        break;
      }
    }
    return seq_status(kids, skip);
  }
  if (n.type == "Choice")
  {
    if (n.list.empty() && !n.list_done)
    {
      n.list_done = true;
      auto name = n.spec->Attr("varName");
      std::vector<long> idx;
      if (m_vars.arrays.count(name)) idx = m_vars.arrays.at(name);
      else if (m_vars.scalars.count(name)) idx = {m_vars.scalars.at(name)};
      else return ES::FAILURE;
      std::vector<Node*> l;
      for (auto k : idx)
      {
        if (k < 0 || k >= static_cast<long>(kids.size())) return ES::FAILURE;
        l.push_back(kids[static_cast<size_t>(k)]);
      }
      n.list = l;
      return ES::NOT_FINISHED;
    }
    for (auto c : n.list)
    {
      if (c->st == ES::SUCCESS) continue;
      if (!Fin(c->st))
      {
        Exec(*c);
        break;
      }
    }
    return seq_status(n.list, ES::SUCCESS);
  }
  auto& c = *n.ch.at(0);
  if (n.type == "Inverter")
  {
    if (!Fin(c.st)) Exec(c);
    return c.st == ES::SUCCESS ? ES::FAILURE : c.st == ES::FAILURE ? ES::SUCCESS : c.st;
  }
  if (n.type == "ForceSuccess")
  {
    Exec(c);
    return c.st == ES::FAILURE ? ES::SUCCESS : c.st;
  }
  if (n.type == "Repeat" || n.type == "For")
  {
    if (n.type == "Repeat" && n.max == 0) return ES::SUCCESS;
    if (n.type == "For")
    {
      if (!n.arr_ok) return ES::FAILURE;
      n.max = static_cast<long>(n.arr.size());
      if (n.max == 0) return ES::SUCCESS;
      auto el = n.spec->Attr("elementVar");
      if (!m_vars.scalars.count(el)) return ES::FAILURE;
      m_vars.scalars[el] = n.arr[static_cast<size_t>(n.count)];
    }
    if (c.st == ES::SUCCESS) ResetNode(c);
    Exec(c);
    if (n.max > 0 && Fin(c.st)) ++n.count;
    if (c.st == ES::SUCCESS) return n.count == n.max ? ES::SUCCESS : ES::NOT_FINISHED;
    return c.st;
  }
  throw std::logic_error("model: unknown type " + n.type);
}
std::vector<Model::Node*> Model::NextOf(const Node& n) const
{
  std::vector<Node*> kids;
  for (auto& c : n.ch) kids.push_back(c.get());
  if (kids.empty()) return {};
  if (n.type == "Inverter" || n.type == "ForceSuccess" || n.type == "Repeat" || n.type == "For") return kids;
  if (n.type == "Choice") kids = n.list;
  ES skip = n.type.find("Fallback") != std::string::npos ? ES::FAILURE : ES::SUCCESS;
  for (auto c : kids)
  {
    if (c->st == skip) continue;
    if (c->st == ES::NOT_STARTED || c->st == ES::NOT_FINISHED) return {c};
    break;
  }
  return {};
}
std::vector<int> Model::Next() const
{
  std::vector<int> out;
  if (m_root->st != ES::NOT_STARTED && m_root->st != ES::NOT_FINISHED) return out;
  std::vector<const Node*> level{m_root.get()};
  while (!level.empty())
  {
    std::vector<const Node*> next;
    for (auto n : level)
    {
      out.push_back(n->id);
      for (auto c : NextOf(*n)) next.push_back(c);
    }
    level = next;
  }
  return out;
}
std::vector<int> Model::NextLeaves() const
{
  std::vector<int> out;
  if (m_root->st != ES::NOT_STARTED && m_root->st != ES::NOT_FINISHED) return out;
  std::vector<const Node*> level{m_root.get()};
  while (!level.empty())
  {
    std::vector<const Node*> next;
    for (auto n : level)
    {
      auto kids = NextOf(*n);
      if (kids.empty()) out.push_back(n->id);
      for (auto c : kids) next.push_back(c);
    }
    level = next;
  }
  return out;
}

// ---- random trees ---------------------------------------------------------------------------
std::string GenScript(Rng& r, const GenOpt& o, bool single_run)
{
  std::string s;
  int runs = (!single_run && o.multi_run && r.chance(1, 4)) ? r.range(2, 3) : 1;
  for (int k = 0; k < runs; ++k)
  {
    if (k) s += '|';
    int n = r.chance(2, 3) ? 0 : r.range(1, 3);
    for (int j = 0; j < n; ++j) s += (o.running && r.chance(1, 2)) ? 'R' : 'N';
    s += r.chance(2, 3) ? 'S' : 'F';
  }
  return s;
}
namespace
{
struct Gen
{
  Rng& r;
  const GenOpt& o;
  ProcSpec& p;
  ModelVars& mv;
  int leaves = 0;
  int vars = 0;
  int budget;
  long work = 1;   // product of loop counts on the path, to bound the length

  std::string NewVar(const std::string& base) { return base + std::to_string(p.vars.size()); }

  Spec MakeLeaf(const std::string& show)
  {
    if (r.chance(1, 14))
    {
      Spec s;
      s.type = r.chance(1, 2) ? "Succeed" : "Fail";
      return s;
    }
    if (o.waits && r.chance(1, 6))
    {
      Spec s;
      s.type = "Wait";
      s.Set("timeout", r.chance(1, 3) ? "0.0" : r.chance(1, 8) ? "5.0" : "0.002");
      return s;
    }
    auto s = fx::Leaf(o.id_prefix + std::to_string(leaves++), GenScript(r, o));
    if (o.blocking && r.chance(1, 10)) s.Set("script", r.chance(1, 2) ? "B" : "NB|S");
    if (o.init_failures && r.chance(1, 16)) s.Set("initok", r.chance(1, 2) ? "0" : r.chance(1, 2) ? "10" : "01");
    if (o.us > 0) s.Set("us", std::to_string(o.us));
    if (!show.empty() && r.chance(2, 3)) s.Set("show", show);
    return s;
  }
  Spec Make(int depth, const std::string& show)
  {
    --budget;
    if (depth >= o.max_depth || budget <= 0 || r.chance(1, 5)) return MakeLeaf(show);
    std::vector<std::string> types{"Sequence", "Sequence", "Fallback", "Fallback"};
    if (o.reactive) types.insert(types.end(), {"ReactiveSequence", "ReactiveFallback"});
    if (o.choice) types.insert(types.end(), {"Choice"});
    if (o.decorators) types.insert(types.end(), {"Inverter", "ForceSuccess"});
    if (o.parallel) types.insert(types.end(), {"ParallelSequence", "ParallelSequence", "Async"});
    if (o.loops && work < 10) types.insert(types.end(), {"Repeat", "For"});
    auto type = r.pick(types);
    Spec s;
    s.type = type;
    std::string inner = show;
    long old_work = work;
    if (type == "Repeat")
    {
      int n = r.chance(1, 12) ? 0 : r.range(1, 4);
      if (r.chance(1, 3))
      {
        auto v = NewVar("n");
        p.vars.push_back(LocalVar(v, r.chance(1, 2) ? "int32" : "uint8", std::to_string(n)));
        mv.scalars[v] = n;
        s.Set("maxCount", "@" + v);
      }
      else if (n || r.chance(1, 2)) s.Set("maxCount", std::to_string(n));
      work *= std::max(1, n);
    }
    if (type == "For")
    {
      int n = r.chance(1, 8) ? 0 : r.range(1, 4);
      auto a = NewVar("arr");
      std::vector<long> vals;
      std::string txt = "[";
      for (int k = 0; k < n; ++k)
      {
        vals.push_back(r.range(-50, 50));
        txt += (k ? "," : "") + std::to_string(vals.back());
      }
      txt += "]";
      p.vars.push_back(LocalVar(a, "{\"type\":\"\",\"element\":{\"type\":\"int32\"}}", txt));
      mv.arrays[a] = vals;
      auto e = NewVar("el");
      p.vars.push_back(LocalVar(e, "int32", "0"));
      mv.scalars[e] = 0;
      s.Set("arrayVar", a);
      s.Set("elementVar", e);
      inner = e;
      work *= std::max(1, n);
    }
    if (type == "ParallelSequence")
    {
      if (r.chance(1, 3)) s.Set("successThreshold", std::to_string(r.range(0, 4)));
      if (r.chance(1, 3)) s.Set("failureThreshold", std::to_string(r.range(1, 4)));
    }
    bool compound = type == "Choice" || type.find("Sequence") != std::string::npos || type.find("Fallback") != std::string::npos;
    int n = compound ? r.range(1, 4) : 1;
    for (int k = 0; k < n; ++k) s.ch.push_back(Make(depth + 1, inner));
    if (type == "Choice")
    {
      auto v = NewVar("c");
      if (r.chance(1, 2))
      {
        int idx = r.chance(1, 12) ? n : r.range(0, n - 1);
        p.vars.push_back(LocalVar(v, r.chance(1, 2) ? "uint32" : "int8", std::to_string(idx)));
        mv.scalars[v] = idx;
      }
      else
      {
        int m = r.range(0, 4);
        std::vector<long> idx;
        std::string txt = "[";
        for (int k = 0; k < m; ++k)
        {
          idx.push_back(r.chance(1, 30) ? n + r.range(0, 2) : r.range(0, n - 1));
          txt += (k ? "," : "") + std::to_string(idx.back());
        }
        txt += "]";
        p.vars.push_back(LocalVar(v, "{\"type\":\"\",\"element\":{\"type\":\"uint32\"}}", txt));
        mv.arrays[v] = idx;
      }
      s.Set("varName", v);
    }
    work = old_work;
    return s;
  }
};
}  // namespace

Spec GenTree(Rng& r, const GenOpt& o, ProcSpec& p, ModelVars& mv)
{
  Gen g{r, o, p, mv};
  g.budget = o.max_nodes;
  auto s = g.Make(0, "");
  if (s.type == "HxLeaf" || s.type == "Succeed" || s.type == "Fail")
    if (r.chance(9, 10)) s = Comp("Sequence", {s});
  Number(s);
  return s;
}

}  // namespace fx

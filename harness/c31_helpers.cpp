// Plugins, and the helpers applications are built with.
#include "full.h"

#include <sup/oac-tree/application_utils.h>
#include <sup/oac-tree/generic_utils.h>
#include <sup/oac-tree/async_runner.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/sequence_parser.h>

#include <cmath>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <limits>
#include <sys/stat.h>
#include <unistd.h>

using namespace fx;
using namespace hx;
namespace fs = std::filesystem;

namespace
{
// ---- plugins ---------------------------------------------------------------------------------
const char* const kInstruction = R"(
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/user_interface.h>
using namespace sup::oac_tree;
namespace
{
class Plug : public Instruction
{
public:
  static const std::string Type;
  Plug() : Instruction(Type) { AddAttributeDefinition("text").SetCategory(AttributeCategory::kBoth); }
private:
  ExecutionStatus ExecuteSingleImpl(UserInterface& ui, Workspace& ws) override
  {
    std::string text = "none";
    if (HasAttribute("text") && !GetAttributeValueAs("text", ws, ui, text)) return ExecutionStatus::FAILURE;
    ui.Message(Type + ":" + text);
    return ExecutionStatus::SUCCESS;
  }
};
const std::string Plug::Type = NAME;
bool registered = RegisterGlobalInstruction<Plug>();
}
)";
const char* const kVariable = R"(
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>
using namespace sup::oac_tree;
namespace
{
class Plug : public Variable
{
public:
  static const std::string Type;
  Plug() : Variable(Type) {}
private:
  sup::dto::AnyValue m_value{sup::dto::StringType, "from " NAME};
  bool GetValueImpl(sup::dto::AnyValue& value) const override { value = m_value; return true; }
  bool SetValueImpl(const sup::dto::AnyValue& value) override { m_value = value; return true; }
  SetupTeardownActions SetupImpl(const Workspace&) override { return {}; }
};
const std::string Plug::Type = NAME;
bool registered = RegisterGlobalVariable<Plug>();
}
)";
const char* const kBroken = "extern \"C\" int hx_no_such_function(); int value = hx_no_such_function(); \n";

struct Plugin
{
  std::string path, name;
  char kind;   // i, v, b
  bool loaded = false;
};

std::string Xml(const std::vector<std::string>& plugins, const std::string& body, const std::string& vars)
{
  std::string s = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"p\">";
  for (auto& p : plugins) s += "<Plugin>" + p + "</Plugin>";
  return s + "<Sequence>" + body + "</Sequence><Workspace>" + vars + "</Workspace></Procedure>";
}

void Plugins()
{
  Section s("plugins");
  if (!s.run) return;
  Rng r(Opt().seed * 127 + 1);
  auto cc = std::getenv("HX_PLUGIN_CC");
  if (cc == nullptr) cc = const_cast<char*>("");
  std::vector<Plugin> pl;
  std::string script = "cd '" + Opt().scratch + "' && ";
  const std::string kinds = "iiiiivvvb";
  for (size_t i = 0; i < kinds.size(); ++i)
  {
    Plugin p;
    p.kind = kinds[i];
    p.name = std::string(p.kind == 'v' ? "PlugVar" : "PlugIns") + std::to_string(i);
    p.path = Opt().scratch + "/libplug" + std::to_string(i) + ".so";
    std::ofstream(Opt().scratch + "/plug" + std::to_string(i) + ".cpp") << "#define NAME \"" << p.name << "\"\n" << (p.kind == 'i' ? kInstruction : p.kind == 'v' ? kVariable : kBroken);
    script += std::string(cc) + " -o '" + p.path + "' plug" + std::to_string(i) + ".cpp & ";
    pl.push_back(p);
  }
  script += "wait";
  if (std::system(("( " + script + " ) > '" + Opt().scratch + "/cc.log' 2>&1").c_str()) != 0) throw std::runtime_error("the plugins cannot be compiled");
  for (auto& p : pl)
    if (!fs::exists(p.path))
    {
      std::ifstream in(Opt().scratch + "/cc.log");
      std::stringstream log;
      log << in.rdbuf();
      throw std::runtime_error("plugin " + p.path + " cannot be compiled: " + log.str().substr(0, 2000));
    }
  Beat();
  auto known = [&](const Plugin& p) {
    return p.kind == 'v' ? GlobalVariableRegistry().IsRegisteredVariableName(p.name) : GlobalInstructionRegistry().IsRegisteredInstructionName(p.name);
  };
  long n = Scale(150, 8, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    std::vector<std::string> list;
    std::string body, vars, text;
    std::vector<std::string> want;
    bool ok = true;
    std::vector<Plugin*> order;
    for (auto& p : pl) order.push_back(&p);
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    int used = 0, max = r.range(1, 4);
    for (auto* p : order)
    {
      if (used == max) break;
      if (p->kind == 'b' && !r.chance(1, 2)) continue;
      ++used;
      bool named = r.chance(4, 5);
      if (named)
      {
        list.push_back(p->path);
        if (r.chance(1, 6)) list.push_back(p->path);
        // everything before a plugin that cannot be loaded is loaded
        if (ok && p->kind != 'b') p->loaded = true;
        if (p->kind == 'b') ok = false;
      }
    }
    // which of the types are then used
    for (auto* p : order)
    {
      if (!r.chance(1, 3) || p->kind == 'b') continue;
      if (!p->loaded && !r.chance(1, 6)) continue;
      if (!p->loaded) ok = false;
      if (p->kind == 'v') vars += "<" + p->name + " name=\"v" + p->name + "\"/>", body += "<Message text=\"@v" + p->name + "\"/>", want.push_back("from " + p->name);
      else
      {
        auto t = "t" + std::to_string(r.below(100));
        body += "<" + p->name + " text=\"" + t + "\"/>";
        want.push_back(p->name + ":" + t);
      }
    }
    if (body.empty()) body = "<Succeed/>";
    auto xml = Xml(list, body, vars);
    Case(xml);
    Eval();
    std::unique_ptr<Procedure> proc;
    std::string error;
    try
    {
      if (r.chance(1, 2)) proc = ParseProcedureString(xml);
      else
      {
        std::ofstream(Opt().scratch + "/plugged.xml") << xml;
        proc = ParseProcedureFile(Opt().scratch + "/plugged.xml");
      }
    }
    catch (const MessageException& e)
    {
      error = e.what();
    }
    HX_CHECK((proc != nullptr) == ok, "plugin:procedure", xml << (ok ? " is refused: " + error : " is accepted"));
    for (auto& p : pl) HX_CHECK(known(p) == p.loaded, "plugin:types", p.name << (p.loaded ? " is unknown after its plugin has been loaded" : " is known though its plugin has not been loaded") << ": " << xml);
    Count(ok ? "procedures with plugins" : "refused procedures");
    Distinct(xml);
    if (!proc || !ok) continue;
    HX_CHECK(proc->GetPreamble().GetPluginPaths() == list, "plugin:list", "the plugins of " << xml);
    RecUI ui;
    proc->Setup();
    for (int i = 0; i < 100 && proc->GetStatus() != ES::SUCCESS && proc->GetStatus() != ES::FAILURE; ++i) proc->ExecuteSingle(ui);
    std::vector<std::string> got;
    for (auto& e : ui.trace.Of(K::kMsg)) got.push_back(e.text);
    HX_CHECK(proc->GetStatus() == ES::SUCCESS && got == want, "plugin:execute", "the instructions of plugins have sent " << got.size() << " messages instead of " << want.size() << " or others: " << xml);
    // and through the text that describes it
    auto again = ParseProcedureString(GetXMLString(*proc));
    HX_CHECK(again && again->GetPreamble().GetPluginPaths() == list && again->RootInstruction()->ChildInstructions().size() == proc->RootInstruction()->ChildInstructions().size(), "plugin:text", "text of " << xml);
    proc->Reset(ui);
    Count("messages from plugins", static_cast<long>(got.size()));
  }
  // direct use
  for (int k = 0; k < 20; ++k)
  {
    auto& p = pl[r.below(pl.size())];
    utils::LibraryHandle h = nullptr;
    bool thrown = false;
    try { h = utils::LoadLibrary(p.path); }
    catch (const RuntimeException&) { thrown = true; }
    HX_CHECK(thrown == (p.kind == 'b') && (h != nullptr) == !thrown, "plugin:load", p.path << (thrown ? " is refused" : " is loaded"));
    // still used by the procedures that loaded it before
    if (h != nullptr && p.loaded) HX_CHECK(utils::UnloadLibrary(h) && known(p), "plugin:unload", "unloading " << p.path);
    if (h != nullptr) p.loaded = true;
    Eval();
  }
  for (auto lib : {"libm.so.6", "libz.so.1"})
  {
    auto h = utils::LoadLibrary(lib);
    HX_CHECK(h != nullptr && utils::UnloadLibrary(h), "plugin:unload", lib);
  }
}

// ---- folders and files -------------------------------------------------------------------------
std::map<std::string, char> Entries(const std::string& dir)
{
  std::map<std::string, char> m;
  for (auto& e : fs::recursive_directory_iterator(dir))
    m[e.path().string()] = e.is_symlink() ? 'l' : e.is_directory() ? 'd' : 'f';
  return m;
}
bool IsDir(const std::string& p)
{
  struct stat st{};
  return ::stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
}
void Folders()
{
  Section s("folders");
  if (!s.run) return;
  Rng r(Opt().seed * 131 + 3);
  const std::string base = Opt().scratch + "/folders";
  const std::string longest(255, 'n'), too_long(256, 'n');
  long n = Scale(3000, 10, 3);
  ::umask(022);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    fs::remove_all(base);
    fs::create_directories(base);
    // what is there
    for (int i = r.range(0, 4); i > 0; --i)
    {
      static const char* const names[] = {"a", "b", "a/b", "a/c", "b/a", "file", "a/file", "link", "broken", "flink"};
      std::string q = base + "/" + names[r.below(10)];
      std::error_code ec;
      if (q.find("flink") != std::string::npos) fs::create_symlink(base + "/file", q, ec);
      else if (q.find("file") != std::string::npos) { if (IsDir(fs::path(q).parent_path())) std::ofstream(q) << "content"; }
      else if (q.find("link") != std::string::npos) fs::create_symlink(base + "/a", q, ec);
      else if (q.find("broken") != std::string::npos) fs::create_symlink(base + "/nowhere/x", q, ec);
      else fs::create_directories(q, ec);
    }
    // what is asked for
    bool relative = r.chance(1, 4);
    std::string path = relative ? "" : base;
    std::vector<std::string> parts;
    for (int i = r.range(relative ? 1 : 0, 4); i > 0; --i)
    {
      static const char* const names[] = {"a", "b", "c", "a", "b", "d e", "file", "link", "broken", "flink", ".", "\xc3\xa9"};
      auto x = r.below(40);
      auto part = x == 0 ? longest : x == 1 ? too_long : std::string(names[r.below(12)]);
      parts.push_back(part);
      path += (path.empty() ? "" : r.chance(1, 8) ? "//" : "/") + part;
    }
    if (r.chance(1, 4)) path += r.chance(1, 3) ? "//" : "/";
    if (relative && ::chdir(base.c_str()) != 0) throw std::runtime_error("chdir");
    // what has to happen
    bool can = true;
    std::set<std::string> missing;
    std::string at = base;
    for (auto& p : parts)
    {
      at += "/" + p;
      struct stat st{};
      if (p.size() > 255) can = false;
      if (::lstat(at.c_str(), &st) == 0 || !missing.empty())
      {
        if (missing.empty()) { if (!IsDir(at)) can = false; }
        else if (p != ".") missing.insert(fs::path(at).lexically_normal().string());
        else { }
      }
      else missing.insert(fs::path(at).lexically_normal().string());
      if (!can) break;
    }
    auto before = Entries(base);
    unsigned mode = r.chance(1, 4) ? 0700 : r.chance(1, 3) ? 0777 : 0755;
    Case("create " + path);
    // a last component "." below something that is missing: the system decides
    bool dotted = std::find(parts.begin(), parts.end(), ".") != parts.end() && !missing.empty();
    bool ok = utils::CreateDir(path, mode);
    auto after = Entries(base);
    HX_CHECK(ok == IsDir(path), "folder:result", "creating " << path << " reports " << ok << ", it is " << (IsDir(path) ? "" : "not ") << "there");
    if (!dotted) HX_CHECK(ok == can, "folder:possible", "creating " << path << " reports " << ok);
    for (auto& e : before) HX_CHECK(after.count(e.first) && after[e.first] == e.second, "folder:others", "creating " << path << " has changed " << e.first);
    std::set<std::string> fresh;
    for (auto& e : after)
      if (!before.count(e.first))
      {
        fresh.insert(e.first);
        HX_CHECK(e.second == 'd', "folder:others", "creating " << path << " has created " << e.first);
      }
    // links in the path: compared by what the new folders are
    bool linked = path.find("link") != std::string::npos;
    if (ok && can && !linked && !dotted) HX_CHECK(fresh == missing, "folder:parents", "creating " << path << " has created " << fresh.size() << " folders instead of " << missing.size());
    if (ok && linked) HX_CHECK(fresh.size() == missing.size() || dotted, "folder:parents", "creating " << path << " has created " << fresh.size() << " folders instead of " << missing.size());
    if (ok && !fresh.empty())
    {
      struct stat st{};
      ::stat(path.c_str(), &st);
      if (missing.size() && !dotted) HX_CHECK((st.st_mode & 0777) == (mode & ~022u), "folder:mode", path << " has mode " << std::oct << (st.st_mode & 0777) << " instead of " << mode);
    }
    if (ok) HX_CHECK(utils::CreateDir(path, mode) && Entries(base) == after, "folder:again", "creating " << path << " a second time");
    if (relative && ::chdir(Opt().scratch.c_str()) != 0) throw std::runtime_error("chdir");
    // does a file exist
    for (auto& e : after)
    {
      int fd = ::open(e.first.c_str(), O_RDONLY);
      HX_CHECK(utils::FileExists(e.first) == (fd >= 0), "file:exists", e.first << " is reported as " << (fd >= 0 ? "missing" : "there"));
      if (fd >= 0) ::close(fd);
    }
    HX_CHECK(!utils::FileExists(base + "/nothing") && !utils::FileExists(""), "file:exists", "a missing file is there");
    Eval();
    Count(ok ? (missing.empty() ? "folders that were there" : "folders created") : "folders refused");
    std::string what;
    for (auto& e : before) what += e.first.substr(base.size()) + e.second;
    Distinct(what + path.substr(relative ? 0 : base.size()));
    if (k % 64 == 0) Beat();
  }
  HX_CHECK(!utils::CreateDir("") && utils::CreateDir("/") && utils::CreateDir("."), "folder:special", "");
  HX_CHECK(!utils::CreateDir("/proc/hx-none/x") && !utils::CreateDir("/dev/null/x"), "folder:special", "a folder where none can be");
}

// ---- the rest ------------------------------------------------------------------------------------
void Small()
{
  Section s("small");
  if (!s.run) return;
  Rng r(Opt().seed * 137 + 3);
  for (int k = 0; k < 300; ++k)
  {
    auto name = "HX_C31_" + std::to_string(r.below(5));
    std::string value(r.below(20), 'v');
    ::setenv(name.c_str(), value.c_str(), 1);
    HX_CHECK(utils::GetEnvironmentVariable(name) == value, "env", name << "=" << value);
    ::unsetenv(name.c_str());
    HX_CHECK(utils::GetEnvironmentVariable(name).empty(), "env", name << " is not set");
    auto ns = [] { return static_cast<unsigned long long>(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count()); };
    auto a = ns(), b = utils::GetNanosecsSinceEpoch(), c = ns();
    HX_CHECK(c < a || (a <= b && b <= c), "clock", a << " " << b << " " << c);
    Eval();
  }
  // files with and without a procedure
  long n = Scale(200, 8, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    FullOpt o;
    o.dir = Opt().scratch;
    o.max_nodes = r.range(1, 12);
    o.includes = false;
    auto p = GenFull(r, o);
    auto proc = BuildProc(p);
    auto text = GetXMLString(*proc);
    auto file = Opt().scratch + "/safe.xml";
    std::string message = "left over";
    int how = r.below(4);
    if (how == 0) text = text.substr(0, r.below(text.size() / 2));
    if (how == 1) text.replace(text.find("<Procedure"), 10, "<Proced");
    std::ofstream(file) << text;
    if (how == 2) file += ".none";
    Case(text);
    auto got = utils::SafeParseProcedure(file, message);
    HX_CHECK((got != nullptr) == (how == 3) && message.empty() == (how == 3), "safe:parse", "a " << (how == 3 ? "good" : "bad") << " file: " << (got ? "accepted" : "refused") << " with message '" << message << "'");
    Eval();
    Count(how == 3 ? "procedure files accepted" : "procedure files refused");
    if (!got) continue;
    RecUI ui;
    utils::SimpleJobStateMonitor mon;
    message = "left over";
    if (r.chance(1, 2))
    {
      auto bad = std::make_unique<Procedure>();
      bad->PushInstruction(GlobalInstructionRegistry().Create("Copy"));   // lacks its attributes
      std::unique_ptr<AsyncRunner> run = utils::CreateAsyncRunner(*bad, ui, mon, message);
      HX_CHECK(run == nullptr && !message.empty(), "safe:runner", "a runner for an ill-formed procedure");
      message = "left over";
    }
    auto run = utils::CreateAsyncRunner(*got, ui, mon, message);
    HX_CHECK(run != nullptr && message.empty(), "safe:runner", "no runner for a well-formed procedure: " << message);
  }
}

void Waiters()
{
  Section s("waiters");
  if (!s.run) return;
  Rng r(Opt().seed * 139 + 3);
  static const JobState all[] = {JobState::kInitial, JobState::kPaused, JobState::kStepping, JobState::kRunning, JobState::kSucceeded, JobState::kFailed, JobState::kHalted};
  long n = Scale(400, 8, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    utils::SimpleJobStateMonitor mon;
    HX_CHECK(mon.GetCurrentState() == JobState::kInitial, "monitor:initial", "");
    JobState last = all[4 + r.below(3)];
    JobState never = all[4 + r.below(3)];
    std::vector<JobState> seq;
    for (int i = r.range(0, 6); i > 0; --i) seq.push_back(all[1 + r.below(3)]);
    if (r.chance(1, 2)) PerturbOn(r.next(), 4, 100);
    std::vector<std::thread> th;
    std::atomic<int> ok{0}, wrong{0};
    int m = r.range(2, 10);
    std::vector<int> kinds;
    for (int i = 0; i < m; ++i) kinds.push_back(r.below(4));
    std::vector<double> waits;
    for (int i = 0; i < m; ++i) waits.push_back(0.001 * r.range(0, 30));
    for (int i = 0; i < m; ++i)
      th.emplace_back([&, i] {
        double t0 = Now();
        bool good = true;
        switch (kinds[i])
        {
        case 0: good = mon.WaitForFinished() == last; break;
        case 1: good = mon.WaitForState(last, 60.0); break;
        case 2: good = mon.WaitForState(last, std::numeric_limits<double>::infinity()); break;
        default:
          if (never == last) return;
          good = !mon.WaitForState(never, waits[i]) && Now() - t0 >= waits[i] - 1e-4;
        }
        (good ? ok : wrong).fetch_add(1, std::memory_order_relaxed);
      });
    for (auto x : seq)
    {
      if (r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(500)));
      mon.OnStateChange(x);
      HX_CHECK(mon.GetCurrentState() == x, "monitor:state", "");
    }
    if (r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    mon.OnStateChange(last);
    double t0 = Now();
    for (auto& t : th) t.join();
    double took = Now() - t0;
    HX_CHECK(wrong.load() == 0, "monitor:wait", wrong.load() << " of " << m << " waiting threads got a wrong answer");
    HX_CHECK(took < 30, "monitor:wake", m << " threads were released after " << took << " s");
    HX_CHECK(!mon.WaitForState(JobState::kRunning, 0.0) && mon.WaitForState(last, 0.0) && mon.WaitForFinished() == last, "monitor:wait", "afterwards");
    PerturbOff();
    Count("waiting threads", m);
    Eval();
    DistinctHash(InterleavingHash());
    Beat();
  }
}
}  // namespace

HX_MAIN([] {
  Rule("procedures with plugins, folders to create, files, waiting threads; distinct by text, path and what was there, interleaving");
  RegisterFixtures();
  Plugins();
  Folders();
  Small();
  Waiters();
})

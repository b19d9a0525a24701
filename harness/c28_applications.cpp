// The command-line and daemon applications: what is typed, what is printed, what is logged.
#include "full.h"

#include <cl_interface.h>
#include <daemon_interface.h>
#include <sup/dto/anyvalue_helper.h>
#include <sup/log/default_loggers.h>
#include <sup/oac-tree/log_severity.h>

#include <cmath>
#include <iostream>
#include <limits>
#include <regex>
#include <sstream>

int oac_tree_cli_main(int, char**);
int oac_tree_daemon_main(int, char**);

using namespace fx;
using namespace hx;
using sup::dto::AnyValue;

namespace
{
struct Line
{
  int severity;
  std::string source, message;
};
// the terminal: what is typed and what is shown
// like the standard output, it can be written to by several threads
struct OutBuf : std::streambuf
{
  mutable std::mutex m;
  std::string text;
  std::streamsize xsputn(const char* s, std::streamsize n) override
  {
    std::lock_guard<std::mutex> lk(m);
    text.append(s, static_cast<size_t>(n));
    return n;
  }
  int overflow(int c) override
  {
    if (c != EOF)
    {
      std::lock_guard<std::mutex> lk(m);
      text += static_cast<char>(c);
    }
    return c == EOF ? 0 : c;
  }
  std::string str() const
  {
    std::lock_guard<std::mutex> lk(m);
    return text;
  }
};
struct Terminal
{
  std::istringstream in;
  OutBuf out;
  std::streambuf *old_in, *old_out;
  explicit Terminal(const std::string& typed = "") : in(typed), old_in(std::cin.rdbuf(in.rdbuf())), old_out(std::cout.rdbuf(&out)) { std::cin.clear(); }
  ~Terminal()
  {
    std::cin.rdbuf(old_in);
    std::cout.rdbuf(old_out);
    std::cin.clear();
  }
};

enum class Verdict { kNo, kYes, kUnjudged };
// what a line denotes, worked out without the library
Verdict Denotes(const std::string& type, const std::string& line, AnyValue& v)
{
  using namespace sup::dto;
  static const std::regex ints("[ \t\v\f\r]*([+-]?)([0-9]+)[ \t\v\f\r]*");
  static const std::regex floats("[ \t\v\f\r]*([+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?)[ \t\v\f\r]*");
  static const std::regex bools("[ \t\v\f\r]*(true|false)[ \t\v\f\r]*");
  std::smatch m;
  if (type == "string")
  {
    v = AnyValue{StringType, line};
    return Verdict::kYes;
  }
  if (type == "bool")
  {
    if (!std::regex_match(line, m, bools)) return Verdict::kNo;
    v = AnyValue{m[1] == "true"};
    return Verdict::kYes;
  }
  if (type == "char8")
  {
    std::string t;
    for (char c : line)
      if (!isspace(static_cast<unsigned char>(c))) t += c;
    bool inner = line.find_last_not_of(" \t\v\f\r") != line.find_first_not_of(" \t\v\f\r");
    if (t.size() != 1 || inner) return Verdict::kNo;
    v = AnyValue{Character8Type, static_cast<char8>(t[0])};
    return Verdict::kYes;
  }
  if (type == "float32" || type == "float64")
  {
    if (!std::regex_match(line, m, floats)) return Verdict::kNo;
    std::string s = m[1];
    double d = std::strtod(s.c_str(), nullptr);
    float f = std::strtof(s.c_str(), nullptr);
    bool zero = s.find_first_of("123456789") == std::string::npos || s.find_first_of("123456789") > s.find_first_of("eE");
    if (type == "float32")
    {
      if (std::isinf(f)) return Verdict::kNo;
      if (!zero && std::fabs(f) < std::numeric_limits<float>::min()) return Verdict::kUnjudged;
      v = AnyValue{Float32Type, f};
    }
    else
    {
      if (std::isinf(d)) return Verdict::kNo;
      if (!zero && std::fabs(d) < std::numeric_limits<double>::min()) return Verdict::kUnjudged;
      v = AnyValue{Float64Type, d};
    }
    return Verdict::kYes;
  }
  if (!std::regex_match(line, m, ints)) return Verdict::kNo;
  bool neg = m[1] == "-";
  unsigned __int128 mag = 0;
  for (char c : m[2].str())
  {
    mag = mag * 10 + static_cast<unsigned>(c - '0');
    if (mag > (static_cast<unsigned __int128>(1) << 70)) mag = static_cast<unsigned __int128>(1) << 70;
  }
  int bits = std::atoi(type.c_str() + type.find("int") + 3);
  if (type[0] == 'u')
  {
    if (neg) return mag == 0 ? Verdict::kUnjudged : Verdict::kNo;
    if (mag > (static_cast<unsigned __int128>(1) << bits) - 1) return Verdict::kNo;
    v = AnyValue{UnsignedInteger64Type, static_cast<uint64>(mag)};
  }
  else
  {
    auto lim = static_cast<unsigned __int128>(1) << (bits - 1);
    if (mag > (neg ? lim : lim - 1)) return Verdict::kNo;
    v = AnyValue{SignedInteger64Type, neg ? static_cast<int64>(-static_cast<__int128>(mag)) : static_cast<int64>(mag)};
  }
  AnyValue t{sup::dto::AnyTypeFromJSONString("{\"type\":\"" + type + "\"}")};
  if (!TryConvert(t, v)) return Verdict::kNo;
  v = t;
  return Verdict::kYes;
}
const char* const kScalars[] = {"bool", "char8", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "string"};
std::string Typed(Rng& r)
{
  static const std::vector<std::string> whole{"", " ", "0", "1", "-1", "+1", "-0", "007", "12abc", "abc", "1 2", "true", "false", "True", "TRUE", "tru", "truex", "yes", "x", "1.5", "-1.5", "1.", ".5", ".", "1e3", "1e", "1e400", "1e-400", "1e39", "-1e39", "3.4e38", "0x10", "nan", "inf", "-inf", "1,000", "127", "128", "-128", "-129", "255", "256", "-255", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "-", "+", "--1", "+-1", "1-", "\xc3\xa9", "a", "\"1\"", "true false", "1\t", "\t 7", "7 \r", "0 0", "00", "1 -", "5-3", "- 5"};
  static const std::string alphabet = "0123456789+-.eE xtrufals\t";
  std::string s;
  if (r.chance(2, 3)) s = r.pick(whole);
  else
    for (int k = static_cast<int>(r.below(9)); k > 0; --k) s += alphabet[r.below(alphabet.size())];
  if (r.chance(1, 5)) s = " " + s;
  if (r.chance(1, 5)) s += " ";
  return s;
}
std::string ShowText(const std::string& s) { return "[" + s + "]"; }

struct Cli
{
  std::vector<Line> log;
  sup::log::BasicLogger logger;
  sup::oac_tree::CLInterface ui;
  explicit Cli(int severity) : logger([this](int s, const std::string& src, const std::string& m) { log.push_back({s, src, m}); }, "src", severity), ui(logger) {}
};
bool Answer(UserInterface& ui, const UserInputRequest& rq, UserInputReply& rep)
{
  auto f = ui.RequestUserInput(rq);
  if (!f || !f->IsValid() || !f->WaitFor(20)) return false;
  rep = f->GetValue();
  return true;
}

void Scalars()
{
  Section s("scalars");
  if (!s.run) return;
  Rng r(Opt().seed * 71 + 1);
  long n = Scale(60000, 12, 4);
  Cli cli(8);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    std::string type = kScalars[r.below(13)], line = Typed(r), desc = r.chance(1, 4) ? "" : "Question " + std::to_string(k);
    AnyValue init{sup::dto::AnyTypeFromJSONString("{\"type\":\"" + type + "\"}")}, want;
    auto ver = Denotes(type, line, want);
    cli.log.clear();
    Terminal t(line + "\n");
    UserInputReply rep;
    if (!HX_CHECK(Answer(cli.ui, CreateUserValueRequest(init, desc), rep), "cli:no-reply", type << " " << ShowText(line))) return;
    auto [ok, v] = ParseUserValueReply(rep);
    if (ver == Verdict::kUnjudged) continue;
    bool yes = ver == Verdict::kYes;
    HX_CHECK(ok == yes, yes ? "cli:refused" : "cli:accepted", "typing " << ShowText(line) << " for a " << type << (ok ? " is taken as " + Json(v) : " is refused"));
    if (ok && yes) HX_CHECK(v.GetType() == init.GetType() && Json(v) == Json(want), "cli:value", "typing " << ShowText(line) << " for a " << type << " gives " << Json(v) << " instead of " << Json(want));
    HX_CHECK(ok == cli.log.empty(), "cli:reported", "typing " << ShowText(line) << " for a " << type << ": " << cli.log.size() << " log lines");
    HX_CHECK(t.out.str().find(desc) == 0 && t.out.str().find(type) != std::string::npos, "cli:question", "asked " << t.out.str());
    Count(std::string(yes ? "accepted as " : "refused as ") + type);
    Eval();
    Distinct(type + ":" + line);
    if (k % 256 == 0) Beat();
  }
  // only scalars can be typed
  for (auto& v : {AnyValue{{"x", {sup::dto::SignedInteger32Type, 1}}}, AnyValue(3, sup::dto::BooleanType)})
  {
    Terminal t("1\n");
    UserInputReply rep;
    if (!HX_CHECK(Answer(cli.ui, CreateUserValueRequest(v, "d"), rep), "cli:no-reply", Json(v))) return;
    HX_CHECK(!ParseUserValueReply(rep).first, "cli:structured", Json(v));
    Eval();
  }
}

void Menu()
{
  Section s("menu");
  if (!s.run) return;
  Rng r(Opt().seed * 73 + 1);
  long n = Scale(30000, 12, 4);
  Cli cli(8);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    std::vector<std::string> opts;
    int c = r.range(0, 6);
    for (int i = 0; i < c; ++i) opts.push_back("option <" + std::to_string(r.below(100)) + ">");
    AnyValue meta = CreateUserChoiceMetadata();
    std::string text = r.chance(1, 2) ? "" : "Pick " + std::to_string(k);
    if (!text.empty() || r.chance(1, 2)) meta.AddMember("text", text);
    std::string line = r.chance(1, 2) ? std::to_string(r.range(-1, c + 2)) : Typed(r);
    AnyValue want;
    auto ver = Denotes("int32", line, want);
    int num = ver == Verdict::kYes ? want.As<int>() : -1;
    bool yes = ver == Verdict::kYes && num >= 1 && num <= c;
    cli.log.clear();
    Terminal t(line + "\n");
    UserInputReply rep;
    if (!HX_CHECK(Answer(cli.ui, CreateUserChoiceRequest(opts, meta), rep), "cli:no-reply", ShowText(line))) return;
    auto [ok, choice] = ParseUserChoiceReply(rep);
    auto out = t.out.str();
    HX_CHECK(ok == yes, yes ? "menu:refused" : "menu:accepted", "typing " << ShowText(line) << " with " << c << " options " << (ok ? "is taken as choice " + std::to_string(choice + 1) : "is refused"));
    if (ok && yes) HX_CHECK(choice == num - 1, "menu:choice", "typing " << ShowText(line) << " chooses " << choice + 1);
    HX_CHECK(ok == cli.log.empty(), "cli:reported", "typing " << ShowText(line) << " with " << c << " options: " << cli.log.size() << " log lines");
    std::istringstream lines(out);
    std::string l;
    std::getline(lines, l);
    HX_CHECK(text.empty() ? !l.empty() : l == text, "menu:text", out);
    for (int i = 0; i < c; ++i)
    {
      std::getline(lines, l);
      HX_CHECK(l == std::to_string(i + 1) + ": " + opts[i], "menu:options", out);
    }
    Count(yes ? "menu choices accepted" : "menu choices refused");
    Eval();
    Distinct(std::to_string(c) + ":" + line);
    if (k % 256 == 0) Beat();
  }
}

std::string AnyText(Rng& r)
{
  static const std::vector<std::string> p{"", "a", "text", " ", "\"", "'", "<b>", "&", "%s%n", "\\", "\xc3\xa9", "{}", "\n", std::string(500, 'z')};
  std::string s;
  for (int k = static_cast<int>(r.below(5)); k > 0; --k) s += r.pick(p);
  return s;
}
AnyValue AnyVal(Rng& r)
{
  switch (r.below(6))
  {
  case 0: return AnyValue{sup::dto::SignedInteger8Type, static_cast<sup::dto::int8>(r.range(-128, 127))};
  case 1: return AnyValue{sup::dto::StringType, AnyText(r)};
  case 2: return AnyValue{sup::dto::UnsignedInteger64Type, r.next()};
  case 3: return AnyValue{r.chance(1, 2)};
  case 4: return AnyValue{{"x", {sup::dto::Float64Type, r.range(-9, 9) / 2.0}}, {"s", {sup::dto::StringType, AnyText(r)}}};
  default: return AnyValue(r.below(4), sup::dto::UnsignedInteger16Type);
  }
}
void Shown()
{
  Section s("shown");
  if (!s.run) return;
  Rng r(Opt().seed * 79 + 1);
  long n = Scale(30000, 12, 4);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    int filter = r.range(-1, 9);
    std::vector<Line> dlog;
    sup::log::DefaultLogger dl([&](int sv, const std::string& src, const std::string& m) { dlog.push_back({sv, src, m}); }, "dsrc", filter);
    DaemonInterface daemon(dl);
    Cli cli(filter);
    Terminal t;
    auto text = AnyText(r);
    auto value = AnyVal(r);
    std::string want_out;
    std::vector<std::pair<int, std::string>> want_cli, want_daemon;   // text that has to be in the line
    switch (r.below(5))
    {
    case 0:
      cli.ui.Message(text);
      daemon.Message(text);
      want_out = text + "\n";
      want_daemon = {{6, "=" + text}};
      break;
    case 1:
    {
      int sev = r.chance(1, 6) ? r.range(-3, 15) : r.range(0, 8);
      cli.ui.Log(sev, text);
      daemon.Log(sev, text);
      if (sev >= 0 && sev <= 8)
      {
        want_cli = {{sev, "=" + text}};
        want_daemon = {{sev, "=" + text}};
      }
      else if (!cli.log.empty()) want_cli = {{sev, "=" + text}};   // no such severity: not judged
      break;
    }
    case 2:
    {
      bool ok = cli.ui.PutValue(value, text);
      HX_CHECK(ok && daemon.PutValue(value, text), "shown:status", "a value is not shown: " << Json(value));
      if (!text.empty()) want_out = text + "\n";
      want_out += sup::dto::PrintAnyValue(value) + "\n";
      want_daemon = {{6, text}, {6, sup::dto::ValuesToJSONString(value)}};
      break;
    }
    case 3:
    {
      bool con = r.chance(2, 3);
      auto nm = "var" + std::to_string(r.below(100));
      cli.ui.VariableUpdated(nm, value, con);
      daemon.VariableUpdated(nm, value, con);
      want_cli = {{6, nm}};
      if (con) want_cli.push_back({6, sup::dto::ValuesToJSONString(value)});
      dlog.clear();
      break;
    }
    default:
    {
      auto instr = GlobalInstructionRegistry().Create(r.chance(1, 2) ? "Message" : "Succeed");
      auto nm = "name" + std::to_string(r.below(100));
      instr->SetName(nm);
      cli.ui.UpdateInstructionStatus(instr.get());
      daemon.UpdateInstructionStatus(instr.get());
      for (auto& w : {instr->GetType(), nm, StatusToString(instr->GetStatus())})
      {
        want_cli.push_back({6, w});
        want_daemon.push_back({6, w});
      }
    }
    }
    HX_CHECK(t.out.str() == want_out, "shown:text", "shown " << ShowText(t.out.str()) << " instead of " << ShowText(want_out));
    auto judge = [&](const std::vector<Line>& got, const std::vector<std::pair<int, std::string>>& want, const char* who)
    {
      bool pass = !want.empty() && want[0].first <= filter;
      if (!HX_CHECK(got.size() == (pass ? 1u : 0u), "shown:filter", who << " logs " << got.size() << " lines at severity " << (want.empty() ? -99 : want[0].first) << " with filter " << filter)) return;
      if (!pass) return;
      HX_CHECK(got[0].severity == want[0].first, "shown:severity", who << " logs severity " << got[0].severity << " instead of " << want[0].first);
      for (auto& [sev, w] : want)
        HX_CHECK(w[0] == '=' && want.size() == 1 ? got[0].message == w.substr(1) : got[0].message.find(w) != std::string::npos, "shown:log", who << " logs " << ShowText(got[0].message) << " for " << ShowText(w));
    };
    judge(cli.log, want_cli, "the command-line interface");
    judge(dlog, want_daemon, "the daemon interface");
    Eval();
    Distinct(text + Json(value) + std::to_string(filter));
    if (k % 256 == 0) Beat();
  }
  // the daemon has nobody to ask
  std::vector<Line> dlog;
  sup::log::DefaultLogger dl([&](int sv, const std::string& src, const std::string& m) { dlog.push_back({sv, src, m}); }, "dsrc", 8);
  DaemonInterface daemon(dl);
  for (auto rq : {CreateUserValueRequest(AnyValue{true}, "d"), CreateUserChoiceRequest({"a", "b"}, CreateUserChoiceMetadata())})
  {
    dlog.clear();
    auto f = daemon.RequestUserInput(rq);
    HX_CHECK(f && !f->IsValid(), "daemon:input", "the daemon accepts a request for input");
    HX_CHECK(dlog.size() == 1 && dlog[0].severity <= 4, "daemon:input-log", dlog.size() << " lines");
    Eval();
  }
}

struct Ran
{
  int rc;
  std::string out, syslog;
};
Ran RunApp(int (*app)(int, char**), std::vector<std::string> args, const std::string& typed = "")
{
  auto log = Opt().scratch + "/syslog";
  std::remove(log.c_str());
  setenv("STANDIN_SYSLOG_FILE", log.c_str(), 1);
  args.insert(args.begin(), "app");
  std::vector<char*> argv;
  for (auto& a : args) argv.push_back(a.data());
  argv.push_back(nullptr);
  Ran res;
  {
    Terminal t(typed);
    res.rc = app(static_cast<int>(args.size()), argv.data());
    res.out = t.out.str();
  }
  std::ifstream f(log);
  if (f) res.syslog.assign(std::istreambuf_iterator<char>(f), {});
  unsetenv("STANDIN_SYSLOG_FILE");
  return res;
}
void Programs()
{
  Section s("programs");
  if (!s.run) return;
  static const char* const lower[] = {"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace"};
  Rng r(Opt().seed * 83 + 1);
  long n = Scale(2500, 10, 4);
  auto file = Opt().scratch + "/p.xml";
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    std::string body;
    std::vector<std::pair<int, std::string>> logs;
    std::vector<std::string> shown;
    bool fails = r.chance(1, 3);
    std::string typed;
    int asks = 0;
    bool daemon_app = r.chance(1, 2);
    for (int x = r.range(1, 6); x > 0; --x)
    {
      auto mark = "mark" + std::to_string(k) + "-" + std::to_string(x);
      switch (r.below(4))
      {
      case 0:
        body += "<Message text=\"" + mark + "\"/>";
        shown.push_back(mark);
        break;
      case 1:
        body += "<Output fromVar=\"v\" description=\"" + mark + "\"/>";
        shown.push_back(mark);
        break;
      case 2:
      {
        int sev = r.range(0, 8);
        body += std::string("<Log severity=\"") + lower[sev] + "\" message=\"" + mark + "\"/>";
        logs.emplace_back(sev, mark);
        break;
      }
      default:
        if (daemon_app) break;
        body += "<Input outputVar=\"v\" description=\"" + mark + "\"/><Equals leftVar=\"v\" rightVar=\"w" + std::to_string(x % 3) + "\"/>";
        typed += std::to_string(x % 3) + "\n";
        shown.push_back(mark);
        ++asks;
      }
    }
    body += fails ? "<Fail/>" : "<Succeed/>";
    int defect = r.chance(1, 4) ? r.range(1, 4) : 0;
    std::string ws = "<Workspace>";
    for (int i = 0; i < 3; ++i) ws += "<Local name=\"w" + std::to_string(i) + "\" type='{\"type\":\"int32\"}' value=\"" + std::to_string(i) + "\"/>";
    ws += "<Local name=\"v\" type='{\"type\":\"int32\"}' value=\"5\"/></Workspace>";
    if (defect == 1) body += "<NoSuchInstruction/>";
    if (defect == 2) body += "<Message/>";
    std::string xml = "<?xml version=\"1.0\"?><Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\" version=\"1.0\" name=\"t\" tickTimeout=\"0.001\"><Sequence>" + body + "</Sequence>" + ws + "</Procedure>";
    if (defect == 3) xml.resize(xml.size() - 5);
    WriteFile(file, xml);
    int level = r.range(0, 8);
    std::vector<std::string> args{r.chance(1, 2) ? "-f" : "--file", defect == 4 ? file + ".none" : file};
    bool deflt = r.chance(1, 5);
    if (deflt) level = 4;
    else
    {
      args.push_back(r.chance(1, 2) ? "-v" : "--verbose");
      args.push_back(sup::oac_tree::log::SeverityString(level));
    }
    bool validate = !daemon_app && r.chance(1, 4);
    if (validate) args.push_back(r.chance(1, 2) ? "-V" : "--validate");
    Case(xml);
    auto res = RunApp(daemon_app ? oac_tree_daemon_main : oac_tree_cli_main, args, typed);
    auto& text = daemon_app ? res.syslog : res.out;
    std::string who = daemon_app ? "daemon: " : "command line: ";
    HX_CHECK((res.rc == 0) == (defect == 0), "program:exit", who << "exit " << res.rc << " defect " << defect << "\n" << xml << "\n" << text);
    bool runs = !defect && !validate;
    size_t at = 0;
    for (auto& m : shown)
    {
      bool wanted = runs && (!daemon_app || level >= 6);
      auto p = text.find(m, at);
      HX_CHECK((p != std::string::npos) == wanted, "program:shown", who << m << (wanted ? " is not shown" : " is shown") << "\n" << xml << "\n" << text);
      if (p != std::string::npos) at = p;
    }
    for (auto& [sev, m] : logs)
    {
      bool wanted = runs && sev <= level;
      HX_CHECK((text.find(m) != std::string::npos) == wanted, "program:logged", who << m << " of severity " << sev << (wanted ? " is not logged" : " is logged") << " at level " << level << "\n" << xml << "\n" << text);
    }
    bool end_shown = !daemon_app || level >= 6;
    auto end = std::string("Procedure ended with state: ") + ToString(fails ? JobState::kFailed : JobState::kSucceeded);
    HX_CHECK((text.find(end) != std::string::npos) == (runs && end_shown), "program:end", who << "defect " << defect << " fails " << fails << "\n" << xml << "\n" << text);
    if (defect && (level >= 3)) HX_CHECK(!text.empty(), "program:error", who << "nothing is reported\n" << xml);
    Count(daemon_app ? "daemon runs" : validate ? "command-line validations" : "command-line runs");
    if (defect) Count("defective procedures");
    Count("questions answered on the command line", runs ? asks : 0);
    Eval();
    Distinct(xml);
    if (k % 50 == 0) Sample(xml);
    Beat();
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("typed lines, shown texts and runs of the applications; distinct by input");
    RegisterFixtures();
    Scalars();
    Menu();
    Shown();
    Programs();
  })

// Random exchanges between a procedure and its user: what each side sends is what the other receives.
#include "full.h"

#include <limits>

using namespace fx;
using namespace hx;
using sup::dto::AnyValue;

namespace
{
const char* const kSeverity[] = {"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace"};

std::string RandomText(Rng& r)
{
  static const std::vector<std::string> pieces{"", "a", "text", " ", "\n", "\t", "\"", "'", "<b>", "&amp;", "%s%n%d", "\\", "\xc3\xa9\xe2\x82\xac", "@", "{}", "[1]", "0", "$(x)", ";", std::string(300, 'x'), "\x01"};
  std::string s;
  for (int k = static_cast<int>(r.below(6)); k > 0; --k) s += r.pick(pieces);
  if (!s.empty() && s[0] == '@') s = "_" + s;
  if (r.chance(1, 200)) s += std::string(70000, 'y');
  return s;
}
AnyValue RandomValue(Rng& r)
{
  using namespace sup::dto;
  switch (r.below(9))
  {
  case 0: return AnyValue{SignedInteger32Type, r.range(-1000, 1000)};
  case 1: return AnyValue{UnsignedInteger64Type, std::numeric_limits<uint64>::max() - r.below(3)};
  case 2: return AnyValue{SignedInteger8Type, static_cast<int8>(r.range(-128, 127))};
  case 3: return AnyValue{Float64Type, r.range(-8, 8) / 4.0};
  case 4: return AnyValue{r.chance(1, 2)};
  case 5: return AnyValue{StringType, RandomText(r)};
  case 6: return AnyValue{{"x", {SignedInteger32Type, r.range(-9, 9)}}, {"s", {StringType, RandomText(r)}}};
  case 7:
  {
    AnyValue a(static_cast<size_t>(r.below(4)), UnsignedInteger8Type);
    for (size_t i = 0; i < a.NumberOfElements(); ++i) a[i].ConvertFrom(AnyValue{UnsignedInteger8Type, static_cast<uint8>(r.below(256))});
    return a;
  }
  default: return AnyValue{SignedInteger64Type, std::numeric_limits<int64>::min() + static_cast<int64>(r.below(3))};
  }
}
std::string State(const Workspace& ws)
{
  std::string s;
  for (auto& n : ws.VariableNames())
  {
    AnyValue v;
    s += n + "=" + (ws.GetValue(n, v) ? Json(v) : "none") + "\n";
  }
  return s;
}

struct Step
{
  Spec sp;
  bool ask = false;
  bool dead = false;                // fails before the user is asked
  AnyValue reply_value;
  int reply_choice = 0;
  int reply_kind = 0;               // 0 as asked, 1 declined, 2 of the other kind (direct interface only)
  double delay = 0;
  bool refuse = false;              // the interface refuses the output
  AnyValue want_value;              // what the user has to be shown
  std::string want_description;
  std::vector<std::string> want_options;
  sup::dto::uint32 want_dialog = 1;
  std::vector<std::string> want;    // tokens exchanged ("LOG *": any message)
  ES end = ES::SUCCESS;
};
class DirectUI : public RecUI
{
public:
  std::function<bool()> refuse;
  bool PutValue(const AnyValue& v, const std::string& d) override
  {
    RecUI::PutValue(v, d);
    return !(refuse && refuse());
  }
};
std::string Token(const Ev& e)
{
  switch (e.kind)
  {
  case K::kPut: return "PUT " + e.name + " | " + e.text;
  case K::kMsg: return "MSG " + e.text;
  case K::kLog: return "LOG " + std::to_string(e.num) + " " + e.text;
  case K::kInput: return "ASK";
  default: return "";
  }
}

void Exchanges()
{
  Section s("exchanges");
  if (!s.run) return;
  Rng r(Opt().seed * 53 + 1);
  long n = Scale(2500, 10, 4);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    bool job = r.chance(1, 3);
    std::vector<std::pair<std::string, AnyValue>> vars;
    std::vector<std::string> texts;   // string variables
    for (int i = 0; i < 6; ++i) vars.emplace_back("v" + std::to_string(i), RandomValue(r));
    for (int i = 0; i < 3; ++i)
    {
      auto nm = "t" + std::to_string(i);
      vars.emplace_back(nm, AnyValue{sup::dto::StringType, RandomText(r)});
      texts.push_back(nm);
    }
    vars.emplace_back("st", AnyValue{{"x", {sup::dto::SignedInteger32Type, 4}}, {"s", {sup::dto::StringType, RandomText(r)}}});
    Workspace ref;
    ProcSpec p;
    std::vector<bool> dyn;
    for (auto& [nm, v] : vars) dyn.push_back(r.chance(1, 4));
    auto declare = [&](Workspace& w)
    {
      int i = 0;
      for (auto& [nm, v] : vars)
      {
        auto x = GlobalVariableRegistry().Create("Local");
        x->SetName(nm);
        x->AddAttribute("type", sup::dto::AnyTypeToJSONString(v.GetType()));
        x->AddAttribute("value", sup::dto::ValuesToJSONString(v));
        if (dyn[i++]) x->AddAttribute("dynamicType", "true");
        w.AddVariable(nm, std::move(x));
      }
      auto x = GlobalVariableRegistry().Create("Local");
      x->SetName("em");
      w.AddVariable("em", std::move(x));
    };
    declare(ref);
    ref.Setup();
    std::vector<std::string> names{"st", "st.x", "st.s", "em", "none", "st.none"};
    for (int i = 0; i < 6; ++i)
      for (int j = 0; j < 2; ++j) names.push_back("v" + std::to_string(i));
    // an attribute text, fixed or from a variable: false if it cannot be had
    auto attr = [&](Spec& sp, const std::string& name, std::string& text)
    {
      if (r.chance(1, 3))
      {
        auto from = r.chance(1, 14) ? "none" : r.chance(1, 5) ? "st.s" : r.pick(texts);
        sp.Set(name, "@" + from);
        AnyValue v;
        if (!ref.GetValue(from, v) || v.GetType() != sup::dto::StringType) return false;
        text = v.As<std::string>();
        return true;
      }
      text = RandomText(r);
      sp.Set(name, text);
      return true;
    };
    std::vector<Step> steps(static_cast<size_t>(r.range(1, 9)));
    int num = 0;
    for (auto& st : steps)
    {
      auto& sp = st.sp;
      bool ok = true;
      int kind = static_cast<int>(r.below(6));
      // texts of one step are worked out before it changes anything
      if (kind == 0)
      {
        sp.type = "Message";
        std::string t;
        ok = attr(sp, "text", t);
        if (ok) st.want = {"MSG " + t};
      }
      else if (kind == 1)
      {
        sp.type = "Log";
        std::string t, sev = "info";
        bool m = r.chance(3, 4);
        int level = 6;
        if (r.chance(3, 4))
        {
          if (r.chance(1, 10))
          {
            sp.Set("severity", r.pick(std::vector<std::string>{"", "fatal", "INFO", "errors", "7", " info"}));
            ok = false;
          }
          else
          {
            level = static_cast<int>(r.below(9));
            sp.Set("severity", kSeverity[level]);
          }
        }
        if (m) ok = attr(sp, "message", t) && ok;
        if (!m || r.chance(1, 3))
        {
          auto from = r.pick(names);
          sp.Set("inputVar", from);
          AnyValue v;
          if (ref.GetValue(from, v)) t += sup::dto::ValuesToJSONString(v);
          else ok = false;
        }
        if (ok) st.want = {"LOG " + std::to_string(level) + " " + t};
      }
      else if (kind == 2)
      {
        sp.type = "Output";
        auto from = r.pick(names);
        sp.Set("fromVar", from);
        AnyValue v;
        ok = ref.GetValue(from, v);
        std::string t;
        if (r.chance(2, 3)) ok = attr(sp, "description", t) && ok;
        if (ok)
        {
          st.want = {"PUT " + t + " | " + Json(v)};
          st.refuse = !job && r.chance(1, 5);
          if (st.refuse) st.end = ES::FAILURE;
        }
      }
      else if (kind == 3)
      {
        sp.type = "Input";
        auto to = r.pick(names);
        sp.Set("outputVar", to);
        AnyValue v;
        ok = ref.GetValue(to, v);
        std::string t;
        if (r.chance(2, 3)) ok = attr(sp, "description", t) && ok;
        st.ask = ok;
        if (ok)
        {
          st.want = {"ASK"};
          st.want_value = v;
          st.want_description = t;
          st.reply_kind = r.chance(1, 6) ? 1 : !job && r.chance(1, 8) ? 2 : 0;
          AnyValue rep = RandomValue(r);
          if (r.chance(3, 5))   // of the kind asked for
          {
            rep = v;
            for (int x = 0; x < 20; ++x)
            {
              auto c = RandomValue(r);
              if (c.GetType() == v.GetType())
              {
                rep = c;
                break;
              }
            }
          }
          st.reply_value = rep;
          bool stored = st.reply_kind == 0 && ref.SetValue(to, rep);
          if (stored && v.GetType() == rep.GetType())
          {
            AnyValue back;
            HX_CHECK(ref.GetValue(to, back) && Json(back) == Json(rep), "exchange:reference", to);
          }
          st.end = stored ? ES::SUCCESS : ES::FAILURE;
          if (!stored) st.want.push_back("LOG *");
        }
      }
      else if (kind == 4)
      {
        sp.type = "UserConfirmation";
        std::string d, o = "OK", c = "Cancel";
        ok = attr(sp, "description", d);
        if (r.chance(1, 2)) ok = attr(sp, "okText", o) && ok;
        else o = "*";
        if (r.chance(1, 2)) ok = attr(sp, "cancelText", c) && ok;
        else c = "*";
        st.ask = ok;
        if (ok)
        {
          st.want = {"ASK"};
          st.want_description = d;
          st.want_options = {o, c};
          st.want_dialog = 2;
          st.reply_kind = r.chance(1, 6) ? 1 : !job && r.chance(1, 8) ? 2 : 0;
          st.reply_choice = r.chance(1, 2) ? 0 : r.chance(3, 4) ? 1 : r.range(-2, 5);
          st.end = st.reply_kind == 0 && st.reply_choice == 0 ? ES::SUCCESS : ES::FAILURE;
          // not both: declining is an answer, a number out of range is not
          if (st.reply_kind != 0) st.want.push_back("LOG *");
          else if (st.reply_choice != 0 && st.reply_choice != 1) st.want.push_back("LOG ?");
        }
      }
      else
      {
        sp.type = "UserChoice";
        std::string d;
        int c = r.range(1, 4);
        if (r.chance(1, 2)) ok = attr(sp, "description", d);
        for (int i = 0; i < c; ++i)
        {
          Spec ch;
          ch.type = r.chance(1, 3) ? "Output" : "Message";
          auto nm = r.chance(1, 6) ? "" : RandomText(r).substr(0, 30);
          if (!nm.empty()) ch.Set("name", nm);
          if (ch.type == "Output") ch.Set("fromVar", "st").Set("description", "choice " + std::to_string(i));
          else ch.Set("text", "choice " + std::to_string(i));
          st.want_options.push_back(nm + " (type:" + ch.type + ")");
          sp.ch.push_back(ch);
        }
        st.ask = ok;
        if (ok)
        {
          st.want = {"ASK"};
          st.want_description = d;
          st.want_dialog = 1;
          st.reply_kind = r.chance(1, 8) ? 1 : !job && r.chance(1, 8) ? 2 : 0;
          st.reply_choice = r.chance(1, 6) ? r.range(-3, 6) : static_cast<int>(r.below(static_cast<uint64_t>(c)));
          if (st.reply_kind == 0 && st.reply_choice >= 0 && st.reply_choice < c)
          {
            auto i = std::to_string(st.reply_choice);
            AnyValue v;
            ref.GetValue("st", v);
            st.want.push_back(sp.ch[st.reply_choice].type == "Output" ? "PUT choice " + i + " | " + Json(v) : "MSG choice " + i);
          }
          else
          {
            st.end = ES::FAILURE;
            st.want.push_back("LOG *");
          }
        }
      }
      if (!ok)
      {
        st.end = ES::FAILURE;
        st.want = {"LOG *"};
      }
      if (st.ask) st.delay = r.chance(1, 2) ? 0 : 1e-6 * static_cast<double>(r.below(1500));
      sp.Set("tag", std::to_string(num++));
    }
    std::vector<Spec> ch;
    for (auto& st : steps)
    {
      Spec c = st.sp;
      c.attrs.pop_back();
      ch.push_back(Comp("ForceSuccess", {c}));
    }
    p.roots = {Comp("Sequence", ch)};
    auto text = ToText(p.roots[0]).substr(0, 3000);
    Case(text);
    auto proc = BuildProc(p);
    declare(proc->GetWorkspace());

    std::vector<Step*> asks;
    std::vector<bool> refusals;
    for (auto& st : steps)
    {
      if (st.ask) asks.push_back(&st);
      for (auto& w : st.want)
        if (w.compare(0, 4, "PUT ") == 0) refusals.push_back(st.refuse);
    }
    std::vector<Ev> got;
    std::string final_state;
    std::vector<ES> ends;
    auto check_choice = [&](const Step& st, const std::vector<std::string>& options, const AnyValue& meta)
    {
      bool same = options.size() == st.want_options.size();
      for (size_t i = 0; same && i < options.size(); ++i) same = st.want_options[i] == "*" ? !options[i].empty() : options[i] == st.want_options[i];
      std::string o;
      for (auto& x : options) o += "[" + x + "]";
      HX_CHECK(same, "exchange:options", "offered " << o << "\n" << text);
      HX_CHECK(meta.HasField("text") && meta["text"].As<std::string>() == st.want_description, "exchange:question", "asked " << Json(meta) << " instead of " << st.want_description);
      HX_CHECK(meta.HasField("dialog_type") && meta["dialog_type"].As<sup::dto::uint32>() == st.want_dialog, "exchange:dialog", Json(meta));
    };
    size_t next_ask = 0, next_put = 0;
    auto collect = [&](const Procedure& pr)
    {
      final_state = State(pr.GetWorkspace());
      for (auto c : const_cast<Instruction*>(pr.RootInstruction())->ChildInstructions()) ends.push_back(c->ChildInstructions()[0]->GetStatus());
    };
    if (!job)
    {
      proc->Setup();
      DirectUI ui;
      ui.record_var = false;
      ui.refuse = [&] { return next_put < refusals.size() && refusals[next_put++]; };
      ui.on_input = [&](const UserInputRequest& rq) -> std::unique_ptr<IUserInputFuture>
      {
        if (next_ask >= asks.size()) return std::make_unique<UnsupportedInputFuture>();
        auto& st = *asks[next_ask++];
        bool value = st.sp.type == "Input";
        UserInputReply rep;
        if (value)
        {
          AnyValue v;
          std::string d;
          bool is = ParseUserValueRequest(rq, v, d);
          HX_CHECK(is && v.GetType() == st.want_value.GetType() && d == st.want_description, "exchange:request", "asked for " << Json(v) << " [" << d << "] instead of " << Json(st.want_value) << " [" << st.want_description << "]");
        }
        else
        {
          std::vector<std::string> o;
          AnyValue m;
          bool is = ParseUserChoiceRequest(rq, o, m);
          HX_CHECK(is, "exchange:request", text);
          if (is) check_choice(st, o, m);
        }
        bool as_value = value == (st.reply_kind != 2);
        if (as_value) rep = CreateUserValueReply(st.reply_kind != 1, value ? st.reply_value : AnyValue{true});
        else rep = CreateUserChoiceReply(st.reply_kind != 1, value ? 0 : st.reply_choice);
        return std::make_unique<ScriptedFuture>(rep, st.delay);
      };
      double t0 = Now();
      while (!IsFinishedStatus(proc->GetStatus()) && Now() - t0 < 30) proc->ExecuteSingle(ui);
      got = ui.trace.Get();
      collect(*proc);
      proc->Reset(ui);
    }
    else
    {
      RecJobIO io;
      io.on_value = [&](sup::dto::uint64, AnyValue& v, const std::string& d)
      {
        if (next_ask >= asks.size()) return false;
        auto& st = *asks[next_ask++];
        HX_CHECK(st.sp.type == "Input" && v.GetType() == st.want_value.GetType() && d == st.want_description, "exchange:request", "asked for " << Json(v) << " [" << d << "] instead of " << Json(st.want_value) << " [" << st.want_description << "]");
        if (st.delay > 0) std::this_thread::sleep_for(std::chrono::duration<double>(st.delay));
        v = st.reply_value;
        return st.reply_kind == 0;
      };
      io.on_choice_full = [&](sup::dto::uint64, const std::vector<std::string>& o, const AnyValue& m)
      {
        if (next_ask >= asks.size()) return -1;
        auto& st = *asks[next_ask++];
        check_choice(st, o, m);
        if (st.delay > 0) std::this_thread::sleep_for(std::chrono::duration<double>(st.delay));
        return st.reply_kind == 0 ? st.reply_choice : -1;
      };
      auto raw = proc.get();
      proc->AddAttribute("tickTimeout", "0.001");
      for (auto& st : steps)   // a declined choice is a number out of range here
        if (st.ask && st.sp.type == "UserConfirmation" && st.reply_kind == 0 && st.reply_choice < 0) st.want.back() = "LOG *";
      auto jb = std::make_unique<LocalJob>(std::move(proc), io);
      jb->Start();
      bool done = io.WaitFinished(60);
      HX_CHECK(done, "exchange:job", "the procedure does not finish\n" << text);
      if (done)
      {
        got = io.trace.Get();
        collect(*raw);
      }
      jb.reset();
    }
    std::vector<std::string> have;
    long own = 0, failures = 0;   // lines the library logs about failures
    for (auto& e : got)
    {
      auto t = Token(e);
      if (e.kind == K::kLog && e.text.compare(0, 21, "Instruction of type <") == 0) ++own;
      else if (!t.empty()) have.push_back(t);
    }
    size_t h = 0;
    std::string first;
    for (size_t i = 0; i < steps.size() && first.empty(); ++i)
    {
      auto& st = steps[i];
      for (auto& w : st.want)
      {
        if (w == "LOG *") ++failures;
        if (w == "LOG *" || w == "LOG ?") continue;
        if ((h >= have.size() || have[h] != w) && first.empty()) first = "step " + std::to_string(i) + " " + ToText(st.sp).substr(0, 500) + ": expected " + w.substr(0, 500) + ", received " + (h < have.size() ? have[h].substr(0, 500) : "nothing");
        ++h;
      }
    }
    HX_CHECK(own >= failures || !first.empty(), "exchange:reported", failures << " failures to report, " << own << " messages\n" << text);
    if (first.empty() && h < have.size()) first = "received besides what was expected: " + have[h].substr(0, 500);
    HX_CHECK(first.empty(), "exchange:order", (job ? "job: " : "") << first << "\n" << text);
    for (size_t i = 0; i < steps.size() && i < ends.size(); ++i)
      HX_CHECK(ends[i] == steps[i].end, "exchange:status:" + steps[i].sp.type, (job ? "job: " : "") << ToText(steps[i].sp).substr(0, 800) << " ended as " << StatusChar(ends[i]) << " instead of " << StatusChar(steps[i].end) << " reply " << steps[i].reply_kind << " " << steps[i].reply_choice << " " << Json(steps[i].reply_value));
    HX_CHECK(next_ask == asks.size(), "exchange:asked", "the user was asked " << next_ask << " times instead of " << asks.size());
    HX_CHECK(final_state == State(ref), "exchange:stored", "the workspace is\n" << final_state << "instead of\n" << State(ref) << text);
    for (auto& st : steps) Count(st.sp.type + (st.end == ES::SUCCESS ? " succeeded" : " failed") + (job ? " (job)" : ""));
    Eval(static_cast<long>(steps.size()));
    Distinct(text);
    if (k % 100 == 0) Sample(text.substr(0, 400));
    Beat();
  }
}
// the helpers clients use: metadata of questions and blocking requests
void Helpers()
{
  Section s("helpers");
  if (!s.run) return;
  using namespace sup::dto;
  auto make = [](const AnyType& t) { return AnyValue{t}; };
  const std::vector<std::pair<std::string, AnyType>> fields{{"text", StringType}, {"dialog_type", UnsignedInteger32Type}, {"modal", BooleanType},
    {"title", StringType}, {"informative", StringType}, {"details", StringType}};
  const std::vector<AnyType> types{StringType, UnsignedInteger32Type, BooleanType, SignedInteger32Type, Float64Type, AnyType{2, StringType}};
  HX_CHECK(IsUserChoiceMetadata(CreateUserChoiceMetadata()), "exchange:metadata", "the metadata the library creates are refused");
  HX_CHECK(GetMainTextFromMetadata(CreateUserChoiceMetadata()).empty(), "exchange:metadata", "main text of fresh metadata");
  for (auto& x : {AnyValue{}, AnyValue{3}, AnyValue{StringType, "text"}})
  {
    HX_CHECK(!IsUserChoiceMetadata(x), "exchange:metadata", Json(x) << " is taken for metadata");
    Eval();
  }
  // every combination of a present field and its type, others present correctly or not at all
  for (size_t f = 0; f < fields.size(); ++f)
    for (auto& t : types)
      for (int others = 0; others < 2; ++others)
      {
        auto m = CreateUserChoiceMetadata();
        for (size_t g = 0; g < fields.size(); ++g)
          if (!m.HasField(fields[g].first) && (g == f || others)) m.AddMember(fields[g].first, make(g == f ? t : fields[g].second));
        bool want = t == fields[f].second;
        HX_CHECK(IsUserChoiceMetadata(m) == want, "exchange:metadata", Json(m));
        auto text = GetMainTextFromMetadata(m);
        HX_CHECK(text.empty(), "exchange:metadata", "main text [" << text << "]");
        if (f == 0 && want)
        {
          m["text"] = AnyValue{StringType, "a question"};
          HX_CHECK(GetMainTextFromMetadata(m) == "a question", "exchange:metadata", "main text");
        }
        Eval();
        Distinct("metadata " + fields[f].first + std::to_string(others) + AnyTypeToJSONString(t));
      }
  Rng r(Opt().seed + 3);
  for (int k = 0; k < 300; ++k)
  {
    RecUI ui;
    int kind = static_cast<int>(r.below(5));   // 0 value, 1 choice, 2 declined value, 3 declined choice, 4 no answer possible
    auto v = RandomValue(r);
    int c = r.range(0, 5);
    bool as_choice = r.chance(1, 2);
    double delay = r.chance(1, 2) ? 0 : 1e-6 * static_cast<double>(r.below(3000));
    if (r.chance(1, 12)) delay = 0.45;
    auto d = RandomText(r);
    ui.on_input = [&](const UserInputRequest& rq) -> std::unique_ptr<IUserInputFuture>
    {
      AnyValue x;
      std::string t;
      std::vector<std::string> o;
      if (as_choice) HX_CHECK(ParseUserChoiceRequest(rq, o, x) && o == std::vector<std::string>({"a", d}), "exchange:blocking-request", "");
      else HX_CHECK(ParseUserValueRequest(rq, x, t) && t == d && x.GetType() == v.GetType(), "exchange:blocking-request", "");
      if (kind == 4) return std::make_unique<UnsupportedInputFuture>();
      return std::make_unique<ScriptedFuture>(kind % 2 == 0 ? CreateUserValueReply(kind == 0, v) : CreateUserChoiceReply(kind == 1, c), delay);
    };
    // on behalf of an instruction, which may be halted while it waits
    auto instr = as_choice && r.chance(1, 2) ? GlobalInstructionRegistry().Create("Wait") : nullptr;
    if (instr && r.chance(1, 8))
    {
      delay = 20;
      bool before = r.chance(1, 4);
      if (before) instr->Halt();
      std::thread halt([&] { if (!before) { std::this_thread::sleep_for(std::chrono::milliseconds(3)); instr->Halt(); } });
      double t0 = Now();
      bool ok = GetInterruptableUserChoice(ui, *instr, {"a", d}, CreateUserChoiceMetadata()).first;
      halt.join();
      HX_CHECK(!ok && Now() - t0 < 10, "exchange:interrupted", "a halted wait for input took " << Now() - t0 << " s and " << (ok ? "gave a value" : "failed"));
      HX_CHECK(kind != 4 || !ui.trace.Of(K::kLog).empty(), "exchange:blocking-silent", "");
      Count("waits for input halted");
      continue;
    }
    if (as_choice)
    {
      auto m = CreateUserChoiceMetadata();
      auto [ok, got] = instr ? GetInterruptableUserChoice(ui, *instr, {"a", d}, m) : GetBlockingUserChoice(ui, {"a", d}, m);
      HX_CHECK(ok == (kind == 1) && (!ok || got == c), "exchange:blocking", "choice: reply kind " << kind << " gave " << ok << " " << got);
    }
    else
    {
      auto [ok, got] = GetBlockingUserValue(ui, v, d);
      HX_CHECK(ok == (kind == 0) && (!ok || Json(got) == Json(v)), "exchange:blocking", "value: reply kind " << kind << " gave " << ok);
    }
    Count("blocking requests");
    Eval();
    Distinct("blocking " + std::to_string(kind) + (as_choice ? "c" : "v"));
    Beat();
  }
}

// requests and replies as values: what was put in comes out, and nothing comes out of what was not put in
void Envelopes()
{
  Section s("envelopes");
  if (!s.run) return;
  using namespace sup::dto;
  Rng r(Opt().seed * 151 + 11);
  long n = Scale(4000, 10, 3);
  auto some = [&]() -> AnyValue {
    switch (r.below(9))
    {
    case 0: return AnyValue{};
    case 1: return AnyValue{StringType, std::string(r.below(6), 'q')};
    case 2: return AnyValue{SignedInteger32Type, static_cast<int32>(r.below(5))};
    case 3: return AnyValue{UnsignedInteger64Type, static_cast<uint64>(r.below(5))};
    case 4: return AnyValue{true};
    case 5: return AnyValue{3, StringType};
    case 6: return AnyValue{{{"a", {SignedInteger8Type, 1}}, {"b", {StringType, "x"}}}, "named"};
    case 7: return CreateUserChoiceMetadata();
    default: return AnyValue{Float64Type, 0.5};
    }
  };
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    auto value = some(), meta = some(), other = some();
    std::string description(r.below(5), 'd');
    std::vector<std::string> options;
    for (int i = r.range(0, 5); i > 0; --i) options.push_back(std::string(r.below(4), static_cast<char>('a' + i)));
    Case(Json(value) + Json(meta) + description);
    auto rv = CreateUserValueRequest(value, description);
    auto rc = CreateUserChoiceRequest(options, meta);
    // values
    AnyValue got = other;
    std::string text = "before";
    bool ok = ParseUserValueRequest(rv, got, text);
    HX_CHECK(ok && got.GetType() == value.GetType() && text == description, "envelope:value", "a request for " << Json(value) << " is read as one for " << Json(got) << " '" << text << "'");
    text = "before";
    got = other;
    auto failed = [&](const UserInputRequest& x, const char* what) {
      HX_CHECK(!ParseUserValueRequest(x, got, text) && got == other && text == "before", "envelope:value-refused", "read as a request for a value: " << what);
    };
    failed(rc, "a choice");
    failed(kInvalidUserInputRequest, "nothing");
    auto bad = rv;
    bad.m_meta_data = r.chance(1, 2) ? AnyValue{} : AnyValue{SignedInteger32Type, 1};
    failed(bad, "a request without description");
    // choices
    std::vector<std::string> list{"before"};
    got = other;
    ok = ParseUserChoiceRequest(rc, list, got);
    HX_CHECK(ok && list == options && got == meta, "envelope:choice", "a choice of " << options.size() << " with " << Json(meta) << " is read as one of " << list.size() << " with " << Json(got));
    list = {"before"};
    got = other;
    auto failed_choice = [&](const UserInputRequest& x, const std::string& what) {
      HX_CHECK(!ParseUserChoiceRequest(x, list, got) && list == std::vector<std::string>{"before"} && got == other, "envelope:choice-refused", "read as a choice: " << what);
    };
    failed_choice(rv, "a request for a value");
    failed_choice(kInvalidUserInputRequest, "nothing");
    for (auto& m : rc.m_meta_data.MemberNames())
    {
      auto without = rc;
      without.m_meta_data = EmptyStruct();
      for (auto& q : rc.m_meta_data.MemberNames())
        if (q != m) without.m_meta_data.AddMember(q, AnyValue(rc.m_meta_data[q]));
      failed_choice(without, "a request without " + m);
        if (m.find("ption") != std::string::npos)
        {
          without.m_meta_data.AddMember(m, r.chance(1, 2) ? AnyValue{2, SignedInteger32Type} : AnyValue{StringType, "a,b"});
          failed_choice(without, "a request with malformed options");
        }
    }
    // comparison
    auto rv2 = CreateUserValueRequest(value, description), rv3 = CreateUserValueRequest(value, description + "1"), rv4 = CreateUserValueRequest(other, description);
    HX_CHECK(rv == rv2 && !(rv != rv2) && rv != rv3 && !(rv == rv3) && (rv == rv4) == (value.GetType() == other.GetType()) && rv != rc && !(rv == kInvalidUserInputRequest), "envelope:equal", "comparing requests");
    auto type_only = rc;
    type_only.m_request_type = InputRequestType::kUserValue;
    HX_CHECK(type_only != rc && !(type_only == rc), "envelope:equal", "requests of different kinds are equal");
    // replies
    int choice = r.chance(1, 4) ? -1 : r.range(-3, 100000);
    bool result = r.chance(1, 2);
    auto av = CreateUserValueReply(result, value);
    auto ac = CreateUserChoiceReply(result, choice);
    auto pv = ParseUserValueReply(av);
    auto pc = ParseUserChoiceReply(ac);
    HX_CHECK(pv.first == result && (!result || (pv.second == value && pv.second.GetType() == value.GetType())), "envelope:reply", "a reply with " << Json(value) << " is read as " << Json(pv.second));
    HX_CHECK(pc.first == result && (!result || pc.second == choice), "envelope:reply", "a reply with choice " << choice << " is read as " << pc.second);
    HX_CHECK(!ParseUserValueReply(ac).first && !ParseUserChoiceReply(av).first && !ParseUserValueReply(kInvalidUserInputReply).first && !ParseUserChoiceReply(kInvalidUserInputReply).first,
             "envelope:reply-kind", "a reply of another kind is accepted");
    auto odd = ac;
    odd.m_payload = r.chance(1, 2) ? AnyValue{UnsignedInteger32Type, 1u} : AnyValue{StringType, "1"};
    HX_CHECK(!ParseUserChoiceReply(odd).first, "envelope:reply-kind", "a choice that is no int32 is accepted");
    auto av2 = CreateUserValueReply(result, value), av3 = CreateUserValueReply(!result, value), av4 = CreateUserValueReply(result, other);
    HX_CHECK(av == av2 && !(av != av2) && av != av3 && !(av == av3) && (av == av4) == (value == other) && av != ac, "envelope:equal", "comparing replies");
    auto kind_only = ac;
    kind_only.m_request_type = InputRequestType::kUserValue;
    HX_CHECK(kind_only != ac, "envelope:equal", "replies of different kinds are equal");
    // an interface without user
    DefaultUserInterface none;
    auto f = none.RequestUserInput(r.chance(1, 2) ? rv : rc);
    bool thrown = false;
    try { if (f) f->GetValue(); }
    catch (const sup::oac_tree::MessageException&) { thrown = true; }
    HX_CHECK(f && !f->IsValid() && !f->IsReady() && !f->WaitFor(r.chance(1, 2) ? 0.0 : 100.0) && thrown && f->GetId() == 0, "envelope:no-user", "an interface without user gives an answer");
    HX_CHECK(!none.PutValue(value, description), "envelope:no-user", "an interface without user shows a value");
    Eval();
    Distinct(Json(value) + Json(meta) + Json(other) + std::to_string(options.size()));
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("one exchange of a random procedure with a scripted user; distinct by procedure");
    RegisterFixtures();
    Helpers();
    Exchanges();
    Envelopes();
  })

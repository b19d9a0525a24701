// Timing of waiting instructions, judged on the monotonic clock.
#include "full.h"

#include <limits>

using namespace fx;
using namespace hx;
using sup::dto::AnyValue;

namespace
{
const double kSlack = 0.001;     // resolution granted to the lower bounds
const double kLate = 12;         // what is certainly too late
Spec I(const std::string& type, std::vector<std::pair<std::string, std::string>> a)
{
  Spec s;
  s.type = type;
  s.attrs = std::move(a);
  return s;
}
std::string Num(double d)
{
  char b[64];
  snprintf(b, sizeof b, "%.9g", d);
  return b;
}
// executes until the end; seconds
double Run(Procedure& proc, RecUI& ui, int us = 100)
{
  double t0 = Now();
  while (!IsFinishedStatus(proc.GetStatus()))
  {
    proc.ExecuteSingle(ui);
    if (proc.GetStatus() == ES::RUNNING) std::this_thread::sleep_for(std::chrono::microseconds(us));
    if (Now() - t0 > 2 * kLate) break;
  }
  return Now() - t0;
}

void Waits()
{
  Section s("wait");
  if (!s.run) return;
  Rng r(Opt().seed * 43 + 1);
  long n = Scale(500, 8, 2);
  std::mutex m;
  std::vector<std::thread> pool;
  std::atomic<long> next{0};
  for (int t = 0; t < 4; ++t)
    pool.emplace_back([&, seed = r.next()] {
      Rng q(seed);
      while (next++ < n && !TooMany())
      {
        double d = q.chance(1, 6) ? 0 : 1e-6 * static_cast<double>(q.below(25000));
        bool var = q.chance(1, 2), blocking = q.chance(1, 2);
        auto sp = I("Wait", {{"timeout", var ? "@t" : Num(d)}});
        if (q.chance(2, 3)) sp.Set("blocking", var && q.chance(1, 2) ? "@b" : blocking ? "true" : "false");
        ProcSpec p;
        p.roots = {sp};
        p.attrs = {{"timingAccuracy", q.chance(1, 2) ? "0.0005" : "0.002"}};
        p.vars = {LocalVar("t", q.chance(1, 2) ? "float64" : "float32", Num(d)), LocalVar("b", "bool", blocking ? "true" : "false")};
        auto proc = BuildProc(p);
        proc->Setup();
        RecUI ui;
        auto text = ToText(sp) + " t=" + Num(d);
        for (int pass = 0; pass < 2; ++pass)
        {
          double took = Run(*proc, ui);
          HX_CHECK(proc->GetStatus() == ES::SUCCESS, "wait:status", text << " ended as " << StatusChar(proc->GetStatus()));
          HX_CHECK(took >= d * (1 - 1e-6) - kSlack, "wait:early", text << " took only " << took << " s (pass " << pass << ")");
          HX_CHECK(took < d + kLate, "wait:late", text << " took " << took << " s");
          proc->Reset(ui);
          Eval();
        }
        Count("waits timed", 2);
        Distinct(text);
        Beat();
      }
    });
  for (auto& t : pool) t.join();
}

// a value no duration can be made of makes the instruction, or the setup, fail at once
void Refused()
{
  Section s("refused");
  if (!s.run) return;
  std::vector<std::string> bad{"-1", "-0.001", "-1e300", "1e300", "1e20", "9223372037", "nan", "inf", "-inf"};
  for (auto type : {"Wait", "WaitForVariable", "WaitForVariables"})
    for (auto& b : bad)
      for (bool var : {false, true})
      for (bool met : {false, true})   // the condition waited for holds
      {
        if (var && (b == "nan" || b.find("inf") != std::string::npos)) continue;   // no JSON for it: see below
        auto sp = I(type, {{"timeout", var ? "@t" : b}});
        if (std::string(type) == "WaitForVariable") sp.Set("varName", "off");
        if (std::string(type) == "WaitForVariables") sp.Set("varType", "HxVar");
        ProcSpec p;
        p.roots = {sp};
        if (var) p.vars = {LocalVar("t", "float64", b == "9223372037" || b.find('e') != std::string::npos || b.find('.') != std::string::npos ? b : b + ".0")};
        VarSpec h;
        h.type = "HxVar";
        h.name = "off";
        h.attrs = {{"type", "{\"type\":\"int32\"}"}, {"value", "1"}, {"avail", met ? "1" : "0"}};
        p.vars.push_back(h);
        auto text = ToText(sp) + (var ? " t=" + b : "") + (met ? " condition met" : "");
        Case(text);
        auto proc = BuildProc(p);
        RecUI ui;
        bool threw = false;
        try
        {
          proc->Setup();
        }
        catch (const InstructionSetupException&)
        {
          threw = true;
        }
        if (!threw)
        {
          double t0 = Now();
          for (int k = 0; k < 3 && !IsFinishedStatus(proc->GetStatus()); ++k) proc->ExecuteSingle(ui);
          HX_CHECK(proc->GetStatus() == ES::FAILURE, "wait:refused", text << " is " << StatusChar(proc->GetStatus()) << " instead of failing");
          HX_CHECK(Now() - t0 < kLate, "wait:refused-late", text);
          HX_CHECK(!ui.trace.Of(K::kLog).empty(), "wait:refused-silent", text << " failed without a message");
        }
        Count(threw ? "timeouts refused at setup" : "timeouts refused at execution");
        proc->Reset(ui);
        Eval();
        Distinct(text);
      }
  // not a number, written at run time
  for (double x : {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), -1.0, 1e18})
    for (auto type : {"Wait", "WaitForVariable", "WaitForVariables"})
    {
      auto sp = I(type, {{"timeout", "@t"}});
      if (std::string(type) == "WaitForVariable") sp.Set("varName", "none");
      if (std::string(type) == "WaitForVariables") sp.Set("varType", "HxVar");
      ProcSpec p;
      p.roots = {sp};
      p.vars = {LocalVar("t", "float64", "0.0")};
      VarSpec h;
      h.type = "HxVar";
      h.name = "off";
      h.attrs = {{"type", "{\"type\":\"int32\"}"}, {"value", "1"}, {"avail", "0"}};
      p.vars.push_back(h);
      auto proc = BuildProc(p);
      proc->Setup();
      proc->GetWorkspace().SetValue("t", AnyValue{sup::dto::Float64Type, x});
      RecUI ui;
      for (int k = 0; k < 3 && !IsFinishedStatus(proc->GetStatus()); ++k) proc->ExecuteSingle(ui);
      HX_CHECK(proc->GetStatus() == ES::FAILURE, "wait:refused-value", type << " with timeout " << x << " is " << StatusChar(proc->GetStatus()));
      proc->Reset(ui);
      Eval();
    }
  Exhaustive("invalid timeouts of every waiting instruction, literal and from a variable");
}

// the largest timeouts are timeouts, not an immediate end
void Large()
{
  Section s("large");
  if (!s.run) return;
  for (auto t : {"1000", "1e6", "1e9", "9e9", "9200000000"})
  {
    std::vector<Spec> sp{I("Wait", {{"timeout", t}}), I("WaitForVariable", {{"timeout", t}, {"varName", "none"}})};
    for (auto& x : sp)
    {
      ProcSpec p;
      p.roots = {x};
      auto proc = BuildProc(p);
      RecUI ui;
      bool threw = false;
      try
      {
        proc->Setup();
      }
      catch (const InstructionSetupException&)
      {
        threw = true;
      }
      if (threw) continue;
      for (int k = 0; k < 5; ++k) proc->ExecuteSingle(ui);
      auto st = proc->GetStatus();
      bool refused = st == ES::FAILURE && !ui.trace.Of(K::kLog).empty();   // too large to be represented with the present time added
      HX_CHECK(st == ES::RUNNING || (refused && std::string(t) == "9200000000") || (refused && std::string(t) == "9e9"), "wait:large", ToText(x) << " is " << StatusChar(st) << " after five ticks");
      proc->Halt();
      proc->ExecuteSingle(ui);
      proc->Reset(ui);
      Eval();
    }
  }
}

struct Source
{
  std::string name;
  void Set(long v, bool avail) const { DriveVar(name, AnyValue{sup::dto::SignedInteger32Type, static_cast<sup::dto::int32>(v)}, avail); }
};

void Variables()
{
  Section s("variables");
  if (!s.run) return;
  Rng r(Opt().seed * 47 + 1);
  long n = Scale(700, 8, 2);
  std::atomic<long> next{0};
  std::vector<std::thread> pool;
  for (int t = 0; t < 4; ++t)
    pool.emplace_back([&, t, seed = r.next()] {
      Rng q(seed);
      while (next++ < n && !TooMany())
      {
        // who waits for what
        int kind = static_cast<int>(q.below(4));   // 0 available, 1 equals, 2 all of a type, 3 existence of a value in an untyped variable
        std::string v1 = "x" + std::to_string(t), v2 = "y" + std::to_string(t);
        bool happens = q.chance(2, 3);
        double timeout = happens ? 25 : 1e-6 * static_cast<double>(q.below(15000));
        double when = 1e-6 * static_cast<double>(q.below(4000));
        bool before = q.chance(1, 6);
        ProcSpec p;
        auto hxv = [&](const std::string& nm, bool avail)
        {
          VarSpec h;
          h.type = "HxVar";
          h.name = nm;
          h.attrs = {{"type", "{\"type\":\"int32\"}"}, {"value", "1"}};
          if (!avail) h.attrs.push_back({"avail", "0"});
          p.vars.push_back(h);
        };
        Spec sp;
        if (kind == 2) sp = I("WaitForVariables", {{"timeout", q.chance(1, 2) ? "@to" : Num(timeout)}, {"varType", "HxVar"}});
        else sp = I("WaitForVariable", {{"timeout", q.chance(1, 2) ? "@to" : Num(timeout)}, {"varName", kind == 3 ? "un" : v1}});
        if (kind == 1) sp.Set("equalsVar", q.chance(1, 2) ? "goal" : v2);
        hxv(v1, kind == 1);
        hxv(v2, kind != 1 && kind != 2);
        p.vars.push_back(LocalVar("goal", "int32", "7"));
        p.vars.push_back(LocalVar("to", "float64", Num(timeout)));
        VarSpec un;
        un.type = "Local";
        un.name = "un";
        p.vars.push_back(un);
        p.roots = {sp};
        auto text = "kind " + std::to_string(kind) + " " + ToText(sp) + (happens ? " happens" : " never");
        auto proc = BuildProc(p);
        proc->Setup();
        auto& ws = proc->GetWorkspace();
        auto State = [&]
        {
          std::string s;
          for (auto& n : ws.VariableNames())
          {
            AnyValue v;
            s += n + "=" + (ws.GetValue(n, v) ? Json(v) : "none") + " ";
          }
          return s;
        };
        Source a{v1}, b{v2};
        std::atomic<double> at{-1};
        auto change = [&]
        {
          if (kind == 0) a.Set(3, true);
          if (kind == 1)
          {
            b.Set(7, true);
            a.Set(6, true);
            a.Set(7, true);
          }
          if (kind == 2)
          {
            b.Set(1, true);
            a.Set(1, true);
          }
          if (kind == 3) ws.SetValue("un", AnyValue{5});
          at = Now();
        };
        auto nearly = [&]   // changes that do not fulfil the condition
        {
          if (kind == 0) a.Set(3, false);
          if (kind == 1) a.Set(8, true);
          if (kind == 2) b.Set(1, true);
        };
        RecUI ui;
        if (before && happens) change();
        double t0 = Now();
        std::thread other([&] {
          if (!(before && happens) && q.chance(1, 2)) nearly();
          std::this_thread::sleep_for(std::chrono::duration<double>(when));
          if (happens && !before) change();
        });
        double took = Run(*proc, ui, 50);
        double end = Now();
        auto st = proc->GetStatus();
        other.join();
        if (happens)
        {
          HX_CHECK(st == ES::SUCCESS, "waitvar:status", text << " ended as " << StatusChar(st) << " after " << took << " s; " << State() << (before ? " (changed beforehand)" : ""));
          if (st == ES::SUCCESS && !before)
          {
            HX_CHECK(end - t0 >= when - kSlack, "waitvar:too-soon", text << " succeeded after " << took << " s, the change came at " << when);
            HX_CHECK(end - at.load() < kLate, "waitvar:late", text << " noticed the change after " << end - at.load() << " s");
          }
          if (before) HX_CHECK(took < kLate, "waitvar:already", text);
        }
        else
        {
          HX_CHECK(st == ES::FAILURE, "waitvar:never", text << " ended as " << StatusChar(st));
          HX_CHECK(took >= timeout - kSlack, "waitvar:early", text << " gave up after " << took << " s of " << timeout);
          HX_CHECK(took < timeout + kLate, "waitvar:very-late", text << " gave up after " << took << " s of " << timeout);
          // the same again after a reset
          proc->Reset(ui);
          took = Run(*proc, ui, 50);
          st = proc->GetStatus();
          HX_CHECK(st == ES::FAILURE, "waitvar:never", text << " ended as " << StatusChar(st) << " after a reset");
          HX_CHECK(took >= timeout - kSlack, "waitvar:early", text << " gave up after " << took << " s of " << timeout << " when run again");
          HX_CHECK(took < timeout + kLate, "waitvar:very-late", text << " gave up after " << took << " s of " << timeout << " when run again");
          Count("conditions that never became true, run again");
        }
        proc->Reset(ui);
        Count(happens ? "conditions that became true" : "conditions that never became true");
        Eval();
        Distinct(text);
        Beat();
      }
    });
  for (auto& t : pool) t.join();
}

// the tick timeout delays nothing that can go on
void Ticks()
{
  Section s("ticks");
  if (!s.run) return;
  for (auto timeout : {"0.0001", "5", "20"})
  {
    Spec seq = Comp("Sequence", {});
    for (int k = 0; k < 60; ++k) seq.ch.push_back(Leaf("t" + std::to_string(k), "NNS"));
    ProcSpec p;
    p.roots = {seq};
    p.attrs = {{"tickTimeout", timeout}};
    auto proc = BuildProc(p);
    RecUI ui;
    double t0 = Now();
    {
      AsyncRunner run(*proc, ui, ui);
      run.Start();
      HX_CHECK(ui.WaitFinished(60), "ticks:slow", "120 ticks with work to do did not end with tick timeout " << timeout);
    }
    HX_CHECK(Now() - t0 < 15, "ticks:idle", "a procedure that never waits took " << Now() - t0 << " s with tick timeout " << timeout);
    proc->Reset(ui);
    Eval();
    Beat();
  }
  // a procedure that does wait goes on within the tick timeout
  for (int k = 0; k < 15; ++k)
  {
    ProcSpec p;
    p.roots = {Comp("Sequence", {I("Wait", {{"timeout", "0.004"}}), Leaf("after", "S")})};
    p.attrs = {{"tickTimeout", k % 3 ? "0.001" : "0.02"}};
    auto proc = BuildProc(p);
    RecUI ui;
    double t0 = Now();
    {
      AsyncRunner run(*proc, ui, ui);
      run.Start();
      HX_CHECK(ui.WaitFinished(30) && ui.State() == JobState::kSucceeded, "ticks:wait", "the job with a short wait did not succeed");
    }
    HX_CHECK(Now() - t0 >= 0.004 - kSlack, "ticks:wait-early", "the job took " << Now() - t0);
    proc->Reset(ui);
    Eval();
    Beat();
  }
}

// conditions that come and go: what counts is the moment of the tick
void Flicker()
{
  Section s("flicker");
  if (!s.run) return;
  Rng r(Opt().seed * 83 + 5);
  long n = Scale(1500, 8, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    int vars = r.range(1, 4), kind = static_cast<int>(r.below(3));   // 0 available, 1 equals, 2 all of a type
    ProcSpec p;
    for (int i = 0; i < vars; ++i)
    {
      VarSpec h;
      h.type = "HxVar";
      h.name = "f" + std::to_string(i);
      h.attrs = {{"type", "{\"type\":\"int32\"}"}, {"value", "1"}, {"avail", "0"}};
      p.vars.push_back(h);
    }
    p.vars.push_back(LocalVar("goal", "int32", "7"));
    Spec sp = kind == 2 ? I("WaitForVariables", {{"timeout", "3600"}, {"varType", "HxVar"}}) : I("WaitForVariable", {{"timeout", "3600"}, {"varName", "f0"}});
    if (kind == 1) sp.Set("equalsVar", "goal");
    p.roots = {sp};
    auto proc = BuildProc(p);
    proc->Setup();
    RecUI ui;
    std::vector<std::unique_ptr<Source>> src;
    for (int i = 0; i < vars; ++i) src.push_back(std::make_unique<Source>(Source{"f" + std::to_string(i)}));
    std::vector<bool> up(static_cast<size_t>(vars), false);
    std::vector<int> val(static_cast<size_t>(vars), 1);
    std::string text = "kind " + std::to_string(kind) + " of " + std::to_string(vars) + ":";
    bool done = false;
    for (int tick = r.range(1, 30); tick > 0 && !done; --tick)
    {
      for (int i = 0; i < vars; ++i)
        if (r.chance(1, 2))
        {
          auto x = static_cast<size_t>(i);
          up[x] = r.chance(1, 2);
          val[x] = r.chance(1, 2) ? 7 : 6;
          src[x]->Set(val[x], up[x]);
        }
      text += " ";
      for (size_t x = 0; x < up.size(); ++x) text += up[x] ? (val[x] == 7 ? "7" : "6") : "-";
      done = kind == 2 ? std::count(up.begin(), up.end(), true) == vars : up[0] && (kind == 0 || val[0] == 7);
      proc->ExecuteSingle(ui);
      auto st = proc->GetStatus();
      HX_CHECK(st == (done ? ES::SUCCESS : ES::RUNNING), "waitvar:moment", text << " is " << StatusChar(st) << (done ? " although the condition holds" : " although the condition does not hold"));
      if (IsFinishedStatus(st)) break;
    }
    proc->Reset(ui);
    Count("conditions that came and went");
    Eval();
    Distinct(text);
    Beat();
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("one waiting instruction with its timeout and the change it waits for; distinct by both");
    RegisterFixtures();
    Refused();
    Large();
    Ticks();
    Waits();
    Variables();
    Flicker();
})

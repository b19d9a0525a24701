// Parallel and asynchronous instructions: concurrency, thresholds, and the end of every branch.
#include "fx.h"

using namespace fx;
using namespace hx;

namespace
{
bool Fin(ES s) { return s == ES::SUCCESS || s == ES::FAILURE; }

// every branch inside its leaf at the same time, released one by one in a given order
void Controlled(int N, int outcomes, int sth, int fth, const std::vector<int>& order, int shape, int end)
{
  CloseGates();
  std::vector<Spec> br;
  for (int b = 0; b < N; ++b)
  {
    auto leaf = Leaf("B" + std::to_string(b), outcomes >> b & 1 ? "S" : "F");
    leaf.Set("gate", "g" + std::to_string(b));
    if (shape == 1) br.push_back(Comp("Sequence", {Leaf("P" + std::to_string(b), "NS"), leaf}));
    else if (shape == 2) br.push_back(Comp("Async", {Comp("Fallback", {leaf})}));
    else if (shape == 3) br.push_back(Comp("ParallelSequence", {leaf}));
    else br.push_back(leaf);
  }
  auto spec = Comp("ParallelSequence", br);
  if (sth >= 0) spec.Set("successThreshold", std::to_string(sth));
  if (fth >= 0) spec.Set("failureThreshold", std::to_string(fth));
  int es = sth >= 0 ? std::min(sth, N) : N;
  int ef = fth >= 0 ? std::min(fth, N) : 1;
  if (sth >= 0) ef = std::min(ef, N - es + 1);
  else if (fth >= 0) es = N + 1 - ef;
  ProcSpec p;
  p.roots = {spec};
  auto text = ToText(spec);
  std::string how = " released";
  for (auto b : order) how += " " + std::to_string(b);
  how += " end " + std::to_string(end);
  Case(text + how);
  auto proc = BuildProc(p);
  RecUI ui;
  SetTrace(&ui.trace);
  proc->Setup();
  auto entered = [&] {
    int n = 0;
    for (auto& e : ui.trace.Of(K::kEnter)) n += e.id[0] == 'B';
    return n;
  };
  // tick until all are inside: nothing may have been decided, unless no success is needed
  double limit = Now() + 60;
  int ticks = 0;
  auto tick = [&] {
    proc->ExecuteSingle(ui);
    ++ticks;
    std::this_thread::sleep_for(std::chrono::microseconds(60));
  };
  while (!Fin(proc->GetStatus()) && entered() < N && Now() < limit) tick();
  Eval();
  if (es == 0)
  {
    HX_CHECK(proc->GetStatus() == ES::SUCCESS, "par:zero", text << how << " is " << StatusChar(proc->GetStatus()) << " although no success is required");
  }
  else
  {
    HX_CHECK(!Fin(proc->GetStatus()), "par:early", text << how << " ended " << StatusChar(proc->GetStatus()) << " with no branch finished");
    HX_CHECK(entered() == N, "par:not-concurrent", text << how << ": only " << entered() << " of " << N << " branches were executing at the same time");
  }
  int S = 0, F = 0;
  ES expected = es == 0 ? ES::SUCCESS : ES::NOT_FINISHED;
  size_t released = 0;
  while (!Fin(expected) && released < order.size())
  {
    int b = order[released++];
    (outcomes >> b & 1 ? S : F)++;
    OpenGate("g" + std::to_string(b));
    if (S >= es) expected = ES::SUCCESS;
    else if (F >= ef) expected = ES::FAILURE;
    if (Fin(expected))
    {
      limit = Now() + 60;
      while (!Fin(proc->GetStatus()) && Now() < limit) tick();
      HX_CHECK(proc->GetStatus() == expected, "par:threshold", text << how << " is " << StatusChar(proc->GetStatus()) << " after " << S << " successes and " << F << " failures, thresholds " << es << " and " << ef);
    }
    else
    {
      // the branch has finished; a few more ticks must not decide anything
      limit = Now() + 60;
      while (Now() < limit)
      {
        tick();
        int done = 0;
        for (auto& e : ui.trace.Of(K::kExit)) done += e.id[0] == 'B';
        if (done >= static_cast<int>(released)) break;
      }
      for (int k = 0; k < 4; ++k) tick();
      HX_CHECK(!Fin(proc->GetStatus()), "par:early", text << how << " ended " << StatusChar(proc->GetStatus()) << " after " << S << " successes and " << F << " failures, thresholds " << es << " and " << ef);
      if (Fin(proc->GetStatus())) break;
    }
  }
  // the branches that were not released have been asked to halt
  if (Fin(proc->GetStatus()))
  {
    std::set<std::string> halted;
    for (auto& e : ui.trace.Of(K::kHalt)) halted.insert(e.id);
    std::map<std::string, int> inside;
    std::set<std::string> ever;
    for (auto& e : ui.trace.Of(K::kEnter)) ever.insert(e.id);
    for (size_t k = released; k < order.size(); ++k)
    {
      auto id = "B" + std::to_string(order[k]);
      if (ever.count(id))
      {
        HX_CHECK(halted.count(id), "par:not-halted", text << how << " ended " << StatusChar(proc->GetStatus()) << " without asking branch " << order[k] << " to halt");
        Count("early ends with a branch left to halt");
      }
    }
  }
  // the end: reset, destruction, or both
  if (end != 1)
  {
    proc->Reset(ui);
    long before = ui.trace.Size();
    int in = 0;
    for (auto& e : ui.trace.Get()) in += e.kind == K::kEnter ? 1 : e.kind == K::kExit ? -1 : 0;
    HX_CHECK(in == 0, "par:reset-executing", text << how << ": " << in << " leaves execute after the reset");
    HX_CHECK(ui.trace.Size() == before, "par:reset-events", text << how << ": events after the reset");
    auto nodes = Preorder(proc->RootInstruction());
    for (auto i : nodes) HX_CHECK(i->GetStatus() == ES::NOT_STARTED, "par:reset-status", text << how);
  }
  if (end != 0)
  {
    proc.reset();
    long before = ui.trace.Size();
    int in = 0;
    for (auto& e : ui.trace.Get()) in += e.kind == K::kEnter ? 1 : e.kind == K::kExit ? -1 : 0;
    HX_CHECK(in == 0, "par:destroy-executing", text << how << ": " << in << " leaves execute after the destruction");
    HX_CHECK(ui.trace.Size() == before, "par:destroy-events", text << how << ": events after the destruction");
  }
  for (auto& e : ui.trace.Of(K::kEnter))
    HX_CHECK(e.num == 1, "par:twice", text << how << ": leaf " << e.id << " is executed by two threads at once");
  SetTrace(nullptr);
  Distinct(text + how);
  Sample(text + how);
  Beat();
}

void Thresholds()
{
  Section s("thresholds");
  if (!s.run) return;
  Rng r(Opt().seed * 3 + 1);
  int max_n = Opt().variant == "tsan" && !Opt().thorough ? 2 : 3;
  long done = 0;
  for (int N = 1; N <= max_n; ++N)
    for (int sth = -1; sth <= N + 1; ++sth)
      for (int fth = -1; fth <= N + 1; ++fth)
        for (int outcomes = 0; outcomes < 1 << N; ++outcomes)
        {
          if (TooMany()) return;
          if (fth == 0) continue;   // degenerate, checked below without a claim on the result
          std::vector<int> order;
          for (int b = 0; b < N; ++b) order.push_back(b);
          do
          {
            if (N == 3 && !Opt().thorough && r.below(3)) continue;
            Controlled(N, outcomes, sth, fth, order, static_cast<int>(r.below(4)), static_cast<int>(done++ % 3));
          } while (std::next_permutation(order.begin(), order.end()));
        }
  if (Opt().thorough || max_n < 3) Exhaustive("outcomes, thresholds and release orders of up to " + std::to_string(max_n) + " branches");
  else Exhaustive("outcomes, thresholds and release orders of up to 2 branches (a third of those of 3)");
  long n = Scale(60, 20, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    int N = r.range(4, 7);
    std::vector<int> order;
    for (int b = 0; b < N; ++b) order.push_back(b);
    for (size_t x = order.size() - 1; x > 0; --x) std::swap(order[x], order[r.below(x + 1)]);
    Controlled(N, static_cast<int>(r.below(1u << N)), r.chance(1, 2) ? r.range(0, N + 1) : -1, r.chance(1, 2) ? r.range(1, N + 1) : -1, order, static_cast<int>(r.below(4)), static_cast<int>(r.below(3)));
  }
}

// random nested asynchronous procedures ended at random moments
void Nested()
{
  Section s("nested");
  if (!s.run) return;
  Rng r(Opt().seed * 1013 + 17);
  long n = Scale(900, 10, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    GenOpt o;
    o.max_nodes = r.range(4, 20);
    o.max_depth = r.range(1, 4);
    o.parallel = true;
    o.waits = true;
    o.us = r.chance(1, 2) ? 200 : 10;
    ProcSpec p;
    ModelVars mv;
    std::vector<Spec> br;
    int N = r.range(1, 4);
    for (int b = 0; b < N; ++b)
    {
      o.id_prefix = std::string(1, static_cast<char>('A' + b));
      o.blocking = r.chance(1, 3);
      br.push_back(GenTree(r, o, p, mv));
    }
    auto spec = Comp("ParallelSequence", br);
    if (r.chance(1, 3)) spec.Set("successThreshold", std::to_string(r.range(1, N)));
    else if (r.chance(1, 2)) spec.Set("failureThreshold", std::to_string(r.range(1, N)));
    Number(spec);
    if (r.chance(1, 4)) spec = Comp("Repeat", {spec}).Set("maxCount", "2");
    else if (r.chance(1, 4)) spec = Comp("Sequence", {spec, Leaf("Z", "S")});
    p.roots = {spec};
    auto text = ToText(spec);
    int end = static_cast<int>(r.below(3));
    Case(text + " end " + std::to_string(end));
    PerturbOn(r.next(), 20, 60);
    auto proc = BuildProc(p);
    RecUI ui;
    ui.record_var = false;
    SetTrace(&ui.trace);
    proc->Setup();
    double limit = Now() + 0.03;
    int ticks = 0, max_ticks = r.chance(1, 3) ? r.range(1, 8) : 300;
    while (!Fin(proc->GetStatus()) && ticks++ < max_ticks && Now() < limit)
    {
      proc->ExecuteSingle(ui);
      std::this_thread::sleep_for(std::chrono::microseconds(r.below(100)));
    }
    if (Fin(proc->GetStatus())) Count("ended by itself");
    auto check = [&](const char* what) {
      long before = ui.trace.Size();
      std::map<std::string, int> in;
      for (auto& e : ui.trace.Get())
      {
        if (e.kind == K::kEnter) ++in[e.id];
        if (e.kind == K::kExit) --in[e.id];
        if (e.kind == K::kEnter && e.num != 1) Violation("par:twice", "leaf " + e.id + " is executed by two threads at once in " + text);
      }
      for (auto& [id, c] : in) HX_CHECK(c == 0, std::string("par:") + what + "-executing", "leaf " << id << " executes after the " << what << " of " << text);
      if (r.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(600));
      HX_CHECK(ui.trace.Size() == before, std::string("par:") + what + "-events", (ui.trace.Size() - before) << " events after the " << what << " of " << text);
    };
    if (end == 0 && r.chance(1, 2)) proc->Halt();
    if (end < 2)
    {
      proc->Reset(ui);
      check("reset");
      // once more, from the start
      if (r.chance(1, 2))
      {
        for (int t = 0; t < 5 && !Fin(proc->GetStatus()); ++t) proc->ExecuteSingle(ui);
        proc->Reset(ui);
        check("reset");
      }
    }
    proc.reset();
    check("destruction");
    Count("leaf executions", static_cast<long>(ui.trace.Of(K::kEnter).size()));
    DistinctHash(InterleavingHash());
    PerturbOff();
    SetTrace(nullptr);
    Eval();
    Beat();
  }
}

// an asynchronous instruction does not hold up the tick, and gives its child's result
void AsyncOne()
{
  Section s("async");
  if (!s.run) return;
  Rng r(Opt().seed * 57 + 1);
  long n = Scale(150, 8, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    CloseGates();
    bool ok = r.chance(1, 2);
    std::string script = std::string(r.below(3), 'N') + std::string(r.below(2), 'R') + (ok ? "S" : "F");
    auto leaf = Leaf("A", script);
    leaf.Set("gate", "a");
    int wrap = static_cast<int>(r.below(4));
    Spec a = Comp("Async", {leaf});
    Spec spec = wrap == 0 ? a : wrap == 1 ? Comp("Sequence", {a, Leaf("Z", "S")}) : wrap == 2 ? Comp("Fallback", {a, Leaf("Z", "F")}) : Comp("Inverter", {a});
    Number(spec);
    ProcSpec p;
    p.roots = {spec};
    auto text = ToText(spec);
    Case(text);
    auto proc = BuildProc(p);
    RecUI ui;
    SetTrace(&ui.trace);
    proc->Setup();
    // the gate is closed: ticks return at once and nothing is decided (a blocked tick is a hang)
    double limit = Now() + 60;
    int ticks = 0;
    while ((ui.trace.Of(K::kEnter).empty() || ticks < 5) && Now() < limit && !Fin(proc->GetStatus()))
    {
      proc->ExecuteSingle(ui);
      ++ticks;
      std::this_thread::sleep_for(std::chrono::microseconds(100));
    }
    HX_CHECK(!Fin(proc->GetStatus()) && ui.trace.Of(K::kExit).empty(), "async:early", text);
    HX_CHECK(proc->GetStatus() == ES::RUNNING, "async:running", text << " is " << StatusChar(proc->GetStatus()) << " while its asynchronous child executes");
    OpenGate("a");
    limit = Now() + 60;
    while (!Fin(proc->GetStatus()) && Now() < limit)
    {
      proc->ExecuteSingle(ui);
      std::this_thread::sleep_for(std::chrono::microseconds(30));
    }
    ES expected = wrap == 0 || wrap == 1 ? (ok ? ES::SUCCESS : ES::FAILURE) : wrap == 2 ? (ok ? ES::SUCCESS : ES::FAILURE) : (ok ? ES::FAILURE : ES::SUCCESS);
    HX_CHECK(proc->GetStatus() == expected, "async:result", text << " is " << StatusChar(proc->GetStatus()));
    std::string seq;
    for (auto& e : ui.trace.Get())
      if (e.kind == K::kEnter) seq += e.id;
    std::string want = std::string(script.size(), 'A') + ((wrap == 1 && ok) || (wrap == 2 && !ok) ? "Z" : "");
    HX_CHECK(seq == want, "async:executions", text << " executed " << seq << " instead of " << want);
    SetTrace(nullptr);
    Eval();
    Distinct(text);
    Beat();
  }
}

// between two steps of its only branch nothing executes, and the status says so
void Steps()
{
  Section s("steps");
  if (!s.run) return;
  Rng r(Opt().seed * 59 + 1);
  long n = Scale(120, 8, 2);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    int steps = r.range(1, 4);
    bool ok = r.chance(1, 2), async = r.chance(1, 2);
    std::vector<Spec> ch;
    std::string script;
    if (r.chance(1, 2)) script = std::string(static_cast<size_t>(steps), 'N') + (ok ? "S" : "F");
    Spec branch = Leaf("A", script);
    if (script.empty())
    {
      for (int i = 0; i <= steps; ++i) ch.push_back(Leaf("A" + std::to_string(i), i == steps && !ok ? "F" : "S"));
      branch = Comp("Sequence", ch);
    }
    Spec spec = Comp(async ? "Async" : "ParallelSequence", {branch});
    ProcSpec p;
    p.roots = {spec};
    auto text = ToText(spec);
    Case(text);
    auto proc = BuildProc(p);
    RecUI ui;
    SetTrace(&ui.trace);
    proc->Setup();
    double limit = Now() + 60;
    int between = 0;
    while (!Fin(proc->GetStatus()) && Now() < limit)
    {
      proc->ExecuteSingle(ui);
      between += proc->GetStatus() == ES::NOT_FINISHED;
      if (r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(50));
    }
    HX_CHECK(proc->GetStatus() == (ok ? ES::SUCCESS : ES::FAILURE), "async:result", text << " is " << StatusChar(proc->GetStatus()));
    HX_CHECK(between == steps, "async:between", text << " was not finished, and not running, after " << between << " ticks; the branch has " << steps << " steps before its last");
    SetTrace(nullptr);
    proc->Reset(ui);
    Count("branches followed step by step");
    Eval();
    Distinct("steps " + text);
    Beat();
  }
}
}  // namespace

HX_MAIN([] {
  Rule("a distinct case is a parallel procedure with its outcomes, thresholds, release order and way of ending, or (nested) a distinct order of lock operations");
  AsyncOne();
  Thresholds();
  Nested();
  Steps();
})

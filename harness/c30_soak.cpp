// Soak: whole-library procedures under control commands, shared workspaces and observers.
#include "full.h"

#include <sup/oac-tree/instruction_info.h>
#include <sup/oac-tree/job_info.h>

#include <dirent.h>
#include <sys/stat.h>

using namespace fx;
using namespace hx;

namespace
{
// what a client of a running procedure may do with its workspace at any time
std::atomic<long> g_reads[3];   // relaxed, so that counting orders nothing
void Touch(Procedure& proc, Rng& q, const std::vector<const Instruction*>& instr)
{
  // what an observer may ask at any time
  for (auto i : instr)
    if (q.chance(1, 4)) g_reads[i->GetStatus() == ES::NOT_STARTED ? 0 : 1].fetch_add(1, std::memory_order_relaxed);
  if (q.chance(1, 4)) (void)proc.GetStatus();
  auto& ws = proc.GetWorkspace();
  auto names = FullScalarNames();
  sup::dto::AnyValue v;
  switch (q.below(7))
  {
  case 0: ws.GetValue(q.pick(names), v); break;
  case 1:
    if (ws.GetValue(q.pick(names), v)) ws.SetValue(q.pick(names), v);
    break;
  case 2: ws.WaitForVariable(q.chance(1, 2) ? "i32" : "hxoff", 0.0005, q.chance(1, 2)); break;
  case 3:
  {
    int me;
    std::atomic<long> seen{0};
    auto guard = ws.GetCallbackGuard(&me);
    ws.RegisterGenericCallback([&](const std::string&, const sup::dto::AnyValue&, bool) { ++seen; MaybeDelay(); }, &me);
    ws.RegisterCallback("i32", [&](const sup::dto::AnyValue&, bool) { ++seen; }, &me);
    std::this_thread::sleep_for(std::chrono::microseconds(q.below(400)));
    g_reads[2].fetch_add(seen.load(), std::memory_order_relaxed);
    break;
  }
  case 4: DriveVar("hx", sup::dto::AnyValue{sup::dto::SignedInteger32Type, static_cast<int>(q.below(4))}, q.chance(2, 3)); break;
  case 5: DriveAvail("hxoff", q.chance(1, 2)); break;
  default:
    for (auto var : ws.GetVariables()) var->IsAvailable();
  }
}
template <typename R> void Command(R& run, Rng& q, const std::vector<const Instruction*>& instr)
{
  switch (q.below(10))
  {
  case 0: case 1: case 2: run.Start(); break;
  case 3: run.Step(); break;
  case 4: run.Pause(); break;
  case 5: run.Reset(); break;
  case 6: run.Halt(); break;
  case 7: run.SetBreakpoint(q.pick(instr)); break;
  case 8: run.RemoveBreakpoint(q.pick(instr)); break;
  default: std::this_thread::sleep_for(std::chrono::microseconds(q.below(500)));
  }
}

void OneRun(Rng& r, std::unique_ptr<Procedure> proc, const std::string& text, double seconds)
{
  RecUI ui;
  ui.record_var = false;
  std::mutex m;
  Rng answers(r.next());
  ui.on_input = [&](const UserInputRequest& rq) {
    std::lock_guard<std::mutex> lk(m);
    return RandomAnswer(answers, rq);
  };
  {
    AsyncRunner run(*proc, ui, ui);
    auto nodes = Preorder(const_cast<Instruction*>(proc->RootInstruction()));
    std::vector<const Instruction*> instr(nodes.begin(), nodes.end());
    std::vector<std::thread> th;
    int clients = r.range(1, 3);
    std::atomic<long> commands{0};
    run.Start();
    for (int c = 0; c < clients; ++c)
      th.emplace_back([&, seed = r.next()] {
        Rng q(seed);
        double until = Now() + seconds * static_cast<double>(1 + q.below(3)) / 3;
        while (Now() < until)
        {
          if (q.chance(1, 2)) Touch(*proc, q, instr);
          else Command(run, q, instr);
          ++commands;
        }
      });
    for (auto& t : th) t.join();
    if (r.chance(1, 2))
    {
      // commands of the clients may still be queued: Halt overtakes them, and a Reset and a Start may follow it
      bool finished = false;
      for (double until = Now() + 60; !finished && Now() < until;)
      {
        run.Halt();
        finished = ui.WaitFinished(0.2);
      }
      HX_CHECK(finished, "soak:stuck", "the job does not finish after Halt: state " << static_cast<int>(ui.State()) << " " << text);
    }
    Count("commands and accesses by clients", commands.load());
    Count("statuses read by clients: not started", g_reads[0].exchange(0));
    Count("statuses read by clients: others", g_reads[1].exchange(0));
    Count("callbacks received by clients", g_reads[2].exchange(0));
    Count("ticks", ui.ticks.load());
  }
  proc->Reset(ui);
  proc.reset();
  Count("status reports", ui.trace.Size());
  DistinctHash(Hash(text));
  Eval();
}

void Soak()
{
  Section s("soak");
  if (!s.run) return;
  Rng r(Opt().seed * 131 + 1);
  long n = Scale(260, 14, 1);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    bool perturb = r.chance(1, 2);
    if (perturb) PerturbOn(r.next(), 32, 60);
    std::vector<std::thread> th;
    int jobs = r.range(1, 3);
    for (int j = 0; j < jobs; ++j)
    {
      FullOpt o;
      o.dir = Opt().scratch + "/j" + std::to_string(j);
      mkdir(o.dir.c_str(), 0777);
      o.max_nodes = r.range(4, 40);
      o.us = r.chance(1, 2) ? 200 : 0;
      auto p = GenFull(r, o);
      auto text = ToXml(p);
      if (j == 0) Case(text);
      if (k % 40 == 0 && j == 0) Sample(ToText(p.roots.back()));
      th.emplace_back([seed = r.next(), text, dir = o.dir, j] {
        Rng q(seed);
        auto file = dir + "/soak" + std::to_string(j) + ".xml";
        WriteFile(file, text);
        std::unique_ptr<Procedure> proc;
        try
        {
          proc = ParseProcedureFile(file);
          proc->Setup();
          RecUI ui;
          proc->Reset(ui);
          proc = ParseProcedureFile(file);
        }
        catch (const std::exception& e)
        {
          Violation("soak:setup", std::string("a procedure of the generator is refused: ") + e.what() + " " + text);
          return;
        }
        OneRun(q, std::move(proc), text, 0.02);
      });
    }
    for (auto& t : th) t.join();
    if (perturb)
    {
      DistinctHash(InterleavingHash());
      PerturbOff();
    }
    Beat();
  }
}

// the procedures of the repository itself
void Resources()
{
  Section s("resources");
  if (!s.run) return;
  Rng r(Opt().seed * 137 + 2);
  auto repo = std::getenv("VERIF_REPO") ? std::string(std::getenv("VERIF_REPO")) : std::string("/repo");
  auto copy = Opt().scratch + "/res";
  if (std::system(("cp -r '" + repo + "/test/resources' '" + copy + "' 2>/dev/null").c_str()) != 0)
  {
    Count("resources not found");
    return;
  }
  std::vector<std::string> files;
  for (auto& d : {copy, copy + "/instruction_definitions"})
    if (DIR* h = opendir(d.c_str()))
    {
      while (auto e = readdir(h))
      {
        std::string n = e->d_name;
        if (n.size() > 4 && n.substr(n.size() - 4) == ".xml") files.push_back(d + "/" + n);
      }
      closedir(h);
    }
  std::sort(files.begin(), files.end());
  long rounds = Scale(2, 10, 1);
  for (long k = 0; k < rounds; ++k)
    for (auto& f : files)
    {
      Case(f);
      try
      {
        auto proc = ParseProcedureFile(f);
        if (!proc) continue;
        proc->Setup();
        RecUI ui;
        proc->Reset(ui);
        if (!proc->RootInstruction()) continue;
        OneRun(r, ParseProcedureFile(f), f, 0.03);
        Count("procedures of the repository executed");
      }
      catch (const std::exception&)
      {
        Count("procedures of the repository refused");
      }
      Beat();
    }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("one procedure under one command history; distinct by the text of the procedure and, when perturbed, by the order of lock acquisitions");
    RegisterFixtures();
    Resources();
    Soak();
  })

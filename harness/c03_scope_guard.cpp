// Scope guard: random programs over a pool of guards, compared after every step with a model of
// which guard owns which action and how often each action ran.
#include "hx.h"

#include <sup/oac-tree/scope_guard.h>

#include <array>

using namespace sup::oac_tree;
using namespace hx;

namespace
{
struct World
{
  static const int kSlots = 5;
  std::vector<int> runs;             // per action: times run
  std::vector<int> exp;              // expected
  std::array<std::unique_ptr<ScopeGuard>, kSlots> g;
  std::array<int, kSlots> own;       // action owned, -1 none (guard exists), -2 no guard
  std::vector<std::shared_ptr<int>> payload;
  std::string hist;

  World() { own.fill(-2); }
  int NewAction()
  {
    runs.push_back(0);
    exp.push_back(0);
    payload.push_back(std::make_shared<int>(static_cast<int>(runs.size()) - 1));
    return static_cast<int>(runs.size()) - 1;
  }
  std::function<void()> Action(int id, bool big)
  {
    auto p = payload[id];
    // a large capture lives on the heap, a small one inside the std::function
    if (big) { std::array<long, 12> pad{}; pad[3] = id; return [this, p, pad] { ++runs[pad[3] == *p ? *p : -1]; }; }
    return [this, p] { ++runs[*p]; };
  }
  bool Check()
  {
    if (runs != exp)
    {
      for (size_t i = 0; i < runs.size(); ++i)
        if (runs[i] != exp[i]) { Violation("guard:run-count", "action " + std::to_string(i) + " ran " + std::to_string(runs[i]) + " times, expected " + std::to_string(exp[i]) + " after " + hist); break; }
      return false;
    }
    for (int i = 0; i < kSlots; ++i)
      if (g[i] && g[i]->IsValid() != (own[i] >= 0))
      {
        Violation("guard:validity", "guard " + std::to_string(i) + " says valid=" + std::to_string(g[i]->IsValid()) + " after " + hist);
        return false;
      }
    return true;
  }
  void Destroy(int i)
  {
    if (!g[i]) return;
    if (own[i] >= 0) ++exp[own[i]];
    own[i] = -2;
    g[i].reset();
  }
};

enum { kNewDefault, kNewFunc, kNewBig, kNewEmpty, kDestroy, kMoveCtor, kMoveAssign, kSwap, kReturn, kThrow, kOps };

ScopeGuard Pass(ScopeGuard g) { return g; }

void Do(World& w, int op, int a, int b)
{
  static const char* names[] = {"default", "new", "newbig", "newempty", "destroy", "movector", "moveassign", "swap", "pass", "unwind"};
  w.hist += std::string(names[op]) + "(" + std::to_string(a) + "," + std::to_string(b) + ") ";
  switch (op)
  {
  case kNewDefault: w.Destroy(a); w.g[a].reset(new ScopeGuard); w.own[a] = -1; break;
  case kNewFunc:
  case kNewBig:
  {
    w.Destroy(a);
    int id = w.NewAction();
    w.g[a].reset(new ScopeGuard(w.Action(id, op == kNewBig)));
    w.own[a] = id;
    break;
  }
  case kNewEmpty: w.Destroy(a); w.g[a].reset(new ScopeGuard(std::function<void()>{})); w.own[a] = -1; break;
  case kDestroy: w.Destroy(a); break;
  case kMoveCtor:
    if (a == b || !w.g[b]) break;
    w.Destroy(a);
    w.g[a].reset(new ScopeGuard(std::move(*w.g[b])));
    w.own[a] = w.own[b];
    w.own[b] = -1;
    break;
  case kMoveAssign:
    if (!w.g[a] || !w.g[b] || a == b) break;
    if (w.own[a] >= 0) ++w.exp[w.own[a]];
    w.own[a] = w.own[b];
    w.own[b] = -1;
    *w.g[a] = std::move(*w.g[b]);
    break;
  case kSwap:
    if (!w.g[a] || !w.g[b]) break;
    w.g[a]->Swap(*w.g[b]);
    std::swap(w.own[a], w.own[b]);
    break;
  case kReturn:
    // through a by-value parameter and back into the same slot
    if (!w.g[a]) break;
    {
      ScopeGuard t = Pass(std::move(*w.g[a]));
      if (t.IsValid() != (w.own[a] >= 0)) Violation("guard:validity", "guard passed by value: valid=" + std::to_string(t.IsValid()) + " after " + w.hist);
      if (w.g[a]->IsValid()) Violation("guard:validity", "moved-from guard still valid after " + w.hist);
      *w.g[a] = std::move(t);
    }
    break;
  case kThrow:
    // an action owned by a local runs once while an exception unwinds the scope
    {
      int id = w.NewAction();
      try
      {
        ScopeGuard local(w.Action(id, b % 2));
        if (w.runs[id] != 0) Violation("guard:early-run", "the action ran before the end of the scope, " + w.hist);
        throw std::runtime_error("x");
      }
      catch (const std::runtime_error&)
      {
        if (w.runs[id] != 1) Violation("guard:run-count", "during unwinding the action ran " + std::to_string(w.runs[id]) + " times, " + w.hist);
      }
      ++w.exp[id];
    }
    break;
  }
}

void Exhaust()
{
  Section s("exhaustive-programs");
  if (!s.run) return;
  // all programs of length L over 2 slots and 8 operations with both argument orders
  const int L = Opt().thorough ? 5 : 4;
  std::vector<std::array<int, 3>> letters;
  for (int op = 0; op < kOps; ++op)
    for (int a = 0; a < 2; ++a)
    {
      bool binary = op == kMoveCtor || op == kMoveAssign || op == kSwap;
      for (int b = 0; b < (binary ? 2 : 1); ++b) letters.push_back({op, a, b});
    }
  std::vector<size_t> w(L, 0);
  long total = 0;
  for (;;)
  {
    {
      World x;
      bool ok = true;
      for (int i = 0; ok && i < L; ++i)
      {
        auto& l = letters[w[i]];
        Do(x, l[0], l[1], l[2]);
        ok = x.Check();
      }
      for (int i = 0; i < World::kSlots; ++i) x.Destroy(i);
      if (ok) x.Check();
      if (total % 97 == 0) Distinct(x.hist);
      if (total == 54321) Sample("program: " + x.hist);
    }
    ++total;
    if ((total & 255) == 0) { Eval(256); if (TooMany()) return; }
    int i = L - 1;
    while (i >= 0 && ++w[i] == letters.size()) w[i--] = 0;
    if (i < 0) break;
  }
  Count("programs_enumerated", total);
  Exhaustive("all programs of " + std::to_string(L) + " guard operations over 2 guards (" + std::to_string(letters.size()) + " letters)");
}

void Random()
{
  Section s("random-programs");
  if (!s.run) return;
  Rng rng(Opt().seed * 5 + 1);
  for (long n = Scale(8000, 10, 4); n > 0 && !TooMany(); --n)
  {
    World w;
    int len = rng.range(5, 80);
    bool ok = true;
    for (int i = 0; ok && i < len; ++i)
    {
      Do(w, rng.range(0, kOps - 1), rng.range(0, World::kSlots - 1), rng.range(0, World::kSlots - 1));
      ok = w.Check();
    }
    for (int i = 0; i < World::kSlots; ++i) w.Destroy(i);
    if (ok) w.Check();
    if (ok)
      for (size_t i = 0; i < w.runs.size(); ++i)
        HX_CHECK(w.runs[i] == 1, "guard:exactly-once", "action " << i << " ran " << w.runs[i] << " times in all: " << w.hist);
    // the state captured by the actions is released with the guards
    for (size_t i = 0; ok && i < w.payload.size(); ++i)
      HX_CHECK(w.payload[i].use_count() == 1, "guard:capture-retained", "captured state of action " << i << " still referenced: " << w.hist);
    Eval();
    Distinct(w.hist);
    if (n % 3000 == 1) Sample("program: " + w.hist);
  }
}

// Containers of guards: growth moves them, nothing runs until they are destroyed.
void Containers()
{
  Section s("containers");
  if (!s.run) return;
  Rng rng(Opt().seed * 3 + 17);
  for (long n = Scale(400, 10, 4); n > 0 && !TooMany(); --n)
  {
    int k = rng.range(1, 60);
    std::vector<int> runs(k, 0), order;
    {
      std::vector<ScopeGuard> v;
      for (int i = 0; i < k; ++i) v.push_back(ScopeGuard([&runs, &order, i] { ++runs[i]; order.push_back(i); }));
      int early = 0;
      for (int r : runs) early += r;
      HX_CHECK(early == 0, "guard:early-run", early << " of " << k << " actions ran while their guards were only being moved in a vector");
      if (rng.chance(1, 2))
      {
        size_t e = rng.below(v.size());
        v.erase(v.begin() + e);
        for (int i = 0; i < k; ++i) HX_CHECK(runs[i] == (static_cast<size_t>(i) == e), "guard:run-count", "erasing guard " << e << " of a vector: action " << i << " ran " << runs[i] << " times");
      }
    }
    for (int i = 0; i < k; ++i) HX_CHECK(runs[i] == 1, "guard:exactly-once", "vector of " << k << " guards: action " << i << " ran " << runs[i] << " times");
    Eval();
    DistinctHash(900000 + k);
  }
}

void Body()
{
  Rule("programs of guard operations (construct, destroy, move, assign, swap, pass by value, unwind), all short ones over "
       "two guards and random long ones over five; checked after every operation; distinct by program text");
  Exhaust();
  Random();
  Containers();
}
}  // namespace

HX_MAIN(Body)

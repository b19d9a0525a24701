// Instruction trees: structure, and what is announced as next against what a tick executes.
#include "full.h"

using namespace fx;
using namespace hx;

namespace
{
void Walk(const Instruction* i, const Instruction* parent, std::map<const Instruction*, const Instruction*>& par, std::vector<const Instruction*>& leaves)
{
  par[i] = parent;
  auto ch = static_cast<const Instruction*>(i)->ChildInstructions();
  if (ch.empty()) leaves.push_back(i);
  for (auto c : ch) Walk(c, i, par, leaves);
}
std::vector<const Instruction*> Bfs(const Instruction* root)
{
  std::vector<const Instruction*> out{root};
  for (size_t k = 0; k < out.size(); ++k)
    for (auto c : out[k]->ChildInstructions()) out.push_back(c);
  return out;
}
void SameTree(const InstructionTree& t, const Instruction* i, const std::string& text)
{
  if (!HX_CHECK(t.GetInstruction() == i, "tree:node", "a node of the full tree is not the instruction at its place: " << text)) return;
  auto ch = static_cast<const Instruction*>(i)->ChildInstructions();
  auto tc = t.GetChildren();
  if (!HX_CHECK(tc.size() == ch.size() && t.GetChildInstructions() == std::vector<const Instruction*>(ch.begin(), ch.end()), "tree:children", "children differ: " << text)) return;
  for (size_t k = 0; k < ch.size(); ++k) SameTree(*tc[k], ch[k], text);
}
void Flat(const InstructionTree& t, std::vector<const Instruction*>& leaves)
{
  if (t.GetChildren().empty()) leaves.push_back(t.GetInstruction());
  for (auto c : t.GetChildren()) Flat(*c, leaves);
}

void CheckFull(const Procedure& proc, const std::string& text)
{
  auto root = proc.RootInstruction();
  auto tree = CreateFullInstructionTree(root);
  SameTree(tree, root, text);
  auto bfs = Bfs(root);
  HX_CHECK(FlattenBFS(tree) == bfs, "tree:bfs", "flattening is not level by level: " << text);
  std::map<const Instruction*, const Instruction*> par;
  std::vector<const Instruction*> leaves;
  Walk(root, nullptr, par, leaves);
  auto got = GetLeaves(tree);
  std::multiset<const Instruction*> a(got.begin(), got.end()), b(leaves.begin(), leaves.end());
  HX_CHECK(a == b, "tree:leaves", "leaves of the full tree: " << got.size() << " listed, " << leaves.size() << " exist: " << text);
  // moving
  InstructionTree moved(std::move(tree));
  HX_CHECK(FlattenBFS(moved) == bfs, "tree:moved", text);
  InstructionTree other(proc.RootInstruction());
  other = std::move(moved);
  HX_CHECK(FlattenBFS(other) == bfs, "tree:move-assigned", text);
  std::vector<InstructionTree> store;
  for (int k = 0; k < 5; ++k) store.push_back(CreateFullInstructionTree(root));
  for (auto& t : store) HX_CHECK(FlattenBFS(t) == bfs, "tree:stored", text);
  Count("full trees compared");
}

void Structure()
{
  Section s("structure");
  if (!s.run) return;
  Rng r(Opt().seed * 5 + 1);
  long n = Scale(1500, 12, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    FullOpt o;
    o.dir = Opt().scratch;
    o.max_nodes = r.range(1, 60);
    o.max_depth = r.range(1, 8);
    o.files = false;
    auto p = GenFull(r, o);
    auto file = Opt().scratch + "/t.xml";
    auto text = ToXml(p);
    WriteFile(file, text);
    Case(text);
    auto proc = ParseProcedureFile(file);
    CheckFull(*proc, text);
    proc->Setup();
    CheckFull(*proc, text);   // includes have got their trees
    auto info = GetLeaves(CreateNextInstructionTree(proc->RootInstruction()));
    HX_CHECK(!info.empty(), "tree:next-empty", "nothing is announced for a procedure that was not started: " << text);
    RecUI ui;
    proc->Reset(ui);
    Eval();
    Distinct(text);
    Beat();
  }
}

// what is announced is what the tick executes
void Next()
{
  Section s("next");
  if (!s.run) return;
  Rng r(Opt().seed * 7 + 2);
  long n = Scale(5000, 12, 5);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    GenOpt o;
    o.running = false;   // an instruction that runs asynchronously is not announced
    o.max_nodes = r.range(1, 24);
    o.max_depth = r.range(1, 6);
    ProcSpec p;
    ModelVars mv;
    auto spec = GenTree(r, o, p, mv);
    p.roots = {spec};
    auto text = ToText(spec);
    Case(text);
    auto proc = BuildProc(p);
    proc->Setup();
    RecUI ui;
    Trace tr;
    SetTrace(&tr);
    Model m(spec, mv);
    auto nodes = Preorder(const_cast<Instruction*>(proc->RootInstruction()));
    std::map<const Instruction*, int> ids;
    for (size_t i = 0; i < nodes.size(); ++i) ids[nodes[i]] = static_cast<int>(i);
    int t = 0;
    for (; t < 300 && !IsFinishedStatus(proc->GetStatus()); ++t)
    {
      auto next = GetNextInstructions(*proc);
      auto leaves = GetNextLeaves(*proc);
      auto mn = m.Next(), ml = m.NextLeaves();
      std::string a, b;
      for (auto i : next) a += " " + std::to_string(ids[i]);
      for (auto i : mn) b += " " + std::to_string(i);
      if (!HX_CHECK(a == b, "next:tree", "before tick " << t << " announced [" << a << " ], the semantics prescribe [" << b << " ]: " << text)) break;
      a = b = "";
      std::multiset<int> la, lb(ml.begin(), ml.end());
      for (auto i : leaves) la.insert(ids[i]);
      if (!HX_CHECK(la == lb, "next:leaves", "before tick " << t << ": " << text)) break;
      tr.Clear();
      proc->ExecuteSingle(ui);
      m.Tick();
      // every leaf that executes first in this tick was announced, or lies in a body that starts over
      std::set<const Instruction*> announced(next.begin(), next.end());
      auto ev = tr.Of(K::kEnter);
      Count("announcements compared");
      if (!ev.empty())
      {
        bool in = announced.count(ev.front().instr) > 0;
        bool under = false;
        for (auto i : leaves)
        {
          auto sub = Preorder(const_cast<Instruction*>(i));
          if (std::find(sub.begin(), sub.end(), ev.front().instr) != sub.end()) under = true;
        }
        // an initialisation that failed ahead of it passes the turn on within the same tick
        bool init_failed = false;
        for (auto& e : tr.Of(K::kInit))
          if (!e.num) init_failed = true;
        HX_CHECK(in || under || init_failed, "next:executed", "tick " << t << " executed instruction " << ids[ev.front().instr] << " that was not announced: " << text);
        Count(in ? "executed as announced" : "executed in an announced body");
      }
      Eval();
    }
    if (IsFinishedStatus(proc->GetStatus()))
      HX_CHECK(GetNextInstructions(*proc).empty() && GetNextLeaves(*proc).empty(), "next:finished", "a finished procedure announces instructions: " << text);
    SetTrace(nullptr);
    proc->Reset(ui);
    if (t > 1) Distinct(text);
    Sample(text);
    Beat();
  }
}
// inserting and taking instructions: the children are the list the operations describe
void Editing()
{
  Section s("editing");
  if (!s.run) return;
  Rng r(Opt().seed * 5 + 2);
  long n = Scale(1500, 10, 3);
  const std::vector<std::string> compounds{"Sequence", "Fallback", "ParallelSequence", "ReactiveSequence", "ReactiveFallback", "Choice", "UserChoice"};
  const std::vector<std::string> decorators{"Inverter", "ForceSuccess", "Repeat", "For", "Async", "Listen"};
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    int kind = static_cast<int>(r.below(5));   // 3: decorator, 4: action
    auto type = kind < 3 ? r.pick(compounds) : kind == 3 ? r.pick(decorators) : std::string("Succeed");
    auto in = GlobalInstructionRegistry().Create(type);
    std::vector<const Instruction*> model;
    std::string text = type;
    for (int step = r.range(1, 25); step > 0; --step)
    {
      int index = r.range(-2, static_cast<int>(model.size()) + 2);
      if (r.chance(1, 40)) index = r.chance(1, 2) ? 1000000 : -1000000;
      if (r.chance(3, 5))
      {
        auto child = GlobalInstructionRegistry().Create("Wait");
        auto c = child.get();
        bool want = kind < 3 ? index >= 0 && index <= static_cast<int>(model.size()) : kind == 3 && index == 0;
        bool got = in->InsertInstruction(std::move(child), index);
        text += " insert " + std::to_string(index);
        HX_CHECK(got == want, "tree:insert", text << " answered " << got);
        if (want && kind == 3) model = {c};
        else if (want) model.insert(model.begin() + index, c);
      }
      else
      {
        bool want = index >= 0 && index < static_cast<int>(model.size());
        auto got = in->TakeInstruction(index);
        text += " take " + std::to_string(index);
        HX_CHECK((got != nullptr) == want && (!want || got.get() == model[static_cast<size_t>(index)]), "tree:take", text);
        if (want) model.erase(model.begin() + index);
      }
      const Instruction& ci = *in;
      HX_CHECK(ci.ChildInstructions() == model, "tree:children", text << " left " << ci.ChildInstructions().size() << " children instead of " << model.size());
      HX_CHECK(in->ChildrenCount() == static_cast<int>(model.size()), "tree:count", text << " left " << in->ChildrenCount());
      auto flat = FlattenBFS(CreateFullInstructionTree(in.get()));
      auto want = model;
      want.insert(want.begin(), in.get());
      HX_CHECK(flat == want, "tree:flat", text);
    }
    Eval();
    Distinct(text);
  }
  // a procedure's top instructions
  for (long k = 0; k < n / 3 && !TooMany(); ++k)
  {
    Procedure p;
    std::vector<const Instruction*> model;
    std::string text = "procedure";
    for (int step = r.range(1, 15); step > 0; --step)
    {
      int index = r.range(-2, static_cast<int>(model.size()) + 2);
      switch (r.below(4))
      {
      case 0:
      {
        auto c = GlobalInstructionRegistry().Create("Succeed");
        model.push_back(c.get());
        p.PushInstruction(std::move(c));
        text += " push";
        break;
      }
      case 1: case 2:
      {
        auto c = GlobalInstructionRegistry().Create("Succeed");
        auto q = c.get();
        bool want = index >= 0 && index <= static_cast<int>(model.size());
        text += " insert " + std::to_string(index);
        HX_CHECK(p.InsertInstruction(std::move(c), index) == want, "tree:insert", text);
        if (want) model.insert(model.begin() + index, q);
        break;
      }
      default:
      {
        bool want = index >= 0 && index < static_cast<int>(model.size());
        text += " take " + std::to_string(index);
        auto got = p.TakeInstruction(index);
        HX_CHECK((got != nullptr) == want && (!want || got.get() == model[static_cast<size_t>(index)]), "tree:take", text);
        if (want) model.erase(model.begin() + index);
      }
      }
      const Procedure& cp = p;
      HX_CHECK(cp.GetTopInstructions() == model && cp.GetInstructionCount() == static_cast<int>(model.size()), "tree:top", text);
    }
    Eval();
    Distinct(text);
  }
}

// parallel branches: once a tick and what it started have ended, the announced leaves are exactly those that the
// next tick executes
void Branches()
{
  Section s("branches");
  if (!s.run) return;
  Rng r(Opt().seed * 13 + 8);
  int id = 0;
  std::function<Spec(int)> part = [&](int depth) -> Spec
  {
    if (depth == 0 || r.chance(1, 4)) return Leaf("L" + std::to_string(id++), r.pick(std::vector<std::string>{"S", "NS", "NNS", "F", "NF"}));
    std::vector<Spec> kids;
    std::string type = r.pick(std::vector<std::string>{"Sequence", "Sequence", "Fallback", "Inverter", "ForceSuccess", "ParallelSequence"});
    for (int n = type == "Inverter" || type == "ForceSuccess" ? 1 : r.range(1, 3); n > 0; --n) kids.push_back(part(depth - 1));
    return Comp(type, kids);
  };
  for (long k = Scale(500, 12, 3); k > 0 && !TooMany(); --k)
  {
    std::vector<Spec> kids;
    for (int n = r.range(1, 4); n > 0; --n) kids.push_back(part(r.range(0, 3)));
    auto spec = Comp("ParallelSequence", kids);
    if (r.chance(1, 3)) spec.Set("failureThreshold", std::to_string(r.range(1, 3)));
    if (r.chance(1, 3)) spec = Comp("Sequence", {spec, Leaf("last", "S")});
    ProcSpec p;
    p.roots = {spec};
    auto text = ToText(spec);
    Case(text);
    auto proc = BuildProc(p);
    proc->Setup();
    RecUI ui;
    Trace tr;
    SetTrace(&tr);
    size_t seen = 0;
    std::multiset<const Instruction*> announced;
    for (int t = 0; t < 20000 && !IsFinishedStatus(proc->GetStatus()); ++t)
    {
      announced.clear();
      for (auto i : GetNextLeaves(*proc)) announced.insert(i);
      proc->ExecuteSingle(ui);
      // a result makes the branches end early
      if (IsFinishedStatus(proc->GetStatus())) break;
      std::multiset<const Instruction*> done;
      auto all = [&]
      {
        done.clear();
        auto ev = tr.Of(K::kExit);
        for (size_t i = seen; i < ev.size(); ++i) done.insert(ev[i].instr);
        return done.size() >= announced.size();
      };
      auto kids2 = proc->RootInstruction();
      bool ended = kids2->GetType() == "Sequence" && IsFinishedStatus(kids2->ChildInstructions()[0]->GetStatus());
      // within a nested parallel sequence that has its result, branches are stopped
      bool exact = !ended && text.find("ParallelSequence", text.find("ParallelSequence") + 1) == std::string::npos;
      WaitUntil(all, exact ? 5 : 0.01);
      seen += done.size();
      if (exact)
        if (!HX_CHECK(done == announced, "next:branches", "tick " << t << " executed " << done.size() << " leaves, announced were " << announced.size() << ": " << text)) break;
      Count("leaves executed in branches", static_cast<long>(done.size()));
      if (done.empty()) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    HX_CHECK(IsFinishedStatus(proc->GetStatus()), "next:branches-end", text << " does not end");
    proc->Reset(ui);
    SetTrace(nullptr);
    Eval();
    Distinct(text);
    Beat();
  }
}

// which instruction is the root, what a procedure without one does, copies of trees
bool SameTree(const Instruction* a, const Instruction* b)
{
  if (a == b || a->GetType() != b->GetType() || a->GetStringAttributes() != b->GetStringAttributes()) return false;
  auto x = a->ChildInstructions(), y = b->ChildInstructions();
  if (x.size() != y.size()) return false;
  for (size_t i = 0; i < x.size(); ++i)
    if (!SameTree(x[i], y[i])) return false;
  return true;
}
void Tops()
{
  Section s("tops");
  if (!s.run) return;
  Rng r(Opt().seed * 17 + 4);
  long n = Scale(1500, 10, 3);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    auto name = r.chance(1, 3) ? std::string() : "/some/dir/file" + std::to_string(r.below(9)) + ".xml";
    auto p = name.empty() && r.chance(1, 2) ? std::make_unique<Procedure>() : std::make_unique<Procedure>(name);
    HX_CHECK(p->GetFilename() == name && p->GetContext().GetFilename() == name, "tree:file", "'" << p->GetFilename() << "' instead of '" << name << "'");
    RecUI ui;
    auto idle = [&](const char* what) {
      p->ExecuteSingle(ui);
      p->Halt();
      p->Reset(ui);
      HX_CHECK(p->RootInstruction() == nullptr && p->GetStatus() == ES::SUCCESS && ui.trace.Size() == 0, "tree:rootless", "a procedure " << what << " executes something");
      HX_CHECK(p->GetNextInstructionTree().IsEmpty() && GetNextInstructions(*p).empty(), "tree:rootless", "a procedure " << what << " announces something");
      bool refused = false;
      try { p->Setup(); }
      catch (const ProcedureSetupException&) { refused = true; }
      HX_CHECK(refused, "tree:rootless", "a procedure " << what << " is set up");
    };
    if (r.chance(1, 3)) idle("without instructions");
    bool refused = false;
    try { p->PushInstruction(nullptr); }
    catch (const InvalidOperationException&) { refused = true; }
    HX_CHECK(refused && p->GetInstructionCount() == 0, "tree:null", "a null instruction is accepted");
    static const char* const yes[] = {"true", "yes", "on", "True", "ON"};
    static const char* const no[] = {"false", "no", "off", "nonsense", ""};
    const Instruction* want = nullptr;
    int m = r.range(1, 5);
    std::string text = std::to_string(m);
    for (int i = 0; i < m; ++i)
    {
      auto c = GlobalInstructionRegistry().Create("Succeed");
      int how = r.below(5);
      if (how == 0)
      {
        c->AddAttribute("isRoot", yes[r.below(3)]);
        if (want == nullptr) want = c.get();
      }
      else if (how == 1) c->AddAttribute("isRoot", no[r.below(5)]);
      text += std::to_string(how);
      if (m == 1) want = c.get();
      p->PushInstruction(std::move(c));
    }
    const Procedure& cp = *p;
    HX_CHECK(p->RootInstruction() == want && cp.RootInstruction() == want, "tree:root", "the root of " << text);
    if (want == nullptr) idle("without root");
    // copies
    FullOpt o;
    o.dir = Opt().scratch;
    o.max_nodes = r.range(1, 25);
    o.includes = false;
    auto spec = GenFull(r, o);
    auto q = BuildProc(spec);
    for (auto* top : q->GetTopInstructions())
    {
      auto copy = CloneInstructionTree(*top);
      HX_CHECK(copy && SameTree(top, copy.get()), "tree:clone", "a copied tree differs: " << ToText(spec.roots[0]));
      if (copy)
      {
        std::set<const Instruction*> a, b;
        for (auto* x : FlattenBFS(CreateFullInstructionTree(top))) a.insert(x);
        for (auto* x : FlattenBFS(CreateFullInstructionTree(copy.get()))) HX_CHECK(!a.count(x) && b.insert(x).second && x->GetStatus() == ES::NOT_STARTED, "tree:clone", "a copied tree shares instructions");
        HX_CHECK(a.size() == b.size(), "tree:clone", "a copied tree has another size");
      }
    }
    refused = false;
    try { CreateFullInstructionTree(nullptr); }
    catch (const InvalidOperationException&) { refused = true; }
    HX_CHECK(refused, "tree:null", "a tree of nothing");
    q->Reset(ui);
    Eval();
    Distinct(text + ToText(spec.roots[0]));
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("one generated procedure; distinct by its text");
    RegisterFixtures();
    Editing();
    Tops();
    Structure();
    Next();
    Branches();
  })

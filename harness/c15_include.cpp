// Inclusion: procedures with includes against their hand-inlined equivalents, and setup errors.
#include "full.h"

#include <sup/oac-tree/procedure_context.h>

#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace fx;
using namespace hx;

namespace
{
using Attrs = std::vector<std::pair<std::string, std::string>>;
const std::vector<std::string> kParams{"pid", "psc", "pv", "pn", "pt"};
const std::vector<std::string> kVars{"x", "y", "z"};

struct File
{
  std::string path;
  ProcSpec p;
  std::vector<std::pair<int, std::string>> names;   // rank, path of an includable tree
};
struct World
{
  std::vector<File> files;   // 0 is the main file
  int FileAt(const std::string& path) const
  {
    for (size_t k = 0; k < files.size(); ++k)
      if (files[k].path == path) return static_cast<int>(k);
    return -1;
  }
};

// ---- the specification of inclusion ---------------------------------------------------------
struct Inliner
{
  const World& w;
  bool ok = true;
  long inlined = 0, substituted = 0;
  int depth = 0, max_depth = 0;

  static std::string* Find(Attrs& a, const std::string& n)
  {
    for (auto& [k, v] : a)
      if (k == n) return &v;
    return nullptr;
  }
  std::string Resolve(int file, const std::string& f) const
  {
    if (!f.empty() && f[0] == '/') return f;
    return w.files[static_cast<size_t>(file)].path.substr(0, w.files[static_cast<size_t>(file)].path.rfind('/') + 1) + f;
  }
  const Spec* Lookup(int file, const std::string& path) const
  {
    const std::vector<Spec>* level = &w.files[static_cast<size_t>(file)].p.roots;
    if (path.empty())
    {
      for (auto& r : *level)
        if (r.Attr("isRoot") == "true") return &r;
      return level->size() == 1 ? &level->front() : nullptr;
    }
    std::stringstream ss(path);
    std::string part;
    const Spec* found = nullptr;
    while (std::getline(ss, part, '.'))
    {
      found = nullptr;
      for (auto& s : *level)
        if (s.Attr("name") == part)
        {
          found = &s;
          break;
        }
      if (!found) return nullptr;
      level = &found->ch;
    }
    return found;
  }
  static bool IsVarAttr(const std::string& n) { return n == "inc" || n == "show" || n == "varName" || n == "inputVar" || n == "outputVar" || n == "leftVar" || n == "rightVar" || n == "arrayVar" || n == "elementVar"; }
  static std::string Rename(int ws, const std::string& v) { return ws == 0 || v.empty() ? v : "w" + std::to_string(ws) + "_" + v; }
  void Failed() { ok = false; }

  // src as written in file, executed in workspace ws; env: parameters of the innermost inclusion (none at the top)
  Spec In(const Spec& src, int file, int ws, const Attrs* env)
  {
    Spec s;
    s.type = src.type;
    Attrs a = src.attrs;
    if (env)
      for (auto& [k, v] : a)
        if (!v.empty() && v[0] == '$')
        {
          auto it = std::find_if(env->begin(), env->end(), [&, name = v.substr(1)](auto& p) { return p.first == name; });
          if (it == env->end())
          {
            Failed();
            continue;
          }
          v = it->second;
          ++substituted;
        }
    bool inc = src.type == "Include", incp = src.type == "IncludeProcedure";
    if (inc || incp)
    {
      if (env)
        for (auto& [k, v] : *env)
          if (k != "file" && k != "path" && k != "name" && k != "isRoot" && !Find(a, k)) a.emplace_back(k, v);
      int tf = file;
      if (auto f = Find(a, "file")) tf = w.FileAt(Resolve(file, *f));
      auto p = Find(a, "path");
      const Spec* t = tf < 0 || (inc && !p) ? nullptr : Lookup(tf, p ? *p : "");
      if (!t)
      {
        Failed();
        return s;
      }
      ++inlined;
      max_depth = std::max(max_depth, ++depth);
      auto out = In(*t, tf, incp ? tf : ws, &a);
      --depth;
      return out;
    }
    if (src.type == "CopyToProcedure" || src.type == "CopyFromProcedure")
    {
      int tf = w.FileAt(Resolve(file, *Find(a, "file")));
      if (tf < 0) Failed();
      bool to = src.type == "CopyToProcedure";
      s.type = "Copy";
      s.attrs = {{"inputVar", Rename(to ? ws : tf, *Find(a, "inputVar"))}, {"outputVar", Rename(to ? tf : ws, *Find(a, "outputVar"))}};
      return s;
    }
    for (auto& [k, v] : a)
    {
      if (IsVarAttr(k)) v = Rename(ws, v);
      if (k == "maxCount" && !v.empty() && v[0] == '@') v = "@" + Rename(ws, v.substr(1));
      if (k != "name" && k != "isRoot") s.attrs.emplace_back(k, v);
    }
    for (auto& c : src.ch) s.ch.push_back(In(c, file, ws, env));
    return s;
  }
};

// ---- random worlds ----------------------------------------------------------------------------
struct Gen
{
  Rng& r;
  World& w;
  int leaf = 0;
  int broken;   // one in so many references is wrong (0: none)
  std::vector<std::pair<int, std::string>> ranked;   // file, path: includable trees, in order of rank

  std::string Rel(int from, int to)
  {
    auto& f = w.files[static_cast<size_t>(from)].path;
    auto& t = w.files[static_cast<size_t>(to)].path;
    auto dir = f.substr(0, f.rfind('/') + 1);
    if (t.compare(0, dir.size(), dir) == 0 && r.chance(3, 4)) return t.substr(dir.size());
    return t;
  }
  std::string Var(bool tpl) { return tpl && r.chance(1, 2) ? "$pv" : r.pick(kVars); }
  Spec Leaf1(bool tpl)
  {
    Spec s = Leaf(tpl && r.chance(1, 2) ? "$pid" : "L" + std::to_string(leaf++), tpl && r.chance(1, 3) ? "$psc" : GenScript(r, GenOpt{}));
    if (r.chance(1, 2)) s.Set("inc", Var(tpl));
    if (r.chance(1, 2)) s.Set("show", Var(tpl));
    return s;
  }
  Spec IncludeOf(int file, int rank, bool tpl)
  {
    Spec s;
    auto [tf, path] = ranked[r.below(static_cast<uint64_t>(rank))];
    bool proc = r.chance(2, 5);
    s.type = proc ? "IncludeProcedure" : "Include";
    if (tpl && r.chance(1, 5))
    {
      s.type = "Include";
      s.Set("path", "$pt");
    }
    else
    {
      if (proc || tf != file || r.chance(1, 5)) s.Set("file", Rel(file, tf));
      if (proc && r.chance(1, 6) && tf != 0) path = "";   // the root instruction of that file
      if (!path.empty()) s.Set("path", path);
    }
    if (broken && r.chance(1, broken))
    {
      switch (r.below(4))
      {
      case 0: s.Set("path", s.Attr("path") + ".nowhere"); break;
      case 1: s.Set("path", "no" + s.Attr("path")); break;
      case 2: s.Set("file", "missing.xml"); break;
      default: s.Set("path", "$punknown");
      }
    }
    for (auto& p : kParams)
    {
      if (broken && r.chance(1, broken)) continue;
      if (tpl && r.chance(1, 2)) continue;   // inherited from the including instruction
      if (tpl && r.chance(1, 4)) s.Set(p, "$" + r.pick(kParams));
      else s.Set(p, "?");
    }
    // values of the right kind (a parameter may be passed on only as the same kind)
    for (auto& [k, v] : s.attrs)
      if (v == "?" || (v[0] == '$' && k != "path"))
      {
        if (v[0] == '$') v = "$" + k;
        else if (k == "pid") v = "P" + std::to_string(leaf++);
        else if (k == "psc") v = GenScript(r, GenOpt{});
        else if (k == "pv") v = r.pick(kVars);
        else if (k == "pn") v = std::to_string(r.below(4));
        else if (k == "pt") v = r.chance(1, 2) ? "t0" : "t0.in";
      }
    if (r.chance(1, 4)) s.Set("unused", "value");
    if (r.chance(1, 4)) s.Set("name", "an include");
    return s;
  }
  Spec Make(int file, int rank, int depth, bool tpl)
  {
    if (depth >= 4 || r.chance(1, 4)) return Leaf1(tpl);
    if (rank > 0 && r.chance(2, 5)) return IncludeOf(file, rank, tpl);
    Spec s;
    switch (r.below(12))
    {
    case 0:
      s.type = r.chance(1, 2) ? "Increment" : "Decrement";
      s.Set("varName", Var(tpl));
      return s;
    case 1:
      s.type = "Copy";
      s.Set("inputVar", Var(tpl)).Set("outputVar", Var(tpl));
      return s;
    case 2:
      s.type = "LessThan";
      s.Set("leftVar", Var(tpl)).Set("rightVar", Var(tpl));
      return s;
    case 3:
      s.type = r.chance(1, 2) ? "CopyToProcedure" : "CopyFromProcedure";
      s.Set("file", Rel(file, static_cast<int>(r.below(w.files.size())))).Set("inputVar", Var(tpl)).Set("outputVar", Var(tpl));
      return s;
    case 4:
      s.type = "Repeat";
      s.Set("maxCount", tpl && r.chance(1, 2) ? "$pn" : r.chance(1, 3) ? "@cnt" : std::to_string(r.below(4)));
      s.ch.push_back(Make(file, rank, depth + 1, tpl));
      return s;
    case 5:
      s.type = r.chance(1, 2) ? "Inverter" : "ForceSuccess";
      s.ch.push_back(Make(file, rank, depth + 1, tpl));
      return s;
    case 6: s.type = "Fallback"; break;
    case 7: s.type = "ReactiveSequence"; break;
    case 8:
      s.type = "For";
      s.Set("arrayVar", "arr").Set("elementVar", Var(tpl));
      s.ch.push_back(Make(file, rank, depth + 1, tpl));
      return s;
    default: s.type = "Sequence";
    }
    int n = r.range(1, 3);
    for (int k = 0; k < n; ++k) s.ch.push_back(Make(file, rank, depth + 1, tpl));
    return s;
  }
  void All(const std::string& dir)
  {
    static const std::vector<std::string> names{"main.xml", "one.xml", "sub/two.xml", "sub/deep/three.xml"};
    size_t nf = 1 + r.below(4);
    for (size_t k = 0; k < nf; ++k)
    {
      w.files.emplace_back();
      auto& f = w.files.back();
      f.path = dir + "/" + names[k];
      for (auto& v : kVars) f.p.vars.push_back(LocalVar(v, "int32", std::to_string(r.range(-9, 9))));
      f.p.vars.push_back(LocalVar("cnt", "uint32", std::to_string(r.below(4))));
      f.p.vars.push_back(LocalVar("arr", "{\"type\":\"\",\"element\":{\"type\":\"int32\"}}", r.chance(1, 4) ? "[]" : "[" + std::to_string(k) + ",7,-3]"));
      f.p.attrs = {{"tickTimeout", "0.0001"}};
    }
    for (size_t k = 0; k < nf; ++k)
    {
      Spec in = Comp("Sequence", {Leaf1(true), Leaf1(true)});
      in.Set("name", "in");
      Spec t = Comp("Sequence", {Leaf1(true), in});
      t.Set("name", "t0");
      w.files[k].p.roots.push_back(t);
      ranked.emplace_back(k, "t0");
      ranked.emplace_back(k, "t0.in");
    }
    int more = r.range(0, 8);
    for (int k = 0; k < more; ++k)
    {
      auto f = r.below(nf);
      auto t = Make(static_cast<int>(f), static_cast<int>(ranked.size()), 1, true);
      if (t.ch.empty()) t = Comp("Sequence", {t});
      auto name = "t" + std::to_string(k + 1);
      t.Set("name", name);
      if (r.chance(1, 3))
      {
        t.ch[0].Set("name", "inner part");
        ranked.emplace_back(static_cast<int>(f), name + ".inner part");
        // deeper, through the levels below
        Spec* at = &t.ch[0];
        auto path = name + ".inner part";
        while (!at->ch.empty() && r.chance(2, 3))
        {
          at = &at->ch[r.below(at->ch.size())];
          std::string n = r.chance(1, 3) ? "inner part" : "d" + std::to_string(r.below(3));
          if (!at->Attr("name").empty() || !at->Attr("path").empty()) break;
          at->Set("name", n);
          path += "." + n;
          ranked.emplace_back(static_cast<int>(f), path);
        }
      }
      w.files[f].p.roots.push_back(t);
      ranked.emplace_back(static_cast<int>(f), name);
    }
    // roots: of included files made of leaves; the main one includes
    for (size_t k = 1; k < nf; ++k)
    {
      Spec root = Comp("Sequence", {Leaf1(r.chance(1, 2)), Leaf1(false)});
      root.Set("name", "root").Set("isRoot", "true");
      w.files[k].p.roots.insert(w.files[k].p.roots.begin() + static_cast<long>(r.below(w.files[k].p.roots.size() + 1)), root);
    }
    Spec part = Comp("Sequence", {Leaf1(false), Leaf1(false)});
    part.Set("name", "part");
    ranked.emplace_back(0, "main root.part");
    Spec root = Comp(r.chance(1, 4) ? "Fallback" : "Sequence", {part});
    int n = r.range(1, 3);
    for (int k = 0; k < n; ++k) root.ch.push_back(r.chance(2, 3) ? IncludeOf(0, static_cast<int>(ranked.size()), false) : Make(0, static_cast<int>(ranked.size()), 1, false));
    root.Set("name", "main root").Set("isRoot", "true");
    auto& roots = w.files[0].p.roots;
    roots.insert(roots.begin() + static_cast<long>(r.below(roots.size() + 1)), root);
    // a second tree with a name that is taken: the first one is meant
    if (r.chance(1, 3))
    {
      auto f = r.below(nf);
      Spec dup = Comp("Sequence", {Leaf("duplicate", "S")});
      dup.Set("name", "t0");
      w.files[f].p.roots.push_back(dup);
    }
  }
};

struct Run
{
  std::vector<std::string> ticks;   // leaves and status per tick
  std::string leaves;
};
Run Execute(Procedure& proc, RecUI& ui, Trace& tr, int limit)
{
  Run out;
  for (int t = 0; t < limit && !IsFinishedStatus(proc.GetStatus()); ++t)
  {
    tr.Clear();
    proc.ExecuteSingle(ui);
    std::string s;
    for (auto& e : tr.Get())
    {
      if (e.kind == K::kEnter) s += " x:" + e.id + "@" + e.text.substr(e.text.rfind('=') + 1);
      if (e.kind == K::kInit) s += " i:" + e.id;
      if (e.kind == K::kExit) s += std::string("=") + StatusChar(e.st);
    }
    s += std::string(" -> ") + StatusChar(proc.GetStatus());
    out.ticks.push_back(s);
  }
  return out;
}
std::string Values(Workspace& ws, const std::string& prefix)
{
  std::string s;
  for (auto& v : {"x", "y", "z", "cnt", "arr"})
  {
    sup::dto::AnyValue val;
    s += std::string(v) + "=" + (ws.GetValue(prefix + v, val) ? Json(val) : "none") + " ";
  }
  return s;
}

void Random(const std::string& dir)
{
  Section s("random");
  if (!s.run) return;
  mkdir((dir + "/sub").c_str(), 0777);
  mkdir((dir + "/sub/deep").c_str(), 0777);
  Rng r(Opt().seed * 911 + 5);
  long n = Scale(2500, 12, 4);
  for (long k = 0; k < n && !TooMany(); ++k)
  {
    World w;
    Gen g{r, w};
    g.broken = r.chance(1, 4) ? 12 : 0;
    g.All(dir);
    Inliner in{w};
    const Spec* root = in.Lookup(0, "");
    auto flat = in.In(*root, 0, 0, nullptr);
    auto text = ToText(*root);
    std::string all;
    for (auto& f : w.files) all += "==== " + f.path + "\n" + ToXml(f.p);
    Case(all);
    for (auto& f : w.files) WriteFile(f.path, ToXml(f.p));
    RecUI ui, ui2;
    Trace tr;
    SetTrace(&tr);
    auto proc = ParseProcedureFile(w.files[0].path);
    bool threw = false;
    std::string what;
    try
    {
      proc->Setup();
    }
    catch (const InstructionSetupException& e)
    {
      threw = true;
      what = e.what();
    }
    catch (const std::exception& e)
    {
      threw = true;
      what = e.what();
      // a missing file is reported by the parser
      HX_CHECK(all.find("missing.xml") != std::string::npos, "include:exception-type", what << "\n" << all);
    }
    Eval();
    if (threw || !in.ok)
    {
      HX_CHECK(threw && !in.ok, threw ? "include:refused" : "include:accepted",
               (threw ? "setup refused a valid procedure: " + what : "setup accepted an include with a missing parameter, file or instruction") << "\n" << all);
      Count(threw ? "erroneous inclusions refused" : "erroneous inclusions accepted");
      proc->Reset(ui);
      SetTrace(nullptr);
      proc.reset();
      Beat();
      continue;
    }
    ProcSpec fp;
    fp.roots = {flat};
    for (size_t f = 0; f < w.files.size(); ++f)
      for (auto v : w.files[f].p.vars)
      {
        v.name = Inliner::Rename(static_cast<int>(f), v.name);
        fp.vars.push_back(v);
      }
    auto ref = BuildProc(fp);
    ref->Setup();
    int limit = r.chance(1, 3) ? r.range(1, 6) : 400;
    for (int pass = 0; pass < 2; ++pass)
    {
      auto a = Execute(*proc, ui, tr, limit);
      auto b = Execute(*ref, ui2, tr, limit);
      size_t at = 0;
      while (at < a.ticks.size() && at < b.ticks.size() && a.ticks[at] == b.ticks[at]) ++at;
      if (at < a.ticks.size() || at < b.ticks.size())
      {
        Violation(pass ? "include:trace-after-reset" : "include:trace", "tick " + std::to_string(at) + ": with includes [" + (at < a.ticks.size() ? a.ticks[at] : "none") + "], written in place [" +
                                                                        (at < b.ticks.size() ? b.ticks[at] : "none") + "]\ninlined: " + ToText(flat) + "\n" + all);
        break;
      }
      for (size_t f = 0; f < w.files.size(); ++f)
      {
        auto va = Values(f ? proc->GetContext().GetWorkspace(w.files[f].path) : proc->GetWorkspace(), "");
        auto vb = Values(ref->GetWorkspace(), Inliner::Rename(static_cast<int>(f), "?").substr(0, f ? 3 : 0));
        if (in.inlined && va.find("none") == std::string::npos)   // a file that is not used is not set up
          HX_CHECK(va == vb, "include:values", "pass " << pass << " workspace of " << w.files[f].path << " holds " << va << ", written in place " << vb << "\n" << all);
      }
      Count("ticks compared", static_cast<long>(a.ticks.size()));
      for (auto& t : a.ticks) Count("leaf executions compared", static_cast<long>(std::count(t.begin(), t.end(), '@')));
      limit = 400;
      proc->Reset(ui);
      ref->Reset(ui2);
    }
    Count("inclusions", in.inlined);
    Count("placeholders replaced", in.substituted);
    CountMax("deepest nesting of inclusions", in.max_depth);
    if (in.inlined) Distinct(ToText(flat) + text);
    if (in.max_depth > 1) Sample(text);
    proc.reset();
    ref.reset();
    SetTrace(nullptr);
    Beat();
  }
}

// ---- setup errors ------------------------------------------------------------------------------
// Runs f in a child process; returns "exception", "no exception", or how the process ended.
std::string InChild(const std::function<void()>& f)
{
  int pfd[2];
  if (pipe(pfd)) return "pipe failed";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0)
  {
    close(pfd[0]);
    rlimit rl{60, 60};
    setrlimit(RLIMIT_CPU, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    std::string out = "no exception";
    try
    {
      f();
    }
    catch (const std::exception& e)
    {
      out = std::string("exception ") + e.what();
    }
    (void)!write(pfd[1], out.data(), std::min<size_t>(out.size(), 2000));
    _exit(0);
  }
  close(pfd[1]);
  std::string out;
  char buf[4096];
  ssize_t k;
  while ((k = read(pfd[0], buf, sizeof buf)) > 0) out.append(buf, static_cast<size_t>(k));
  close(pfd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) return "killed by signal " + std::to_string(WTERMSIG(st));
  if (out.empty()) return "ended with exit code " + std::to_string(WEXITSTATUS(st));
  return out;
}
std::string Wrap(const std::string& body) { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Procedure xmlns=\"http://codac.iter.org/sup/oac-tree\">\n" + body + "\n<Workspace><Local name=\"v\" type='{\"type\":\"int32\"}' value='1'/></Workspace>\n</Procedure>\n"; }

void Faults(const std::string& dir)
{
  Section s("faults");
  if (!s.run) return;
  struct F
  {
    std::string name;
    std::map<std::string, std::string> files;
    bool fails;
  };
  const std::string R = "<Sequence name=\"root\" isRoot=\"true\">", E = "</Sequence>";
  const std::string T = "<Sequence name=\"T\"><Increment varName=\"$p\"/></Sequence>";
  std::vector<F> fs{
    {"self", {{"m.xml", Wrap(R + "<Include path=\"root\"/>" + E)}}, true},
    {"self by file name", {{"m.xml", Wrap(R + "<Include file=\"m.xml\" path=\"root\"/>" + E)}}, true},
    {"self by other spelling", {{"m.xml", Wrap(R + "<Include file=\"./m.xml\" path=\"root\"/>" + E)}}, true},
    {"template includes itself", {{"m.xml", Wrap("<Sequence name=\"T\"><Include path=\"T\"/></Sequence>" + R + "<Include path=\"T\"/>" + E)}}, true},
    {"template includes itself with a parameter", {{"m.xml", Wrap("<Sequence name=\"T\"><Include path=\"T\" p=\"$p\"/></Sequence>" + R + "<Include path=\"T\" p=\"v\"/>" + E)}}, true},
    {"parameters swap", {{"m.xml", Wrap("<Sequence name=\"T\"><Include path=\"T\" p=\"$q\" q=\"$p\"/></Sequence>" + R + "<Include path=\"T\" p=\"a\" q=\"b\"/>" + E)}}, true},
    {"two templates", {{"m.xml", Wrap("<Sequence name=\"A\"><Include path=\"B\"/></Sequence><Sequence name=\"B\"><Include path=\"A\"/></Sequence>" + R + "<Include path=\"A\"/>" + E)}}, true},
    {"inner part includes the whole", {{"m.xml", Wrap("<Sequence name=\"A\"><Sequence name=\"B\"><Include path=\"A\"/></Sequence></Sequence>" + R + "<Include path=\"A.B\"/>" + E)}}, true},
    {"two files", {{"m.xml", Wrap(R + "<Include file=\"n.xml\" path=\"root\"/>" + E)}, {"n.xml", Wrap(R + "<Include file=\"m.xml\" path=\"root\"/>" + E)}}, true},
    {"three files", {{"m.xml", Wrap(R + "<Include file=\"n.xml\" path=\"root\"/>" + E)}, {"n.xml", Wrap(R + "<IncludeProcedure file=\"o.xml\"/>" + E)}, {"o.xml", Wrap(R + "<Include file=\"m.xml\" path=\"root\"/>" + E)}}, true},
    {"procedure includes itself", {{"m.xml", Wrap(R + "<IncludeProcedure file=\"m.xml\"/>" + E)}}, true},
    {"procedure includes itself by other spelling", {{"m.xml", Wrap(R + "<IncludeProcedure file=\"./m.xml\"/>" + E)}}, true},
    {"two procedures", {{"m.xml", Wrap(R + "<IncludeProcedure file=\"n.xml\"/>" + E)}, {"n.xml", Wrap(R + "<IncludeProcedure file=\"m.xml\"/>" + E)}}, true},
    {"included procedure includes itself", {{"m.xml", Wrap(R + "<IncludeProcedure file=\"n.xml\"/>" + E)}, {"n.xml", Wrap(R + "<IncludeProcedure file=\"n.xml\"/>" + E)}}, true},
    {"missing file", {{"m.xml", Wrap(R + "<Include file=\"none.xml\" path=\"T\"/>" + E)}}, true},
    {"missing procedure", {{"m.xml", Wrap(R + "<IncludeProcedure file=\"none.xml\"/>" + E)}}, true},
    {"file is a directory", {{"m.xml", Wrap(R + "<IncludeProcedure file=\".\"/>" + E)}}, true},
    {"empty file name", {{"m.xml", Wrap(R + "<IncludeProcedure file=\"\"/>" + E)}}, true},
    {"empty file", {{"m.xml", Wrap(R + "<Include file=\"n.xml\" path=\"T\"/>" + E)}, {"n.xml", ""}}, true},
    {"garbage file", {{"m.xml", Wrap(R + "<Include file=\"n.xml\" path=\"T\"/>" + E)}, {"n.xml", "\x01\xff<<<"}}, true},
    {"truncated file", {{"m.xml", Wrap(R + "<Include file=\"n.xml\" path=\"T\"/>" + E)}, {"n.xml", Wrap(T).substr(0, 90)}}, true},
    {"unknown instruction in file", {{"m.xml", Wrap(R + "<Include file=\"n.xml\" path=\"T\"/>" + E)}, {"n.xml", Wrap("<Sequence name=\"T\"><NoSuch/></Sequence>")}}, true},
    {"unknown variable type in file", {{"m.xml", Wrap(R + "<IncludeProcedure file=\"n.xml\" path=\"T\" p=\"v\"/>" + E)}, {"n.xml", "<Procedure>" + T + "<Workspace><NoSuch name=\"v\"/></Workspace></Procedure>"}}, true},
    {"bad variable in the included procedure", {{"m.xml", Wrap(R + "<IncludeProcedure file=\"n.xml\" path=\"T\" p=\"v\"/>" + E)}, {"n.xml", "<Procedure>" + T + "<Workspace><Local name=\"v\" type='{\"type\":\"int33\"}' value='1'/></Workspace></Procedure>"}}, true},
    {"bad variable in the file of an included tree", {{"m.xml", Wrap(R + "<Include file=\"n.xml\" path=\"T\" p=\"v\"/>" + E)}, {"n.xml", "<Procedure>" + T + "<Workspace><Local name=\"v\" type='{\"type\":\"int32\"}' value='1'/></Workspace></Procedure>"}}, false},
    {"no path", {{"m.xml", Wrap(T + R + "<Include p=\"v\"/>" + E)}}, true},
    {"unknown name", {{"m.xml", Wrap(T + R + "<Include path=\"U\" p=\"v\"/>" + E)}}, true},
    {"unknown inner name", {{"m.xml", Wrap(T + R + "<Include path=\"T.U\" p=\"v\"/>" + E)}}, true},
    {"unknown path in procedure", {{"m.xml", Wrap(R + "<IncludeProcedure file=\"n.xml\" path=\"U\" p=\"v\"/>" + E)}, {"n.xml", Wrap(T)}}, true},
    {"missing parameter", {{"m.xml", Wrap(T + R + "<Include path=\"T\"/>" + E)}}, true},
    {"missing parameter of a procedure", {{"m.xml", Wrap(R + "<IncludeProcedure file=\"n.xml\" path=\"T\"/>" + E)}, {"n.xml", Wrap(T)}}, true},
    {"missing parameter further down", {{"m.xml", Wrap("<Sequence name=\"A\"><Include path=\"T\" q=\"$q\"/></Sequence>" + T + R + "<Include path=\"A\" q=\"v\"/>" + E)}}, true},
    {"missing parameter of an attribute deep in the tree", {{"m.xml", Wrap("<Sequence name=\"A\"><Inverter><ForceSuccess><Increment varName=\"$p\"/></ForceSuccess></Inverter></Sequence>" + R + "<Include path=\"A\" q=\"v\"/>" + E)}}, true},
    {"empty parameter name", {{"m.xml", Wrap("<Sequence name=\"A\"><Increment varName=\"$\"/></Sequence>" + R + "<Include path=\"A\" q=\"v\"/>" + E)}}, true},
    {"placeholder without inclusion", {{"m.xml", Wrap("<Sequence name=\"A\" isRoot=\"true\"><Repeat maxCount=\"$n\"><Succeed/></Repeat></Sequence>")}}, true},
    {"parameter of the wrong type", {{"m.xml", Wrap("<Sequence name=\"A\"><Repeat maxCount=\"$n\"><Succeed/></Repeat></Sequence>" + R + "<Include path=\"A\" n=\"many\"/>" + E)}}, true},
    {"several roots, none marked", {{"m.xml", Wrap(R + "<IncludeProcedure file=\"n.xml\" p=\"v\"/>" + E)}, {"n.xml", Wrap(T + "<Sequence name=\"U\"/>")}}, true},
    {"no instruction in the file", {{"m.xml", Wrap(R + "<IncludeProcedure file=\"n.xml\"/>" + E)}, {"n.xml", Wrap("")}}, true},
    {"bad type registration in the file", {{"m.xml", Wrap(R + "<Include file=\"n.xml\" path=\"T\" p=\"v\"/>" + E)}, {"n.xml", "<Procedure><RegisterType jsontype='{\"type\":\"none_such'/>" + T + "<Workspace/></Procedure>"}}, true},
    {"missing type file of the file", {{"m.xml", Wrap(R + "<Include file=\"n.xml\" path=\"T\" p=\"v\"/>" + E)}, {"n.xml", "<Procedure><RegisterType jsonfile=\"none.json\"/>" + T + "<Workspace/></Procedure>"}}, true},
    {"copy to a missing file", {{"m.xml", Wrap(R + "<CopyToProcedure file=\"n.xml\" inputVar=\"v\" outputVar=\"v\"/>" + E)}}, true},
    {"copy from a missing file", {{"m.xml", Wrap(R + "<CopyFromProcedure file=\"n.xml\" inputVar=\"v\" outputVar=\"v\"/>" + E)}}, true},
    // valid ones
    {"the same tree twice in a row", {{"m.xml", Wrap(T + R + "<Include path=\"T\" p=\"v\"/><Include path=\"T\" p=\"v\"/>" + E)}}, false},
    {"the same tree through two others", {{"m.xml", Wrap(T + "<Sequence name=\"A\"><Include path=\"T\" p=\"v\"/></Sequence><Sequence name=\"B\"><Include path=\"A\"/><Include path=\"T\" p=\"v\"/></Sequence>" + R + "<Include path=\"B\"/><Include path=\"A\"/>" + E)}}, false},
    {"another part of the procedure that includes it", {{"m.xml", Wrap(T + R + "<IncludeProcedure file=\"n.xml\"/>" + E)}, {"n.xml", Wrap(R + "<Include file=\"m.xml\" path=\"T\" p=\"v\"/><IncludeProcedure file=\"m.xml\" path=\"T\" p=\"v\"/>" + E)}}, false},
    {"same attributes in different files", {{"m.xml", Wrap(R + "<Include file=\"n.xml\" path=\"T\" p=\"v\"/>" + E)}, {"n.xml", Wrap("<Sequence name=\"T\"><Include file=\"sub/n.xml\" path=\"T\" p=\"v\"/></Sequence>")}, {"sub/n.xml", Wrap(T)}}, false},
    {"same file name relative to another directory", {{"m.xml", Wrap(R + "<Include file=\"sub/n.xml\" path=\"T\" p=\"v\"/>" + E)}, {"sub/n.xml", Wrap("<Sequence name=\"T\"><Include file=\"sub/n.xml\" path=\"T\" p=\"v\"/></Sequence>")}, {"sub/sub/n.xml", Wrap(T)}}, false},
    {"the same tree with another parameter inside itself", {{"m.xml", Wrap("<Sequence name=\"A\"><Include path=\"$t\" t=\"T\" p=\"v\"/></Sequence>" + T + R + "<Include path=\"A\" t=\"A\"/>" + E)}}, false},
    {"unused parameters", {{"m.xml", Wrap(T + R + "<Include path=\"T\" p=\"v\" q=\"w\"/>" + E)}}, false},
    {"type registered by the included procedure", {{"m.xml", Wrap(R + "<IncludeProcedure file=\"n.xml\" path=\"T\" p=\"w.a\"/>" + E)}, {"n.xml", "<Procedure><RegisterType jsontype='{\"type\":\"tt\",\"attributes\":[{\"a\":{\"type\":\"int32\"}}]}'/>" + T + "<Workspace><Local name=\"w\" type='{\"type\":\"tt\"}' value='{\"a\":4}'/></Workspace></Procedure>"}}, false},
  };
  for (auto& f : fs)
  {
    auto d = dir + "/f";
    mkdir(d.c_str(), 0777);
    mkdir((d + "/sub").c_str(), 0777);
    mkdir((d + "/sub/sub").c_str(), 0777);
    for (auto& [name, content] : f.files) WriteFile(d + "/" + name, content);
    Case(f.name);
    auto body = [&]
    {
      auto proc = ParseProcedureFile(d + "/m.xml");
      RecUI ui;
      try
      {
        proc->Setup();
      }
      catch (...)
      {
        // refused again, and the procedure can be reset and destroyed
        try
        {
          proc->Setup();
          _exit(3);
        }
        catch (const std::exception&)
        {
        }
        proc->Reset(ui);
        throw;
      }
      for (int k = 0; k < 50 && !IsFinishedStatus(proc->GetStatus()); ++k) proc->ExecuteSingle(ui);
      if (proc->GetStatus() != ES::SUCCESS) _exit(4);
      proc->Reset(ui);
    };
    auto out = InChild(body);
    bool ex = out.compare(0, 9, "exception") == 0;
    HX_CHECK(out.compare(0, 12, "no exception") == 0 || ex, "fault:" + f.name, "setup did not end in an exception: " << out);
    if (ex || out.compare(0, 12, "no exception") == 0)
      HX_CHECK(ex == f.fails, "fault:" + f.name, (f.fails ? "no setup error was reported" : "a valid inclusion was refused: " + out));
    Count(ex ? "setup errors reported" : "valid inclusions executed");
    Eval();
    Distinct("fault " + f.name);
    for (auto& [name, content] : f.files) unlink((d + "/" + name).c_str());
    Beat();
  }
}

// A file is included, edited, and included again: what was set up stays.
void Independent(const std::string& dir)
{
  Section s("independent");
  if (!s.run) return;
  RegisterFixtures();
  Rng r(Opt().seed + 3);
  for (int k = 0; k < 40; ++k)
  {
    // two inclusions of one template are separate instructions, each with its own state
    auto d = dir + "/ind.xml";
    int a = r.range(0, 3), b = r.range(0, 3);
    WriteFile(d, Wrap("<Sequence name=\"T\"><Repeat maxCount=\"$n\"><HxLeaf id=\"$id\" script=\"S\"/></Repeat></Sequence><Sequence name=\"root\" isRoot=\"true\">"
                      "<ParallelSequence><Include path=\"T\" n=\"" + std::to_string(a) + "\" id=\"A\"/><Include path=\"T\" n=\"" + std::to_string(b) + "\" id=\"B\"/>"
                      "<Inverter><Inverter><Include path=\"T\" n=\"2\" id=\"C\"/></Inverter></Inverter></ParallelSequence></Sequence>"));
    auto proc = ParseProcedureFile(d);
    RecUI ui;
    Trace tr;
    SetTrace(&tr);
    proc->Setup();
    for (int pass = 0; pass < 2; ++pass)
    {
      tr.Clear();
      Runner runner(ui);
      for (int t = 0; t < 20000 && !IsFinishedStatus(proc->GetStatus()); ++t)
      {
        proc->ExecuteSingle(ui);
        if (proc->GetStatus() == ES::RUNNING) std::this_thread::sleep_for(std::chrono::microseconds(50));
      }
      std::map<std::string, int> n;
      for (auto& e : tr.Of(K::kEnter)) ++n[e.id];
      HX_CHECK(n["A"] == a && n["B"] == b && n["C"] == 2 && proc->GetStatus() == ES::SUCCESS, "include:parallel",
               "A executed " << n["A"] << " of " << a << ", B " << n["B"] << " of " << b << ", C " << n["C"] << " of 2, status " << StatusChar(proc->GetStatus()));
      proc->Reset(ui);
      Eval();
    }
    SetTrace(nullptr);
    Beat();
  }
}
}  // namespace

HX_MAIN(
  [] {
    Rule("one random family of procedure files with includes and its inlined equivalent; a case is distinct by the inlined tree and the including tree");
    RegisterFixtures();
    auto dir = Opt().scratch;
    Faults(dir);
    Independent(dir);
    Random(dir);
  })

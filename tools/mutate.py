#!/usr/bin/env python3
# Mutation testing of the checks: small random changes to library sources, judged by the checks of the properties
# anchored in the changed file. Usage: mutate.py WORKERS COUNT SEED OUT [file-regex]
import glob, json, os, random, re, shutil, subprocess, sys, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
workers, count, seed, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
only = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
REPO = "/repo"
ids = {}
for l in open(VERIF + "/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"]:
        ids.setdefault(f, []).append(d["id"])
EXTRA = {"instructions": "C07 C08 C12 C16 C17 C21 C22 C09 C29 C30", "parser": "C24 C25 C26 C15 C17", "runner": "C10 C11 C12 C13 C14 C23 C27 C30", "base": "C23 C27 C28 C30 C25",
         "procedure": "C15 C16 C17 C18 C19 C26 C30", "variables": "C18 C19 C20 C26", "attributes": "C17 C24 C25 C29", "oac-tree": "C06 C10 C13 C18 C26 C27"}
SUB = [(r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"ExecutionStatus::SUCCESS", "ExecutionStatus::FAILURE"), (r"ExecutionStatus::FAILURE", "ExecutionStatus::SUCCESS"),
       (r"ExecutionStatus::RUNNING", "ExecutionStatus::NOT_FINISHED"), (r"ExecutionStatus::NOT_FINISHED", "ExecutionStatus::RUNNING"), (r"\+\+", "--"), (r" \+ 1", ""), (r" - 1", ""),
       (r"if \(!", "if ("), (r"if \((?!!)(\w[^()]*(?:\([^()]*\))*[^()]*)\)$", r"if (!(\1))"), (r"\b0\b", "1"), (r"\b1u?\b", "2"), (r"JobState::kPaused", "JobState::kInitial"), (r"^(\s*)(?:else )?if \(.+\)$", r"\1if (false)"), (r"^  +std::(lock_guard|scoped_lock).*;$", ";"), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
       (r"DEL", "")]
def mutants():
    res = []
    for f in sorted(glob.glob(REPO + "/src/lib/sup/oac-tree/*/*.cpp") + glob.glob(REPO + "/src/app/*/*.cpp") + [REPO + "/src/lib/sup/oac-tree/named_callback_manager.h"]):
        rel = os.path.relpath(f, REPO)
        if not only.search(rel):
            continue
        ids.setdefault(rel, [])
        if not rel.startswith("src/app"):
            ids[rel] += [c for c in EXTRA.get(rel.split("/")[-2], "").split() if c not in ids[rel]]
        lines = open(f).read().split("\n")
        comment = False
        for n, l in enumerate(lines):
            s = l.strip()
            if "/*" in s: comment = True
            if comment or not s or s.startswith(("//", "#", "*", "using", "namespace", "const std::string", "throw", "LogError", "LogWarning", "std::string error", "\"")):
                if "*/" in s: comment = False
                continue
            code = re.sub(r'"[^"]*"', lambda m: '"' + "_" * (len(m.group(0)) - 2) + '"', l)
            if "operator" in l or "&&)" in l or "&& other" in l or "= default" in l:
                continue
            for a, b in SUB:
                if a == "DEL":
                    if l.startswith("  ") and re.match(r"^(?!return|auto |const |std::string |int |bool |case|default|throw|delete)[\w:.>\-\[\]*()]+.*;$", s) and not re.match(r"^\w[\w:<>]*[&*]? \w+( = .*|\{.*\})?;$", s):
                        res.append((rel, n, l[:len(l) - len(l.lstrip())] + ";"))
                    continue
                for m in re.finditer(a, code):
                    new = l[:m.start()] + re.sub(a, b, l[m.start():m.end()]) + l[m.end():]
                    if new != l:
                        res.append((rel, n, new))
    return res
rng = random.Random(seed)
todo = mutants()
rng.shuffle(todo)
print(len(todo), "mutants possible", flush=True)
todo = todo[:count]
lock = threading.Lock()
log = open(out, "a")
def work(w):
    tree, build = "/tmp/mw/%d" % w, "/tmp/mwb/%d" % w
    subprocess.run(["rm", "-rf", tree], check=True)
    os.makedirs("/tmp/mw", exist_ok=True)
    shutil.copytree(REPO, tree, ignore=shutil.ignore_patterns("build*", ".git"))
    while True:
        with lock:
            if not todo: return
            rel, n, new = todo.pop()
        path = tree + "/" + rel
        text = open(path).read()
        lines = text.split("\n")
        old = lines[n]
        lines[n] = new
        open(path, "w").write("\n".join(lines))
        res, by = "survived", []
        cand = list(ids[rel])
        for c in cand[:13]:
            try:
                p = subprocess.run([sys.executable, os.environ.get("MUT_VERIF", VERIF) + "/check.py", c], capture_output=True, text=True, errors="replace", timeout=800,
                                   env=dict(os.environ, VERIF_REPO=tree, VERIF_BUILD=build, VERIF_SEED="1", VERIF_TIER="quick"))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            if rc == 1:
                res = "killed"; by.append(c); break
            if rc != 0:
                res = "rc%d" % rc; by.append(c + ":" + (p.stdout + p.stderr)[-300:].replace("\n", " ") if rc != 99 else c); break
            by.append(c)
        open(path, "w").write(text)
        with lock:
            log.write(json.dumps({"file": rel, "line": n + 1, "old": old.strip(), "new": new.strip(), "result": res, "by": by}) + "\n")
            log.flush()
ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
[t.start() for t in ts]
[t.join() for t in ts]

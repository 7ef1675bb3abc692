#!/usr/bin/env python3
"""Gap finder (not a check): mutates one line at a time in scratch copies of the
repository and lists mutants that no property's quick check reports.

  mutate.py WORKERS OUT.jsonl FILE:PROP[,PROP...] ...
"""
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

ROOT = "/tmp/mut"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "),
        (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r" \+= ", " -= "),
        (r"(?<![\w.])-(?=[a-z(])", ""), (r"\.inverse\(\)", ""), (r"(?<![\w.])1(?![\w.])", "2"),
        (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])2(?![\w.])", "3"), (r"!(?=[a-z])", ""),
        (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"), (r"\binto\b", "from"), (r"\bfrom\b", "into"),
        (r"\.transpose\(\)", ""), (r"\bstd::min\b", "std::max"), (r"upper_bound", "lower_bound"), (r"lower_bound", "upper_bound"),
        (r"\.norm\(\)", ".squaredNorm()")]


def mutants(text):
    lines = text.split("\n")
    out = []
    depth_macro = 0
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("using ") or s.startswith("namespace"):
            continue
        if s.startswith("template") or s.startswith("static_assert") or "constexpr auto" in s:
            continue
        code = l.split("//")[0]
        for pat, rep in SUBS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + re.sub(pat, rep, m.group(0)) + code[m.end():]
                if new != code:
                    out.append((i, i + 1, [new], "%s -> %s" % (m.group(0), rep)))
        if re.match(r"^\s+[\w>\-.:*\[\]()]+(\(.*\)| [+\-*]?= .*);$", code) and not s.startswith("return"):
            out.append((i, i + 1, [""], "delete statement"))
        if re.match(r"^\s*(REASSERT|CHECK_STATUS_OK|RETURN_IF_NOT_OK)\w*\(", code):
            j = i
            while not lines[j].rstrip().endswith(";") and j < i + 8:
                j += 1
            out.append((i, j + 1, [""], "delete assertion"))
    return lines, out


def main():
    nw = int(sys.argv[1])
    out = open(sys.argv[2], "a")
    limit = int(os.environ.get("LIMIT", "40"))
    jobs = []
    for a in sys.argv[3:]:
        f, ps = a.split(":")
        lines, ms = mutants(open(os.path.join("/repo", f)).read())
        random.Random(5).shuffle(ms)
        for m in ms[:limit]:
            jobs.append((f, ps.split(","), lines, m))
    q = Queue()
    for k in range(nw):
        w = os.path.join(ROOT, "w%d" % k)
        os.makedirs(w, exist_ok=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", ".git", "--exclude", "_build", "/repo/", w + "/repo/"], check=True)
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", ".build", "--exclude", "replays", VERIF + "/", w + "/verif/"], check=True)
        q.put(w)

    def one(job):
        f, ps, lines, (i, j, new, what) = job
        w = q.get()
        try:
            path = os.path.join(w, "repo", f)
            orig = "\n".join(lines)
            open(path, "w").write("\n".join(lines[:i] + new + lines[j:]))
            verdict = "SURVIVED"
            detail = []
            try:
                for p in ps:
                    env = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_JOBS=os.environ.get("VERIF_JOBS", "3"))
                    r = subprocess.run([sys.executable, w + "/verif/run.py", p], env=env, cwd=w + "/verif",
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
                    t = r.stdout.decode("utf-8", "replace")
                    if r.returncode == 1:
                        verdict = "caught"
                        m = re.search(r"violated \[(.*?)\]", t)
                        detail = [p, m.group(1) if m else ""]
                        break
                    if r.returncode == 2:
                        if "BUILD FAILED" in t:
                            verdict = "nocompile"
                            break
                        verdict = "INCONCLUSIVE"
                        detail = [p, t[-300:]]
            except subprocess.TimeoutExpired:
                verdict = "TIMEOUT"
            finally:
                open(path, "w").write(orig)
            out.write(json.dumps({"file": f, "line": i + 1, "what": what, "src": lines[i].strip(), "new": new[0].strip(),
                                  "verdict": verdict, "by": detail}) + "\n")
            out.flush()
        finally:
            q.put(w)

    with ThreadPoolExecutor(nw) as ex:
        list(ex.map(one, jobs))
    shutil.rmtree(ROOT, ignore_errors=True)


main()

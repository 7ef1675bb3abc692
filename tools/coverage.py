#!/usr/bin/env python3
"""Gap finder (not a check): which lines and functions of the repository no workload
executes. coverage.py OUTDIR ID... ; C23's own list shows what no thread storm shares."""
import os
import re
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run

run.MODES["cov"] = ["-O0", "-fprofile-instr-generate", "-fcoverage-mapping"]


def main():
    out = sys.argv[1]
    os.makedirs(out, exist_ok=True)
    ids = sys.argv[2:] or sorted(run.CHECKS)
    profs, exes = [], []
    for pid in ids:
        for h in run.CHECKS[pid]["harness"]:
            exe = run.build(h["name"], "cov")
            raw = os.path.join(out, pid + ".%p.profraw")
            os.environ["LLVM_PROFILE_FILE"] = raw
            with tempfile.TemporaryDirectory(dir=run.BUILD) as w:
                shards = h.get("shards", 8)
                with run.cf.ThreadPoolExecutor(8) as ex:
                    rs = list(ex.map(lambda k: run.run_harness(exe, "cov", pid, 1, "quick", k, shards, {}, w), range(shards)))
            print(pid, [r["rc"] for r in rs], flush=True)
            data = os.path.join(out, pid + ".profdata")
            raws = [os.path.join(out, f) for f in os.listdir(out) if f.startswith(pid + ".") and f.endswith(".profraw")]
            subprocess.run(["llvm-profdata-14" if run.shutil.which("llvm-profdata-14") else "llvm-profdata", "merge", "-o", data] + raws, check=True)
            for r in raws:
                os.unlink(r)
            profs.append(data)
            exes.append(exe)
            t = subprocess.run(["llvm-cov-14", "show", exe, "-instr-profile", data, "-show-instantiations=false"] ,
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode("utf-8", "replace")
            with open(os.path.join(out, pid + ".uncovered"), "w") as f:
                cur = None
                for line in t.splitlines():
                    if line.startswith("/") and line.endswith(":"):
                        cur = line[:-1]
                    m = re.match(r"\s*(\d+)\|\s*0\|(.*)", line)
                    if m and cur and cur.startswith(run.REPO + "/resim"):
                        f.write("%s:%s:%s\n" % (os.path.relpath(cur, run.REPO), m.group(1), m.group(2)))


main()

#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  run.py <ID>                 run the check of one property (tier from VERIF_TIER)
  run.py <ID> --replay FILE   re-execute exactly the case recorded in FILE
  run.py --setup              build every harness once (warms the object cache)

Exit 0: held on everything observed.  Exit 1: a VIOLATION line was printed.
Exit 2: the check itself could not run (build failure, inconclusive run).
"""
import argparse
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
OBJ = os.path.join(BUILD, "obj")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or max(2, min(8, os.cpu_count() or 2))

CXX = "clang++-14" if shutil.which("clang++-14") else "clang++"
BASE = [CXX]
if CXX == "clang++-14":
    BASE += ["-nostdinc++", "-cxx-isystem", "/usr/include/c++/12", "-cxx-isystem",
             "/usr/include/x86_64-linux-gnu/c++/12"]
BASE += ["-std=c++20", "-fPIC", "-g1", "-fno-omit-frame-pointer", "-w",
         "-D_GLIBCXX_ASSERTIONS", "-DCPPHTTPLIB_OPENSSL_SUPPORT",
         "-DCPPHTTPLIB_ZLIB_SUPPORT", "-DCPPHTTPLIB_BROTLI_SUPPORT"]
MODES = {
    "asan": ["-O1", "-finline-hint-functions", "-fsanitize=address,undefined,float-cast-overflow",
             "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all",
             "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-O1", "-finline-hint-functions", "-fsanitize=thread"],
}
LIBS = ["-Wl,--as-needed", "-lglog", "-lfmt", "-lprotobuf", "-lgtest", "-luuid",
        "-lcpp-httplib", "-lcrypto", "-lssl", "-lm", "-lstdc++", "-pthread"]
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:"
                    "malloc_fill_byte=202:max_malloc_fill_size=4096:allocator_may_return_null=1:"
                    "detect_odr_violation=0:handle_abort=1:hard_rss_limit_mb=3200",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:"
                    "ignore_noninstrumented_modules=1:history_size=4",
}
INC = re.compile(r'^\s*#\s*include\s+"([^"]+)"', re.M)
IMP = re.compile(r'^\s*import\s+(?:public\s+)?"(resim/[^"]+)"', re.M)


class BuildError(Exception):
    pass


class InfraError(Exception):
    pass


def read(path):
    with open(path, "rb") as f:
        return f.read()


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


class Tree:
    """Sources of the tree under test plus the harnesses, by include closure."""

    def __init__(self):
        self.inc_cache = {}
        self.proto_key = {}

    def resolve(self, inc, frm):
        if inc.endswith(".pb.h"):
            proto = inc[:-5] + ".proto"
            if os.path.exists(os.path.join(REPO, proto)):
                return "proto:" + proto
            return None
        cand = [os.path.join(os.path.dirname(frm), inc), os.path.join(REPO, inc),
                os.path.join(VERIF, "harness", inc)]
        for c in cand:
            if os.path.isfile(c):
                return os.path.normpath(c)
        return None

    def includes(self, path):
        if path not in self.inc_cache:
            text = read(path).decode("utf-8", "replace")
            out = []
            for inc in INC.findall(text):
                r = self.resolve(inc, path)
                if r:
                    out.append(r)
            self.inc_cache[path] = out
        return self.inc_cache[path]

    def proto_closure(self, proto):
        seen, todo = set(), [proto]
        while todo:
            p = todo.pop()
            if p in seen or not os.path.exists(os.path.join(REPO, p)):
                continue
            seen.add(p)
            todo += IMP.findall(read(os.path.join(REPO, p)).decode("utf-8", "replace"))
        return sorted(seen)

    def closure(self, path):
        """All files (and protos) transitively included by path."""
        seen, todo, protos = {path}, [path], set()
        while todo:
            for r in self.includes(todo.pop()):
                if r.startswith("proto:"):
                    protos.update(self.proto_closure(r[6:]))
                elif r not in seen:
                    seen.add(r)
                    todo.append(r)
        return seen, protos

    def all_sources(self):
        out = []
        for d, dirs, files in os.walk(os.path.join(REPO, "resim")):
            dirs[:] = [x for x in dirs if x != "examples"]
            for f in sorted(files):
                if f.endswith(".cc") and not f.endswith("_test.cc"):
                    p = os.path.join(d, f)
                    if b"int main(" not in read(p):
                        out.append(p)
        return out

    def needed_sources(self, harness):
        """Sources a harness links: x.cc for every x.hh in the closure, recursively."""
        todo, srcs, protos, seen = [harness], set(), set(), set()
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            files, pr = self.closure(s)
            protos |= pr
            for f in files:
                if f.startswith(os.path.join(REPO, "resim")) and f.endswith(".hh"):
                    cc = f[:-3] + ".cc"
                    if os.path.isfile(cc) and cc not in srcs:
                        srcs.add(cc)
                        todo.append(cc)
        return sorted(srcs), sorted(protos)


def run_cmd(cmd, timeout=800):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def gen_protos(tree):
    """Generate C++ for every proto of the tree; keyed by content."""
    protos = []
    for d, _, files in os.walk(os.path.join(REPO, "resim")):
        for f in sorted(files):
            if f.endswith(".proto"):
                protos.append(os.path.relpath(os.path.join(d, f), REPO))
    protos.sort()
    key = sha(*[p + "\n" + read(os.path.join(REPO, p)).decode("utf-8", "replace") for p in protos])
    gen = os.path.join(BUILD, "gen", key)
    if not os.path.exists(os.path.join(gen, ".done")):
        tmp = tempfile.mkdtemp(dir=BUILD)
        rc, out = run_cmd(["protoc", "-I" + REPO, "--cpp_out=" + tmp] +
                          [os.path.join(REPO, p) for p in protos])
        if rc:
            raise BuildError("protoc failed:\n" + out)
        open(os.path.join(tmp, ".done"), "w").close()
        os.makedirs(os.path.dirname(gen), exist_ok=True)
        try:
            os.rename(tmp, gen)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return gen


def build(harness_name, mode):
    os.makedirs(OBJ, exist_ok=True)
    tree = Tree()
    gen = gen_protos(tree)
    harness = os.path.join(VERIF, "harness", harness_name + ".cc")
    flags = BASE + MODES[mode] + ["-I" + REPO, "-I" + gen, "-I" + os.path.join(VERIF, "stubs"),
                                  "-I" + os.path.join(VERIF, "harness"),
                                  "-isystem", "/usr/include/eigen3"]
    stub = read(os.path.join(VERIF, "stubs/cpr/cpr.h"))

    def obj_for(src):
        files, protos = tree.closure(src)
        parts = [" ".join(flags), src]
        for f in sorted(files):
            parts += [f, read(f)]
        for p in sorted(protos):
            parts += [p, read(os.path.join(REPO, p))]
        parts.append(stub)
        k = sha(*parts)
        out = os.path.join(OBJ, os.path.basename(src).rsplit(".", 1)[0] + "-" + k + ".o")
        return src, out

    def compile_one(job):
        src, out = job
        if os.path.exists(out):
            os.utime(out)
            return None
        tmp = out + ".%d.tmp" % os.getpid()
        rc, text = run_cmd(flags + ["-c", src, "-o", tmp])
        if rc:
            return "compile of %s failed:\n%s" % (src, text[-6000:])
        os.rename(tmp, out)
        return None

    def objects(srcs, protos):
        jobs = [obj_for(s) for s in srcs]
        for p in protos:
            pb = os.path.join(gen, p[:-6] + ".pb.cc")
            k = sha(" ".join(flags), pb)
            jobs.append((pb, os.path.join(OBJ, "pb-" + k + ".o")))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for err in ex.map(compile_one, jobs):
                if err:
                    raise BuildError(err)
        return [o for _, o in jobs]

    srcs, protos = tree.needed_sources(harness)
    objs = objects([harness] + srcs, protos)

    def link(objs):
        exe = os.path.join(BUILD, "bin", harness_name + "-" + mode + "-" + sha(*objs))
        if os.path.exists(exe):
            os.utime(exe)
            return exe, ""
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        rc, text = run_cmd([CXX] + MODES[mode] + objs + ["-o", tmp] + LIBS)
        if rc:
            return None, text
        os.rename(tmp, exe)
        return exe, ""

    exe, text = link(objs)
    if exe is None:
        # A definition may have moved to a source file that no header names:
        # take every library source of the tree instead, from an archive.
        allp = sorted({os.path.relpath(os.path.join(d, f), REPO)
                       for d, _, fs in os.walk(os.path.join(REPO, "resim"))
                       for f in fs if f.endswith(".proto")})
        # (Unoptimised, so that every implicit instantiation stays in its object.)
        flags = [f for f in flags if f != "-finline-hint-functions"]
        flags[flags.index("-O1")] = "-O0"
        lib = objects(tree.all_sources(), allp)
        ar = os.path.join(BUILD, "lib-" + mode + "-" + sha(*lib) + ".a")
        if not os.path.exists(ar):
            rc, t = run_cmd(["ar", "rcs", ar] + lib)
            if rc:
                raise BuildError(t)
        exe, text = link([objs[0], "-Wl,--start-group", ar, "-Wl,--end-group"])
        if exe is None:
            raise BuildError("link failed:\n" + text[-6000:])
    return exe


def prune(limit=6 << 30):
    """Keep the cache bounded: drop the oldest objects and binaries."""
    ent = []
    for d in (OBJ, os.path.join(BUILD, "bin")):
        if os.path.isdir(d):
            for f in os.listdir(d):
                p = os.path.join(d, f)
                st = os.stat(p)
                ent.append((st.st_mtime, st.st_size, p))
    total = sum(e[1] for e in ent)
    for _, size, p in sorted(ent):
        if total <= limit:
            break
        os.unlink(p)
        total -= size


def load_known():
    """known_findings.txt: lines 'finding: property=<id> key=<key> <text>' suppress
    exactly that key; lines 'fixed: ...' are a record and suppress nothing."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return out


def san_key(text):
    m = re.search(r"([\w.]+):\d+:\d+: runtime error: (.*)", text)
    if m:
        msg = re.sub(r"-?[0-9.]+(e[+-]?\d+)?|0x[0-9a-f]+", "N", m.group(2))
        return "ub:%s:%s" % (m.group(1), re.sub(r"[^\w]+", "_", msg)[:70])
    m = re.search(r"SUMMARY: (\w+): (\S+).*? in (\S+)", text)
    if m:
        return "%s:%s:%s" % (m.group(1), m.group(2), re.sub(r"[^\w:~]+", "_", m.group(3))[:80])
    m = re.search(r"SUMMARY: (\w+): (\S+)", text)
    if m:
        return "%s:%s" % (m.group(1), m.group(2))
    m = re.search(r"runtime error: (.*)", text)
    if m:
        return "ub:" + re.sub(r"[^\w]+", "_", m.group(1))[:60]
    m = re.search(r"Assertion '(.*?)' failed", text)
    if m:
        return "libassert:" + re.sub(r"[^\w]+", "_", m.group(1))[:60]
    return None


def run_harness(exe, mode, pid, seed, tier, shard, shards, known, workdir, only=None):
    out = os.path.join(workdir, "out-%s-%d.json" % (mode, shard))
    cur = os.path.join(workdir, "cur-%s-%d" % (mode, shard))
    err = os.path.join(workdir, "err-%s-%d" % (mode, shard))
    scratch = os.path.join(workdir, "scratch-%s-%d" % (mode, shard))
    os.makedirs(scratch, exist_ok=True)
    for p in (out, cur):
        if os.path.exists(p):
            os.unlink(p)
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update({"HOME": scratch, "TMPDIR": scratch, "TEST_TMPDIR": scratch,
                "VH_SCRATCH": scratch, "GLOG_minloglevel": "4", "GLOG_logtostderr": "1",
                "MALLOC_ARENA_MAX": "4"})
    for k in ("http_proxy", "https_proxy"):
        env.pop(k, None)
    cmd = [exe, "--prop", pid, "--seed", str(seed), "--tier", tier, "--shard", str(shard),
           "--shards", str(shards), "--out", out, "--cur", cur, "--mode", mode,
           "--known", ",".join(sorted(known)), "--scale", str(SCALE)]
    if only:
        cmd += ["--only", only]
    limit = 560 if tier == "quick" else 5400
    hard = False
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=ef, stderr=subprocess.STDOUT, env=env, cwd=scratch,
                             start_new_session=True)
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            hard = True
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    res = {"rc": p.returncode, "mode": mode, "shard": shard, "timeout": hard}
    res["stderr"] = read(err).decode("utf-8", "replace")[-20000:]
    res["cur"] = read(cur).decode("utf-8", "replace").strip("\0\n ") if os.path.exists(cur) else ""
    if os.path.exists(out):
        try:
            res["out"] = json.loads(read(out).decode("utf-8", "replace"))
        except ValueError:
            res["out"] = None
    shutil.rmtree(scratch, ignore_errors=True)
    return res


CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))
SCALE = 1  # of the large sections of the check that runs


def do_check(pid, replay):
    spec = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only = None
    if replay:
        rp = json.load(open(replay))
        seed, tier, only = rp["seed"], rp["tier"], rp["case"]
    t0 = time.time()
    global SCALE
    SCALE = spec.get("scale", {}).get(tier, 1)
    known = load_known().get(pid, {})
    runs = []  # (harness, mode)
    for h in spec["harness"]:
        for mode in h["modes"]:
            if replay and rp.get("mode") != mode or replay and rp.get("harness") != h["name"]:
                continue
            runs.append((h["name"], mode, h.get("shards", JOBS)))
    exes = {}
    for name, mode, _ in runs:
        exes[(name, mode)] = build(name, mode)
    t_build = time.time() - t0
    workdir = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=BUILD)
    violations, infra, found_known = [], [], {}
    merged = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "sections": {}, "events": {}}
    try:
        for name, mode, shards in runs:
            if replay:
                shards = rp["shards"]
            jobs = [rp["shard"]] if replay else list(range(shards))

            def one(k):
                r = run_harness(exes[(name, mode)], mode, pid, seed, tier, k, shards, known,
                                workdir, only)
                if r["rc"] == 98:
                    # no progress: re-run that shard alone once before believing it
                    r2 = run_harness(exes[(name, mode)], mode, pid, seed, tier, k, shards, known,
                                     workdir, only)
                    r2["hang_before"] = r["cur"]
                    return r2
                return r

            with cf.ThreadPoolExecutor(JOBS) as ex:
                results = list(ex.map(one, jobs))
            for r in results:
                base = {"property": pid, "harness": name, "mode": mode, "seed": seed, "tier": tier,
                        "shard": r["shard"], "shards": shards}
                o = r.get("out")
                sk = san_key(r["stderr"])
                if o:
                    merged["evaluations"] += o["evaluations"]
                    merged["distinct_nontrivial"] += o["distinct"]
                    for s, n in o["sections"].items():
                        merged["sections"][s] = merged["sections"].get(s, 0) + n
                    for s, n in o["events"].items():
                        if s.startswith("max_"):
                            merged["events"][s] = max(merged["events"].get(s, 0), n)
                        else:
                            merged["events"][s] = merged["events"].get(s, 0) + n
                    if len(merged["samples"]) < 8:
                        merged["samples"] += o["samples"][:2]
                    for v in o["violations"]:
                        violations.append(dict(base, key=v["key"], case=v["case"], message=v["message"]))
                    for kf in o["known"]:
                        found_known[kf] = known.get(kf, "")
                if r["rc"] in (0, 1) and o:
                    continue
                if r["timeout"]:
                    infra.append("harness %s (%s) exceeded its time limit in case '%s'"
                                 % (name, mode, r["cur"]))
                elif r["rc"] == 98:
                    sec = r["cur"].split("#")[0]
                    if sec == r.get("hang_before", "").split("#")[0]:
                        violations.append(dict(base, key="hang:" + sec, case=r["cur"],
                                               message="no progress in two runs; the case never completed"))
                    else:
                        infra.append("stalled once in '%s' then in '%s'" % (r.get("hang_before"), r["cur"]))
                elif r["rc"] == 3:
                    infra.append("harness %s reported a failure of its own: %s" % (name, r["stderr"][-800:]))
                elif r["rc"] == -9:
                    infra.append("harness %s was killed (out of memory?) in '%s'" % (name, r["cur"]))
                else:
                    key = sk or ("crash:rc%d" % r["rc"])
                    if key in known:
                        found_known[key] = known[key]
                    else:
                        violations.append(dict(base, key=key, case=r["cur"],
                                               message="process died; monitor/sanitizer report follows",
                                               report=r["stderr"][-6000:]))
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    if merged["evaluations"] == 0 and not violations and not replay:
        infra.append("nothing was observed")
    for need in spec.get("require_events", []):
        if not replay and not violations and not infra and merged["events"].get(need, 0) == 0:
            infra.append("required event never observed: " + need)
    wall = time.time() - t0
    if not replay:
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
            "coverage": {
                "evaluations": merged["evaluations"],
                "distinct_nontrivial": merged["distinct_nontrivial"],
                "rule": spec["rule"],
                "samples": merged["samples"] or ["(no case completed)"],
                "cases_per_section": merged["sections"],
                "observed_events": merged["events"],
                "builds": ["%s/%s" % (n, m) for n, m, _ in runs],
                "build_seconds": round(t_build, 1),
                "inconclusive": infra,
                "known_findings_seen": sorted(found_known),
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(wall, 2),
            "violations": len(violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k in sorted(found_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, found_known[k] or k))
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for v in violations:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, sha(v["key"], v["case"])[:12]))
            if not replay:
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
            else:
                path = replay
            print("violated [%s] case=%s: %s" % (v["key"], v["case"], v["message"]))
            if "report" in v:
                print("\n".join(v["report"].splitlines()[-60:]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            if len(seen) >= 5:
                break
        return 1
    if infra:
        for i in infra:
            print("INCONCLUSIVE: " + i)
        return 2
    print("%s: held on %d evaluations (%d distinct non-trivial), build %.0fs, total %.0fs"
          % (pid, merged["evaluations"], merged["distinct_nontrivial"], t_build, wall))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    try:
        prune()
        if a.setup:
            for pid, spec in CHECKS.items():
                for h in spec["harness"]:
                    for mode in h["modes"]:
                        build(h["name"], mode)
                        print("built", h["name"], mode, flush=True)
            return 0
        return do_check(a.id, a.replay)
    except BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())

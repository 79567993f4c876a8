#!/usr/bin/env python3
"""Decides one property: builds its monitors against /repo's working tree, runs
the workload, judges what the monitors reported.

  check.py C01                 (VERIF_SEED, VERIF_TIER from the environment)
  check.py C01 --tier thorough --seed 7
  check.py C01 --replay replay/C01/xyz.json
  check.py --build-all         (setup: compile everything once)
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CORES = max(1, min(8, os.cpu_count() or 1))
INC = ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + HERE + "/src"]
SHIM = ["-DVT_SHIM", "-I" + HERE + "/shim"]
REAL = ["-I/opt/sycl/include", "-I/opt/sycl/include/sycl"]
REAL_L = ["-L/opt/sycl/lib", "-Wl,-rpath,/opt/sycl/lib", "-lsycl"]
ASAN = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
TSAN = ["-O1", "-g", "-fsanitize=thread"]
LIBS = ["-lpthread", "-ldl"]

def py_inc():
    import sysconfig
    out = ["-I" + sysconfig.get_paths()["include"]]
    if not os.path.exists("/usr/include/pybind11/pybind11.h"):
        try:
            import pybind11; out.append("-I" + pybind11.get_include())
        except ImportError: pass
    return out

# name -> alternatives, tried in order: (sources, flags, libraries)
def targets():
    def h(src, *flags): return [([HERE + "/src/" + src], SHIM + list(flags), LIBS), ([HERE + "/src/" + src], REAL + list(flags), REAL_L + LIBS)]
    main = sorted(glob.glob(REPO + "/src/*.cpp"))
    return {
        "geom": h("geom.cpp", "-O2"),
        **{"meta-C%02d" % n: h("meta.cpp", "-O2", "-DVT_SEL=%d" % n) for n in (4, 5, 7, 23, 24, 25, 26)},
        **{"unit-C%02d" % n: h("unit.cpp", "-DVT_SEL=%d" % n, *ASAN) for n in (11, 12, 14, 15, 22)},
        "hostile": h("hostile.cpp", *ASAN),
        "hostile_vg": h("hostile.cpp", "-O1", "-g", "-DVT_VALGRIND"),
        "race": h("race.cpp", *TSAN),
        "gpu": h("gpu.cpp", *ASAN)[:1],
        "gpu_tsan": h("gpu.cpp", *TSAN)[:1],
        "gpu_real": [([HERE + "/src/gpu.cpp"], REAL + ["-O1"], REAL_L + LIBS)],
        "sys": h("sys.cpp", "-O2"),
        "sys_asan": h("sys.cpp", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"),
        "res": h("res.cpp", "-O2"),
        "valid": h("valid.cpp", "-O2"),
        "work": h("work.cpp", "-O2", "-fsanitize-coverage=trace-pc"),
        "ref": h("ref.cpp", "-O2"),
        "clvotess": [(main, REAL + ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], REAL_L + LIBS)],
        "pyvotess.so": [(main + sorted(glob.glob(REPO + "/src/pybind11/*.cpp")),
                         REAL + py_inc() + ["-O1", "-g", "-fsanitize=address", "-fPIC", "-shared"], REAL_L + LIBS)],
    }

# property -> list of runs: (target, mode, scale thorough, kind)
def R(target, mode, thorough, kind="cxx", needs=(), optional=False):
    return dict(target=target, mode=mode, thorough=thorough, kind=kind, needs=needs, optional=optional)
PROPS = {
    "C01": [R("geom", "C01", 12)], "C02": [R("geom", "C02", 12)], "C03": [R("geom", "C03", 12)],
    "C04": [R("meta-C04", "C04", 8)], "C05": [R("meta-C05", "C05", 8)], "C06": [R("geom", "C06", 12)],
    "C07": [R("meta-C07", "C07", 10)],
    "C08": [R("hostile", "C08", 10), R("hostile_vg", "C08V", 8, "valgrind")],
    "C09": [R("race", "C09", 8, "tsan")],
    "C10": [R("geom", "C10", 10)], "C11": [R("unit-C11", "C11", 12)], "C12": [R("unit-C12", "C12", 12)],
    "C13": [R("geom", "C13", 12)], "C14": [R("unit-C14", "C14", 12)], "C15": [R("unit-C15", "C15", 12)],
    "C16": [R("gpu", "C16", 8, optional=True), R("gpu_tsan", "C16T", 8, "tsan", optional=True), R("gpu_real", "C16", 8)],
    "C17": [R("pyvotess.so", "C17", 10, "python", ("ref",))],
    "C18": [R("clvotess", "C18", 10, "cli", ("ref",))],
    "C19": [R("sys", "C19", 12)], "C20": [R("sys_asan", "C20", 10)], "C21": [R("sys", "C21", 10)],
    "C22": [R("unit-C22", "C22", 12)], "C23": [R("meta-C23", "C23", 8)], "C24": [R("meta-C24", "C24", 8)], "C25": [R("meta-C25", "C25", 12)],
    "C26": [R("meta-C26", "C26", 10)], "C27": [R("res", "C27", 10)],
    "C28": [R("valid", "C28", 10)], "C29": [R("work", "C29", 6)], "C30": [R("sys", "C30", 10)],
}
LEVEL = {p: "exploration" for p in PROPS}
LEVEL["C20"] = "fault_enumeration"
RULES = json.load(open(os.path.join(HERE, "rules.json")))

class Broken(Exception): pass

# ------------------------------------------------------------------- building
def tree_hash():
    h = hashlib.sha256()
    for base, pats in ((REPO, ("include/**/*", "src/**/*")), (HERE, ("src/*", "shim/**/*"))):
        for pat in pats:
            for f in sorted(glob.glob(os.path.join(base, pat), recursive=True)):
                if os.path.isfile(f):
                    h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def build(name, thash):
    out = os.path.join(BUILD, thash, name)
    if os.path.exists(out): return out, None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    log = ""
    for srcs, flags, libs in targets()[name]:
        tmpd = tempfile.mkdtemp(prefix="b-", dir=os.path.dirname(out))
        try:
            objs, jobs = [], []
            base = ["g++", "-std=c++17", "-w"] + flags + INC
            if len(srcs) == 1:
                jobs.append(base + srcs + ["-o", tmpd + "/out"] + libs)
            else:
                for i, s in enumerate(srcs):
                    o = "%s/%d.o" % (tmpd, i); objs.append(o)
                    jobs.append([x for x in base if x != "-shared"] + ["-c", s, "-o", o])
            with ThreadPoolExecutor(CORES) as ex: rs = list(ex.map(lambda j: subprocess.run(j, capture_output=True, text=True), jobs))
            bad = [r for r in rs if r.returncode]
            if not bad and objs:
                r = subprocess.run(base + objs + ["-o", tmpd + "/out"] + libs, capture_output=True, text=True)
                if r.returncode: bad = [r]
            if not bad:
                os.rename(tmpd + "/out", out)
                return out, None
            log += " ".join(jobs[0]) + "\n" + bad[0].stderr[-3000:] + "\n"
        finally: shutil.rmtree(tmpd, ignore_errors=True)
    return None, log

def prune(thash):
    if os.path.isdir(BUILD):
        for d in os.listdir(BUILD):
            if d != thash and re.fullmatch("[0-9a-f]{16}", d): shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)

# -------------------------------------------------------------------- running
def command(run, exe, refexe, scratch, args):
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=98:detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=97:second_deadlock_stack=1:report_signal_unsafe=0"
    k = run["kind"]
    if k == "valgrind":
        return ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--fair-sched=yes", "--child-silent-after-fork=yes", exe] + args + ["--limit-ms", "400000"], env
    if k == "python":
        so = [subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip() for n in ("libasan.so", "libstdc++.so.6")]
        env["LD_PRELOAD"] = " ".join(so); env["PYTHONMALLOC"] = "malloc"; env["PYTHONDONTWRITEBYTECODE"] = "1"
        return [sys.executable, HERE + "/py/py17.py", "--target", exe, "--ref", refexe] + args, env
    if k == "cli":
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        return [sys.executable, HERE + "/py/cli18.py", "--target", exe, "--ref", refexe] + args, env
    return [exe] + args, env

def read_report(path):
    ev = []
    try:
        for l in open(path, errors="replace"):
            try: ev.append(json.loads(l))
            except ValueError: pass
    except OSError: pass
    return ev

SHARD_LIMIT = {"quick": 420, "thorough": 20000}
GRACE = 20        # seconds the other shards get once one has reported a violation

def run_shard(run, exe, refexe, work, tier, seed, scale, shard, shards, only=None, limit=None, stop=None):
    """One process of one monitor. `stop` (shared by the shards of a run) carries the time at which a
    violation was first reported: the others then get GRACE seconds more, since the verdict is settled."""
    tag = "%s-%s-%d%s" % (run["target"], run["mode"], shard, "" if only is None else "-only%d" % only)
    out, scratch = os.path.join(work, tag + ".jsonl"), os.path.join(work, tag + ".d")
    os.makedirs(scratch, exist_ok=True)
    args = ["--mode", run["mode"], "--seed", str(seed), "--scale", str(scale), "--out", out, "--scratch", scratch]
    args += ["--only", str(only)] if only is not None else ["--shard", str(shard), "--shards", str(shards)]
    cmd, env = command(run, exe, refexe, scratch, args)
    env["TMPDIR"] = scratch
    err = open(os.path.join(work, tag + ".err"), "wb+")
    timed = stopped = False
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=scratch, start_new_session=True)
    end = time.time() + (limit or SHARD_LIMIT[tier])
    while True:
        try: rc = p.wait(1.0 if stop is not None else max(0.1, end - time.time())); break
        except subprocess.TimeoutExpired: pass
        if time.time() >= end: timed = True; rc = None; break
        if stop and time.time() > stop[0] + GRACE: stopped = True; rc = None; break
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    if rc is None: p.wait()
    err.seek(0); etext = err.read()[-20000:].decode("latin1"); err.close()
    ev = read_report(out)
    shutil.rmtree(scratch, ignore_errors=True)
    if stop is not None and not stop and not stopped and (timed or any("violation" in e or e.get("hang") for e in ev) or rc not in (0, 1)):
        stop.append(time.time())
    return dict(rc=rc, timed=timed, stopped=stopped, err=etext, ev=ev, cmd=cmd, args=args)

def classify(etext, rc):
    """A stable key for a crash: kind of report and the innermost frame inside the project."""
    m = re.search(r"SHIM-OOB (\w+)", etext)
    if m: return "device-out-of-bounds " + m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", etext)
    kind = "asan " + m.group(1) if m else None
    m = re.search(r"([\w./]+):\d+:\d+: runtime error: ([^\n]*)", etext)
    if not kind and m: kind = "ubsan " + re.sub(r"-?\d[\d.e+]*", "N", m.group(2))[:60]
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?)\s*\(", etext)
    if not kind and m: kind = "tsan " + m.group(1)
    if not kind and "==" in etext and rc == 99: kind = "memcheck"
    if not kind and "terminate called" in etext: kind = "terminate"
    if not kind and "Assertion" in etext: kind = "assertion"
    if not kind: kind = "signal %d" % -rc if rc is not None and rc < 0 else "exit %s" % rc
    f = re.search(r"(?:in|by 0x[0-9A-F]+:|at 0x[0-9A-F]+:) (?:[\w ]*?)([\w:~]+)[^\n]*?[/(](?:repo/)?(?:src|include)/([\w./]+)", etext)
    return kind + (" in " + f.group(2) if f else "")

INFRA = ("Cannot allocate memory", "No space left on device", "ReserveShadowMemoryRange failed", "unexpected memory mapping")

def judge(run, res, n_only=None):
    """-> (violations [dict], done event or None, hang case or None)"""
    viol, done, last, hang = [], None, None, None
    for e in res["ev"]:
        if "violation" in e: viol.append(dict(key=e["violation"], case=e.get("case"), n=e.get("n", -1), detail=e.get("detail", "")))
        elif "case" in e: last = e
        elif e.get("hang"): hang = True
        elif e.get("done"): done = e
    if res["stopped"]: return viol, done, None
    if res["timed"] or hang:
        return viol, done, (last or {"case": "startup", "n": -1})
    if res["rc"] != 0 and not viol or (res["rc"] not in (0, 1) ):
        if last is None:
            raise Broken("%s ended with %s before its first case:\n%s" % (run["target"], res["rc"], res["err"][-1500:]))
        if run["kind"] in ("python", "cli") and "Traceback (most recent call last)" in res["err"] and res["rc"] == 1 and run["kind"] == "cli":
            raise Broken("harness error:\n" + res["err"][-2000:])
        viol.append(dict(key="crash " + classify(res["err"], res["rc"]), case=last["case"], n=last["n"], detail=res["err"][-6000:]))
    return viol, done, None

# ------------------------------------------------------------- known findings
def known():
    out = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\w+) key=\"([^\"]*)\" case=\"([^\"]*)\" (.*)", l)
            if m: out.append(m.groups())
    except OSError: pass
    return out

def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a.add_argument("--replay"); a.add_argument("--build-all", action="store_true")
    a.add_argument("--keep", action="store_true")
    o = a.parse_args()
    if o.tier not in ("quick", "thorough"): o.tier = "quick"
    th = tree_hash()
    if o.build_all:
        bad = 0
        with ThreadPoolExecutor(4) as ex:
            for name, (p, log) in zip(targets(), ex.map(lambda n: build(n, th), list(targets()))):
                print("built" if p else "FAILED", name)
                if not p: print(log[-2000:]); bad = 1
        return bad
    prop = o.prop
    runs = PROPS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vt-%s-" % prop)
    try: return decide(prop, runs, o, th, work, t0)
    finally:
        if not o.keep: shutil.rmtree(work, ignore_errors=True)

def decide(prop, runs, o, th, work, t0):
    if not o.keep and not os.environ.get("VT_KEEP_BUILDS"): prune(th)
    violations, notes = [], []
    tot = dict(evaluations=0, distinct=0, samples=[], counters={})
    names = []
    for r in runs:
        for n in (r["target"],) + tuple(r["needs"]):
            if n not in names: names.append(n)
    with ThreadPoolExecutor(CORES) as ex: built = dict(zip(names, ex.map(lambda n: build(n, th), names)))
    only = None
    if o.replay:
        rp = json.load(open(o.replay)); o.seed = rp["seed"]; only = rp
    ran = 0
    for run in runs:
        if violations and o.tier == "quick" and not known(): break   # the verdict is settled
        exe, log = built[run["target"]]
        if only and (only["target"], only["mode"]) != (run["target"], run["mode"]): continue
        refexe = built[run["needs"][0]][0] if run["needs"] else None
        if not exe or (run["needs"] and not refexe):
            if run["optional"]: notes.append("monitor %s could not be built: %s" % (run["target"], (log or "")[-400:])); continue
            raise Broken("cannot build %s:\n%s" % (run["target"], log or built[run["needs"][0]][1]))
        scale = (only["scale"] if only else run["thorough"] if o.tier == "thorough" else 1)
        ran += 1
        if only:
            jobs = [dict(shard=0, only=only["n"])]
        else:
            jobs = [dict(shard=s) for s in range(CORES)]
        stop = [] if not known() else None
        def go(j, stop=None): return run_shard(run, exe, refexe, work, o.tier, o.seed, scale, j["shard"], CORES, j.get("only"), stop=stop)
        with ThreadPoolExecutor(CORES) as ex: results = list(ex.map(lambda j: go(j, stop), jobs))
        pairs = sorted(zip(jobs, results), key=lambda x: x[1]["stopped"])   # the stopped ones last
        while pairs:
            j, res = pairs.pop(0)
            if res["stopped"] and not any("violation" in e for e in res["ev"]):
                if violations: continue
                # what stopped it turned out to be no violation: all the stopped ones run again, to their end
                redo = [j] + [x[0] for x in pairs]
                with ThreadPoolExecutor(CORES) as ex: pairs = list(zip(redo, ex.map(go, redo)))
                continue
            # the machine, not the program: try once more, alone
            if res["rc"] not in (0, 1) and any(s in res["err"] for s in INFRA) and "terminate called" not in res["err"]:
                notes.append("shard %d repeated after %s" % (j["shard"], res["err"][-200:])); res = go(j)
            v, done, hang = judge(run, res)
            if hang is not None and any(x["key"] == "hang" for x in violations):
                hang = None; v.append(dict(key="hang", case="another shard", n=-1, detail="not repeated: a hang is confirmed already"))
            if hang is not None:
                again = run_shard(run, exe, refexe, work, o.tier, o.seed, scale, 0, CORES, hang["n"], limit=240) if hang["n"] >= 0 else res
                v2, done2, hang2 = judge(run, again)
                v += v2
                if hang2 is not None: v.append(dict(key="hang", case=hang2["case"], n=hang2["n"], detail="no end within the limit, twice; case takes well below a second on the reference tree"))
                else: notes.append("one case exceeded the time limit but finished when repeated alone: inconclusive, %s" % hang["case"])
                done = done or done2
            for x in v:
                x.update(target=run["target"], mode=run["mode"], seed=o.seed, scale=scale); violations.append(x)
            if done:
                tot["evaluations"] += done["evaluations"]; tot["distinct"] += done["distinct"]
                tot["samples"] += done["samples"][:2]
                for k, n in done["counters"].items():
                    tot["counters"][k] = max(tot["counters"].get(k, 0), n) if k.startswith("max ") else tot["counters"].get(k, 0) + n
            elif not v: raise Broken("shard %d of %s ended (%s) without a report:\n%s" % (j["shard"], run["target"], res["rc"], res["err"][-1500:]))
            else:
                tot["evaluations"] += sum(1 for e in res["ev"] if "case" in e and "violation" not in e)
    if not ran: raise Broken("no monitor could be built: " + "; ".join(notes))
    # one violation per key; listed findings are reported as such
    kn = known(); seen = set(); fresh = []
    for v in violations:
        k = next((x for x in kn if x[0] == prop and x[1] == v["key"] and x[2] == v["case"]), None)
        if k:
            if k not in seen: print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
            seen.add(k); continue
        fresh.append(v)
    byk = {}
    for v in fresh: byk.setdefault(v["key"], v)
    if not fresh and not only and tot["evaluations"] == 0: raise Broken("the monitors observed nothing")
    if not only:
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(dict(property=prop, tier=o.tier, seed=o.seed, level=LEVEL[prop], wall_s=round(time.time() - t0, 2), violations=len(byk),
                       coverage=dict(evaluations=tot["evaluations"], distinct_nontrivial=tot["distinct"], rule=RULES[prop]["rule"],
                                     samples=tot["samples"][:12] or ["(run ended by a violation before samples were taken)"],
                                     observed=tot["counters"], notes=notes),
                       assumptions=RULES[prop].get("assumptions", [])),
                  open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    if byk:
        d = os.path.join(HERE, "replay", prop)
        os.makedirs(d, exist_ok=True)
        for i, (k, v) in enumerate(list(byk.items())[:10]):
            f = os.path.join(d, re.sub(r"[^\w-]+", "-", k)[:60] + ".json") if not only else o.replay
            if not only: json.dump(v, open(f, "w"), indent=1)
            print("--- %s [%s] case %s: %s\n%s" % (prop, k, v["n"], v["case"], v["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(f, HERE)))
        return 1
    print("%s held: %d evaluations, %d distinct, %.1f s" % (prop, tot["evaluations"], tot["distinct"], time.time() - t0))
    for n in notes: print("note:", n)
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except Broken as e:
        print("CHECK-ERROR:", e); sys.exit(3)

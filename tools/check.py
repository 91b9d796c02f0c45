#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

Builds the LLVM IR of the harness crate linked with xecs, lets the symbolic executor run the jobs
of the property (jobs.py), replays everything it finds on native builds of the same crate, and
compares sampled paths with native runs.  Exit 0: held; 1: violated, with a VIOLATION line; 2: no
answer (something could not be encoded, a finding could not be reproduced, a build failed).
"""
import fcntl, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from jobs import JOBS, ENTRIES, ASSUME, OUTSIDE

def flat(name):
    return name.replace("/", "-")


T0 = time.time()
HARD = 860          # no check runs longer than this, whatever happens
BUILD = os.path.join(HERE, "build")
XSYM = os.path.join(HERE, "engine", "target", "release", "xsym")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
NCPU = os.cpu_count() or 4
TARGET = "x86_64-unknown-linux-gnu"


def left(cap):
    return max(1, min(cap, HARD - (time.time() - T0)))


class NoAnswer(Exception):
    pass


def run(cmd, cwd=HERE, env=None, timeout=300):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=left(timeout), text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return 124, out if isinstance(out, str) else out.decode(errors="replace")


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *_):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_engine():
    with Lock("engine"):
        rc, out = run(["cargo", "build", "--offline", "--release", "-q"], cwd=os.path.join(HERE, "engine"))
    if rc != 0:
        raise NoAnswer("the engine does not build:\n" + out[-3000:])


def build_ir(prop, spec):
    crate = os.path.join(HERE, spec["crate"])
    out = os.path.join(BUILD, prop + ".ll")
    with Lock("ir-" + flat(spec["crate"])):
        rc, log = run([os.path.join(HERE, "tools", "build_ir.sh"), crate,
                       os.path.join(BUILD, "ir-" + flat(spec["crate"])), out, spec["feature"]] + ENTRIES[spec["feature"]])
    if rc != 0:
        raise NoAnswer("no IR of the harness and xecs:\n" + log[-3000:])
    return out


def build_native(prop, spec, profile="release", san=None):
    """profile: release (assertions on), user (as users run it); san: address"""
    crate = os.path.join(HERE, spec["crate"])
    name = profile + ("-" + san if san else "")
    env = dict(ENV)
    tgt = os.path.join(BUILD, "nat-" + flat(spec["crate"]) + ("-" + san if san else ""))
    cmd = ["cargo", "build", "--offline", "-q", "--profile", profile, "--features", spec["feature"]]
    sub = "debug" if profile == "dev" else profile
    where = os.path.join(tgt, sub)
    if san:
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["RUSTFLAGS"] = "-Zsanitizer=" + san
        cmd += ["--target", TARGET]
        where = os.path.join(tgt, TARGET, sub)
    env["CARGO_TARGET_DIR"] = tgt
    dst = os.path.join(BUILD, "%s.%s.bin" % (prop, name))
    with Lock("nat-" + flat(spec["crate"]) + name):
        rc, log = run(cmd, cwd=crate, env=env)
        if rc != 0:
            raise NoAnswer("the native harness (%s) does not build:\n%s" % (name, log[-3000:]))
        exe = os.path.join(where, spec["bin"])
        tmp = dst + ".tmp%d" % os.getpid()
        shutil.copy(exe, tmp)
        os.replace(tmp, dst)
    return dst


def native(exe, entry, args, tape, timeout=20, opts=()):
    """-> (outcome, text): ok | assume | mismatch | check:N | panic | signal:N | hang | asan"""
    cmd = [exe, entry, ",".join(map(str, args)) or "0", ",".join(map(str, tape)) or "-"]
    return classify(*run(cmd, timeout=timeout, env=native_env(opts)))


def native_env(opts, base=ENV):
    opts = list(opts)
    env = dict(base)
    for o, name in (("--preempt", "XS_PREEMPT"), ("--gap", "XS_GAP")):
        if o in opts:
            env[name] = opts[opts.index(o) + 1]
    return env


def classify(rc, out):
    m = re.search(r"FAIL (\S+)", out)
    if "AddressSanitizer" in out:
        return "asan", out
    if "Undefined Behavior" in out:
        return "miri", out
    if rc == 124:
        return "hang", out
    if rc < 0 or rc in (134, 139):
        return "signal:%d" % rc, out
    if m and rc in (75, 76, 77, 78):
        return m.group(1), out
    if rc == 98:
        return "assume", out
    if rc == 99:
        return "mismatch", out
    if rc == 0:
        return "ok", out
    return "exit:%d" % rc, out


BAD = ("check:", "panic", "signal:", "hang", "asan", "miri", "deadlock", "exit:134")


def bad(o):
    return any(o.startswith(b) for b in BAD)


class Replayer:
    def __init__(self, prop, spec):
        self.prop, self.spec, self.exe = prop, spec, {}
        self.lock = threading.Lock()

    def get(self, profile, san=None):
        k = (profile, san)
        if k not in self.exe:
            try:
                self.exe[k] = build_native(self.prop, self.spec, profile, san)
            except NoAnswer as e:
                print("note: %s" % str(e).splitlines()[0])
                self.exe[k] = None
        return self.exe[k]

    def miri(self, entry, args, tape, opts):
        crate = os.path.join(HERE, self.spec["crate"])
        env = dict(native_env(opts), RUSTUP_TOOLCHAIN="nightly", MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks",
                   CARGO_TARGET_DIR=os.path.join(BUILD, "miri-" + flat(self.spec["crate"])))
        cmd = ["cargo", "miri", "run", "--offline", "-q", "--features", self.spec["feature"], "--",
               entry, ",".join(map(str, args)) or "0", ",".join(map(str, tape)) or "-"]
        return classify(*run(cmd, cwd=crate, env=env, timeout=240))

    def replay(self, entry, args, f, opts=()):
        """does the native code show what the executor found?  -> (how, outcome, command) or None"""
        with self.lock:
            order = [("release", None, 12), ("user", None, 12)]
            if f["kind"] in ("mem", "uninit", "unreachable", "abort"):
                order = [("dev", None, 3), ("release", None, 6), ("user", None, 3), ("dev", "address", 6)]
            for prof, san, times in order:
                exe = self.get(prof, san)
                if exe is None:
                    continue
                for _ in range(times):
                    o, text = native(exe, entry, args, f["tape"],
                                     timeout=15 if f["kind"] in ("hang", "deadlock") else 40, opts=opts)
                    if bad(o):
                        return prof + ("-" + san if san else ""), o, text
                    if o == "hang" or left(900) < 30:
                        break
            if f["kind"] in ("mem", "uninit", "unreachable"):
                o, text = self.miri(entry, args, f["tape"], opts)
                if bad(o):
                    return "miri", o, text
        return None


def known(prop):
    """keys of the recorded findings of this property"""
    r = {}
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return r


class Job:
    def __init__(self, j, i):
        self.entry, self.args, self.covers, self.what = j["entry"], j["args"], j.get("covers", []), j["what"]
        self.opts, self.i = j.get("opts", []), i
        self.res = None
        self.err = None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = JOBS[prop]
    jobs = [Job(j, i) for i, j in enumerate(spec["quick"] + (spec.get("thorough", []) if tier == "thorough" else []))]
    ev_path = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    for p in (ev_path, ev_path[:-5] + ".replay.json"):
        if os.path.exists(p):
            os.remove(p)
    rep = Replayer(prop, spec)
    try:
        with ThreadPoolExecutor(3) as ex:
            e = ex.submit(build_engine)
            n = ex.submit(build_native, prop, spec)
            ll = ex.submit(build_ir, prop, spec).result()
            e.result()
            rep.exe[("release", None)] = n.result()
    except NoAnswer as e:
        print("NO ANSWER property=%s: %s" % (prop, e))
        return 2
    t_build = time.time() - T0
    budget = left(820 if tier == "thorough" else 600) - 40
    stop = threading.Event()
    procs = set()
    out = os.path.join(BUILD, "out-%s-%d" % (prop, os.getpid()))
    os.makedirs(out, exist_ok=True)
    par = min(spec.get("par", 3), len(jobs))
    threads = max(2, (NCPU + par - 1) // par + 1) if par > 1 else NCPU

    def work(j):
        if stop.is_set():
            return j
        dst = os.path.join(out, "%d.json" % j.i)
        b = int(max(5, budget - (time.time() - T0 - t_build)))
        cmd = [XSYM, "--ll", ll, "--entry", j.entry, "--args", ",".join(map(str, j.args)), "--out", dst,
               "--threads", str(threads), "--budget", str(b), "--seedkeys", str(seed + 7919 * j.i)] + j.opts
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
        procs.add(p)
        try:
            _, err = p.communicate(timeout=b + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
        procs.discard(p)
        try:
            j.res = json.load(open(dst))
        except Exception:
            j.err = err[-800:] or "no result"
        return j

    listed, viol, unconf, hits = known(prop), None, [], {}
    with ThreadPoolExecutor(par) as ex:
        futs = [ex.submit(work, j) for j in jobs]
        for fu in futs:
            j = fu.result()
            if viol or not j.res:
                continue
            seen = set()
            for f in j.res["found"]:
                key = "%s/%s" % (j.entry, f["kind"])
                if key in seen:
                    continue
                r = rep.replay(j.entry, j.args, f, j.opts)
                if r is None:
                    unconf.append((key, f["detail"], j.args, f["tape"]))
                    continue
                seen.add(key)
                if key in listed:
                    hits[key] = listed[key]
                    continue
                viol = (j, f, r, key)
                stop.set()
                for p in list(procs):
                    p.kill()
                break

    # sampled paths, natively
    valid, mism, samples = 0, [], []
    if not viol:
        exe = rep.exe[("release", None)]
        todo = [(j, s) for j in jobs if j.res for s in j.res["samples"]]

        def same(js):
            j, s = js
            o, text = native(exe, j.entry, j.args, s["tape"], opts=j.opts)
            got = [[int(a), int(b)] for a, b in re.findall(r"^LOG (\d+) (\d+)$", text, re.M)]
            if o == "ok" and got == s["log"]:
                return js, True, o
            return js, False, "%s log %s instead of %s" % (o, got[:6], s["log"][:6])
        with ThreadPoolExecutor(NCPU) as ex:
            for (j, s), ok, why in ex.map(same, todo):
                if ok:
                    valid += 1
                    if len(samples) < 12 and (not samples or samples[-1]["job"] != j.entry):
                        samples.append({"job": j.entry, "args": j.args, "tape": s["tape"][:60], "log": s["log"][:20]})
                else:
                    mism.append("%s %s tape %s: %s" % (j.entry, j.args, s["tape"], why))
    done = [j for j in jobs if j.res]
    tot = lambda k: sum(j.res[k] for j in done)
    trouble = []
    for j in jobs:
        if viol:
            break
        if j.err:
            trouble.append("%s %s: %s" % (j.entry, j.args, j.err))
            continue
        for i in j.res["inconclusive"][:2]:
            trouble.append("%s %s: not decided: %s" % (j.entry, j.args, i["why"]))
        if not j.res["timeout"] and not j.res["found"]:
            for c in j.covers:
                if j.res["covers"].get(str(c), 0) == 0:
                    trouble.append("%s %s: nothing reached point %d of the harness" % (j.entry, j.args, c))
    for u in unconf:
        trouble.append("%s: found %s, not reproduced natively; args %s tape %s" % u)
    trouble += ["sampled path differs: " + m for m in mism[:3]]
    funcs = sorted({f if isinstance(f, str) else f.get("name", str(f)) for j in done for f in j.res["xecs_functions"]})
    cov = {}
    for j in done:
        for k, v in j.res["covers"].items():
            cov[k] = cov.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("insts"),
            "traces_validated_against_impl": valid,
            "samples": samples or [{"job": j.entry, "args": j.args, "paths": j.res["paths"]} for j in done][:3],
            "exhaustive": bool(done) and len(done) == len(jobs) and not any(j.res["timeout"] for j in done) and not trouble and not viol,
            "what_is_counted": "states: complete symbolic paths of the harnesses through the compiled crate (each stands for every value of its symbolic inputs); transitions: IR instructions executed on them",
            "forks": tot("forks"), "property_assertions": tot("checks"),
            "assertions_decided_by_solver": tot("checks_solved"), "assertions_decided_by_simplifier": tot("checks_simplified"),
            "solver_queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "query_cache_hits": tot("qhits"),
            "solver_s": round(tot("solver_s"), 3), "schedule_points": tot("sched_points"),
            "covers": cov,
            "jobs": [{"entry": j.entry, "args": j.args, "bounds": j.what,
                      **({k: j.res[k] for k in ("paths", "assume_paths", "forks", "insts", "checks", "queries", "solver_s", "wall_s", "timeout", "covers")} if j.res else {"not_run": True})}
                     for j in jobs],
            "functions_encoded": funcs, "functions_in_ir": max([j.res["functions_total"] for j in done] or [0]),
            "xecs_blocks_covered": max([j.res["xecs_blocks_covered"] for j in done] or [0]),
            "xecs_blocks_total": max([j.res["xecs_blocks"] for j in done] or [0]),
            "outside_the_bounds": OUTSIDE + spec.get("outside", []),
            "build_s": round(t_build, 1), "not_decided": trouble,
        },
        "assumptions": ASSUME + spec.get("assume", []),
        "wall_s": round(time.time() - T0, 2), "violations": 1 if viol else 0,
    }
    if viol:
        j, f, (how, o, text), key = viol
        rp = os.path.join(HERE, "evidence", prop + ".replay.json")
        json.dump({"property": prop, "key": key, "entry": j.entry, "args": j.args, "tape": f["tape"], "opts": j.opts,
                   "found": f["kind"], "detail": f["detail"], "trace": f.get("trace"), "bounds": j.what,
                   "replayed_by": how, "native_outcome": o, "native_output": text[-3000:],
                   "command": "tools/replay.py " + os.path.relpath(rp, HERE)}, open(rp, "w"), indent=1)
        ev["coverage"]["violation"] = {"key": key, "detail": f["detail"], "native": o, "build": how}
    json.dump(ev, open(ev_path, "w"), indent=1)
    shutil.rmtree(out, ignore_errors=True)
    for k, w in hits.items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, w, k))
    if viol:
        print("found by %s %s: %s %s; native %s: %s" % (j.entry, j.args, f["kind"], f["detail"], how, o))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    inc = [j for j in done if j.res["timeout"]]
    for j in inc:
        print("note: %s %s stopped by its time limit after %d paths" % (j.entry, j.args, j.res["paths"]))
    if trouble:
        for t in trouble[:8]:
            print("NO ANSWER property=%s: %s" % (prop, t))
        return 2
    print("held: property=%s %d paths, %d assertions, %d solver queries (%.1f s), %d paths replayed natively, %.0f s"
          % (prop, tot("paths"), tot("checks"), tot("queries"), tot("solver_s"), valid, time.time() - T0))
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

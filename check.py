#!/usr/bin/env python3
"""Decides one property by symbolic execution of the code in /repo.

usage: check.py PROPERTY [quick|thorough]

For every harness of the property: compile the harness crate together with /repo's current
sources to LLVM IR, execute the IR symbolically (symex: own engine, z3 decides every branch
and assertion), require that the whole bounded input space was covered, validate sampled
paths against a native build of the same sources, and replay every counterexample natively
before it is reported.  Exit 0: held.  Exit 1 + VIOLATION line.  Anything else: no verdict.
"""
import concurrent.futures as cf
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS, CRATES  # noqa: E402

WORK = os.environ.get("VERIF_WORK") or os.path.join(V, "work")
REPO = "/repo"
PROCS = int(os.environ.get("VERIF_PROCS") or min(8, os.cpu_count() or 8))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


class NoVerdict(Exception):
    pass


def run(cmd, **kw):
    kw.setdefault("env", ENV)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def cargo(args, cwd, target, env=None, timeout=800):
    e = dict(ENV, CARGO_TARGET_DIR=target)
    e.update(env or {})
    r = run(["cargo"] + args, cwd=cwd, env=e, timeout=timeout)
    if r.returncode != 0:
        raise NoVerdict("build failed: cargo %s in %s\n%s" % (" ".join(args), cwd, r.stderr[-3000:]))
    return r


def crate_src(c):
    """A scratch copy of the harness crate's manifest is not needed: cargo writes Cargo.lock
    next to it, which is committed and does not change offline."""
    return os.path.join(V, "harness", c)


def build_engine():
    t = os.path.join(WORK, "t-symex")
    cargo(["build", "--release", "--offline", "--locked"], os.path.join(V, "symex"), t)
    return os.path.join(t, "release", "symex")


def build_ir(c):
    t = os.path.join(WORK, "t-" + c)
    deps = os.path.join(t, "release", "deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith("h_" + c) and f.endswith(".ll"):
                os.unlink(os.path.join(deps, f))
        # force the final crate to be re-emitted
        for f in os.listdir(os.path.join(t, "release", ".fingerprint")):
            if f.startswith("h_" + c):
                shutil.rmtree(os.path.join(t, "release", ".fingerprint", f))
    cargo(["rustc", "--release", "--offline", "--locked", "--lib", "--crate-type", "staticlib", "--",
           "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], crate_src(c), t)
    ll = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("h_" + c) and f.endswith(".ll")]
    if len(ll) != 1:
        raise NoVerdict("expected one .ll for %s, found %r" % (c, ll))
    return ll[0]


def build_native(c, profile):
    t = os.path.join(WORK, "n-" + c)
    a = ["build", "--offline", "--locked", "--bin", "native", "--features", "native"]
    if profile == "dev":
        cargo(a, crate_src(c), t)
        return [os.path.join(t, "debug", "native")]
    if profile == "fast":
        cargo(a + ["--profile", "fast"], crate_src(c), t)
        return [os.path.join(t, "fast", "native")]
    if profile == "asan":
        cargo(a + ["--target", "x86_64-unknown-linux-gnu"], crate_src(c), t + "-asan",
              env={"RUSTUP_TOOLCHAIN": "nightly", "RUSTFLAGS": "-Zsanitizer=address"})
        return [os.path.join(t + "-asan", "x86_64-unknown-linux-gnu", "debug", "native")]
    if profile == "miri":
        return ["cargo", "miri", "run", "--offline", "--locked", "-q", "--bin", "native", "--features", "native"]
    raise ValueError(profile)


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Native:
    """Runs harnesses natively; one batch per call."""

    def __init__(self, crate):
        self.crate = crate
        self.bins = {}
        self.lock = threading.Lock()

    def bin(self, profile):
        with self.lock:
            if profile not in self.bins:
                self.bins[profile] = build_native(self.crate, profile)
            return self.bins[profile]

    def batch(self, profile, lines, timeout=60):
        """-> list of (status, dict|None); status in ok/crash/timeout"""
        cmd = self.bin(profile)
        e = dict(ENV)
        cwd = None
        if profile == "miri":
            e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=os.path.join(WORK, "m-" + self.crate),
                     MIRIFLAGS="-Zmiri-disable-isolation")
            cwd = crate_src(self.crate)
        res = []
        todo = list(lines)
        while todo:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                 errors="replace", env=e, cwd=cwd, start_new_session=True,
                                 preexec_fn=limit_memory if profile in ("dev", "fast") else None)
            to = False
            try:
                o, err = p.communicate("\n".join(todo) + "\n", timeout=timeout)
            except subprocess.TimeoutExpired:
                to = True
                os.killpg(p.pid, 9)
                o, err = p.communicate()
            started = 0
            got = []
            for l in o.splitlines():
                if l.startswith("START "):
                    started += 1
                elif l.startswith("RESULT "):
                    got.append(json.loads(l[7:]))
            for g in got:
                res.append(("ok", g))
            if len(got) == len(todo):
                break
            if started == 0 and not to:
                raise NoVerdict("native runner (%s) did not start: %s" % (profile, err[-1500:]))
            # the run after the last result crashed or hung
            tail = err.strip()[-1200:]
            res.append(("timeout" if to else "crash", {"rc": p.returncode, "stderr": tail}))
            todo = todo[len(got) + 1:]
        return res


LIVE = set()
LIVE_LOCK = threading.Lock()


def stop_all():
    """Ends the engines that still run, and starts no more."""
    global LIVE
    with LIVE_LOCK:
        live, LIVE = LIVE or set(), None
    for p in live:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass


def run_harness(symex, ll, h, out, secs, conf):
    cmd = [symex, "--ll", ll, "--harness", h, "--out", out, "--secs", str(secs), "--procs", str(conf.get("procs", PROCS)),
           "--samples", str(conf.get("samples", 60)), "--max-viol", "6"]
    if conf.get("grace"):
        cmd += ["--grace", "20"]
    if "max_steps" in conf:
        cmd += ["--max-steps", str(conf["max_steps"])]
    with LIVE_LOCK:
        if LIVE is None:
            return {"harness": h, "fatal": "stopped"}, [], {}
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        LIVE.add(p)
    try:
        o, e = p.communicate(timeout=secs + 40)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return {"harness": h, "fatal": "engine did not stop"}, [], {}
    finally:
        with LIVE_LOCK:
            if LIVE is not None:
                LIVE.discard(p)
    try:
        summ = json.loads(o.strip().splitlines()[-1])
    except Exception:
        return {"harness": h, "fatal": "engine failed: " + (e or o)[-500:]}, [], {}
    recs = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    cov = {}
    if os.path.exists(out + ".cover"):
        for l in open(out + ".cover", errors="replace"):
            try:
                m = json.loads(l)["msg"]
                cov[m] = cov.get(m, 0) + 1
            except ValueError:
                pass
    return summ, recs, cov


MEM = ("out-of-bounds", "out of bounds", "freed", "misaligned", "dangling", "invalid", "unreachable", "uninit", "undefined", "null")


def replay(nat, rec):
    """Reproduces a counterexample on the real code; returns a description or None."""
    line = " ".join([rec["h"]] + [str(x) for x in rec["inputs"]])
    tries = ["dev", "fast"]
    if any(w in rec["msg"].lower() for w in MEM):
        tries += ["miri", "asan"]
    for prof in tries:
        try:
            (st, d), = nat.batch(prof, [line], timeout=20 if prof in ("dev", "fast") else 240)
        except NoVerdict as e:
            log("replay with %s impossible: %s" % (prof, str(e)[:300]))
            continue
        if st == "timeout":
            if prof in ("dev", "fast"):
                return prof, "does not terminate within 20 s"
            continue
        if st == "crash":
            if prof == "miri" and "unsupported operation" in d["stderr"]:
                log("miri: " + d["stderr"][-300:])
                continue
            return prof, "crash (rc %s): %s" % (d["rc"], d["stderr"][-700:])
        if d["kind"] == "violation":
            return prof, d["msg"]
    return None


def demangle(names):
    try:
        r = subprocess.run(["c++filt", "-s", "rust"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        d = r.stdout.splitlines()
    except OSError:
        d = names
    d = [re.sub(r"\[[0-9a-f]{8,}\]", "", x) for x in d]
    keep = re.compile(r"(gearley|bocage|cartesian|perf_hint|binary_heap|vec2d)")
    return sorted(set(x for x in d if keep.search(x)))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    rng = random.Random(seed)
    P = PROPS[pid]
    hs = [h for h in P["harnesses"] if tier == "thorough" or h.get("tier", "quick") == "quick"]
    budget = 840 if tier == "quick" else P.get("thorough_secs", 3300)
    if os.environ.get("VERIF_BUDGET"):
        budget = int(os.environ["VERIF_BUDGET"])
    os.makedirs(WORK, exist_ok=True)
    out_dir = os.path.join(WORK, "out-" + pid)
    shutil.rmtree(out_dir, ignore_errors=True)
    os.makedirs(out_dir)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev_path = os.path.join(V, "evidence", pid + ".json")
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    crates = sorted(set(h["crate"] for h in hs))
    known = []
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k["property"] == pid and k.get("status") == "known"]

    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(build_engine)
        nats = {c: Native(c) for c in crates}
        fl = {c: ex.submit(build_ir, c) for c in crates}
        fn = {c: ex.submit(nats[c].bin, "dev") for c in crates}
        symex = fe.result()
        lls = {c: f.result() for c, f in fl.items()}
        for f in fn.values():
            f.result()
    log("built engine, IR and native replay for", ", ".join(crates))

    tot = dict.fromkeys(["paths_ok", "paths_panic_ok", "paths_assume", "forks", "q_sat", "q_unsat", "q_unknown", "q_domain", "solver_ms", "instrs",
                         "asserts_concrete", "asserts_solver", "sym_vars"], 0)
    funcs = set()
    per = []
    samples = []
    validated = 0
    violations = []
    known_hit = []
    problems = []

    def job(h):
        left = budget - (time.time() - T0)
        if left < 15:
            return {"fatal": "no time left"}, [], {}
        secs = int(min(h.get("secs", 400 if tier == "quick" else 3000), left - 10))
        return run_harness(symex, lls[h["crate"]], h["name"], os.path.join(out_dir, h["name"] + ".jsonl"), secs, dict(h, grace=not known))

    # Two at a time: some have few paths.
    pool = cf.ThreadPoolExecutor(2)
    for h, fut in [(h, pool.submit(job, h)) for h in hs]:
        name = h["name"]
        summ, recs, cov = fut.result()
        if "fatal" in summ:
            problems.append("%s: %s" % (name, summ["fatal"]))
            continue
        for k in tot:
            tot[k] += summ[k]
        funcs.update(summ["funcs"])
        paths = summ["paths_ok"] + summ["paths_panic_ok"]
        log("%s: %d paths, %d solver queries (%.1fs), %d asserts, %d violations, covers %s" % (
            name, paths, summ["q_sat"] + summ["q_unsat"], summ["solver_ms"] / 1000, summ["asserts_concrete"] + summ["asserts_solver"],
            summ["violations"], cov))
        per.append({"harness": name, "paths": paths, "queries": summ["q_sat"] + summ["q_unsat"], "solver_s": summ["solver_ms"] / 1000,
                    "instructions": summ["instrs"], "longest_path": summ["max_steps"], "covers": cov, "bounds": h.get("bounds", ""),
                    "wall_s": summ["wall_ms"] / 1000})
        nat = nats[h["crate"]]
        # counterexamples
        # (a path that allocates without end is one if the native run comes to no end either)
        viols = [r for r in recs if r["kind"] == "violation" or (r["kind"] == "incomplete" and "heap limit" in r["msg"])]
        fresh = []
        for r in viols:
            k = next((k for k in known if k["harness"] == name and re.search(k["msg"], r["msg"]) and
                      ("inputs" not in k or k["inputs"] == r["inputs"])), None)
            if k:
                known_hit.append((k, r))
            else:
                fresh.append(r)
        hit = False
        for r in fresh:
            got = replay(nat, r)
            if got is None:
                problems.append("%s: counterexample %r (%s) does not reproduce natively" % (name, r["inputs"], r["msg"]))
                continue
            prof, what = got
            rp = os.path.join(out_dir, "violation-%s.json" % name)
            with open(rp, "w") as f:
                json.dump({"property": pid, "harness": name, "crate": h["crate"], "inputs": r["inputs"], "engine": r["msg"],
                           "native": what, "profile": prof, "stack": demangle(r["stack"]) or r["stack"],
                           "replay": "cd /verif && python3 replay.py %s" % rp}, f, indent=1)
            violations.append(rp)
            log("VIOLATED %s: %s | native (%s): %s | inputs %s" % (name, r["msg"], prof, what, r["inputs"]))
            hit = True
            break
        # validation of sampled paths
        oks = [r for r in recs if r["kind"] in ("ok", "panic_ok")]
        rng.shuffle(oks)
        oks = oks[: h.get("validate", 40)]
        if oks and not hit:
            lines = [" ".join([r["h"]] + [str(x) for x in r["inputs"]]) for r in oks]
            for r, (st, d) in zip(oks, nat.batch("dev", lines, timeout=60)):
                if st != "ok" or d["kind"] != r["kind"] or d["outs"] != r["outs"]:
                    problems.append("%s: engine and native run disagree on %r: %r vs %r %r" % (name, r["inputs"], (r["kind"], r["outs"]), st, d))
                    break
                validated += 1
            if samples is not None and len(samples) < 12:
                for r in oks[:2]:
                    samples.append({"harness": name, "inputs": r["inputs"], "outs": r["outs"][:16], "result": r["kind"]})
        if hit:
            stop_all()
            break
        errs = [r for r in recs if r["kind"] in ("error", "incomplete")]
        if summ["errors"] or summ["incomplete"] or summ["timeout"] or summ["lost"] or errs:
            problems.append("%s: not exhausted (errors %d, incomplete %d, timeout %d, lost %d) %s" % (
                name, summ["errors"], summ["incomplete"], summ["timeout"], summ["lost"], (errs[0]["msg"] if errs else "")))
        for c in h.get("covers", []):
            if not cov.get(c):
                problems.append("%s: reachability witness %r was not reached" % (name, c))
        if not h.get("covers") and paths == 0:
            problems.append("%s: no path" % name)
    pool.shutdown(cancel_futures=True)
    for k, r in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]), flush=True)

    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
        "coverage": {
            "states": tot["paths_ok"] + tot["paths_panic_ok"] + tot["paths_assume"],
            "transitions": tot["forks"],
            "traces_validated_against_impl": validated,
            "samples": samples,
            "exhaustive": not problems and not violations,
            "explanation": "states: symbolic paths decided; transitions: solver-feasible branch splits; each path stands for every input "
                           "satisfying its path condition",
            "instructions_executed": tot["instrs"],
            "solver_queries": {"sat": tot["q_sat"], "unsat": tot["q_unsat"], "unknown": tot["q_unknown"]}, "branches_decided_by_the_path_condition_on_one_variable": tot["q_domain"],
            "solver_s": tot["solver_ms"] / 1000,
            "symbolic_variables": tot["sym_vars"],
            "assertions": {"decided_by_solver": tot["asserts_solver"], "folded_to_constants_on_path": tot["asserts_concrete"]},
            "functions_encoded": demangle(sorted(funcs)),
            "harnesses": per,
            "bounds": P["bounds"],
        },
        "assumptions": P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": len(violations),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    if violations:
        for v in violations:
            print("VIOLATION property=%s replay=%s" % (pid, v), flush=True)
        sys.exit(1)
    if problems:
        for p in problems:
            print("NO-VERDICT", p, flush=True)
        sys.exit(2)
    log("held: %d paths, %d queries" % (tot["paths_ok"] + tot["paths_panic_ok"], tot["q_sat"] + tot["q_unsat"]))


if __name__ == "__main__":
    try:
        main()
    except NoVerdict as e:
        print("NO-VERDICT", e, flush=True)
        sys.exit(2)

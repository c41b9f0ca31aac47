"""
check PROP --tier quick|thorough   explore; 0 held, 1 VIOLATION, other = no answer
replay FILE                        re-execute a replay file (1 = reproduced)
run PROP SCENARIO INDEX            one seeded run, verbose
digest FILE                        run digests of listed seeds (determinism proof)
"""

import argparse
import gc
import importlib
import json
import os
import resource
import select
import signal
import subprocess
import sys
import tempfile
import time

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.path.join(VERIF, ".replays")
KNOWN = os.path.join(VERIF, "known_findings.json")
REPO = os.environ.get("VERIF_REPO", "/repo")


Scenario = core.Scenario


def load(prop):
    return importlib.import_module("sim.checks." + prop.lower())


def scenario_of(mod, name):
    for s in mod.SCENARIOS:
        if s.name == name:
            return s
    raise SystemExit(f"no scenario {name}")


def seed_for(base, prop, scen, idx):
    return core.derive("pt3d-dst", base, prop, scen, idx)


def known_for(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("known", []) if k["property"] == prop]


# --------------------------------------------------------------- worker pool
def _worker(mod, jobs, wfd, base, deadline):
    """Runs in a forked child: jobs is a list of (scenario, idx)."""
    out = os.fdopen(wfd, "w", buffering=1)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    for name, idx in jobs:
        if time.monotonic() > deadline:
            break
        s = scenario_of(mod, name)
        out.write(json.dumps({"start": [name, idx]}) + "\n")
        seed = seed_for(base, mod.PROPERTY, name, idx)
        _, info = core.run_once(s.fn, seed=seed)
        info.pop("trace", None)
        if info["status"] == "ok":
            info["decisions"] = len(info["decisions"])
            info["states"] = info["states"][:64]
        info["job"] = [name, idx]
        out.write(json.dumps(info) + "\n")
    out.write(json.dumps({"done": 1}) + "\n")
    out.flush()
    os._exit(0)


class Pool:
    def __init__(self, mod, jobs, nworkers, base, deadline):
        self.mod, self.base, self.deadline = mod, base, deadline
        self.queue = list(jobs)
        self.results = []
        self.bad = []  # hangs and crashes
        self.w = {}
        self.n = nworkers
        self.stop = False

    def _spawn(self):
        # hand out a slice; small slices keep the tail balanced
        k = max(1, min(40, len(self.queue) // (self.n * 3) or 1))
        jobs, self.queue = self.queue[:k], self.queue[k:]
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _worker(self.mod, jobs, w, self.base, self.deadline)
            except BaseException:
                import traceback

                traceback.print_exc()
            os._exit(70)
        os.close(w)
        os.set_blocking(r, False)
        self.w[r] = {
            "pid": pid,
            "buf": b"",
            "jobs": jobs,
            "cur": None,
            "t": time.monotonic(),
            "done": False,
            "finished": 0,
        }

    def run(self):
        while (self.queue and not self.stop) or self.w:
            while self.queue and len(self.w) < self.n and not self.stop:
                if time.monotonic() > self.deadline:
                    self.queue = []
                    break
                self._spawn()
            if not self.w:
                break
            rl, _, _ = select.select(list(self.w), [], [], 0.5)
            for r in rl:
                st = self.w[r]
                try:
                    data = os.read(r, 1 << 20)
                except BlockingIOError:
                    continue
                if not data:
                    self._end(r)
                    continue
                st["buf"] += data
                *lines, st["buf"] = st["buf"].split(b"\n")
                for line in lines:
                    m = json.loads(line)
                    if "start" in m:
                        st["cur"], st["t"] = m["start"], time.monotonic()
                    elif "done" in m:
                        st["done"] = True
                    else:
                        st["cur"] = None
                        st["finished"] += 1
                        self.results.append(m)
                        if m["status"] in ("violation", "error"):
                            self.bad.append(m)
                            if not self._is_known(m):
                                self.stop = True
            now = time.monotonic()
            for r, st in list(self.w.items()):
                if st["cur"]:
                    lim = scenario_of(self.mod, st["cur"][0]).max_wall
                    if now - st["t"] > lim:
                        os.kill(st["pid"], signal.SIGKILL)
                        st["hang"] = True
                        self._end(r)
            if now > self.deadline:
                self.queue = []  # the workers finish the run they are in
            if self.stop and self.w:
                self.queue = []
                # a verdict is known: the other runs are dropped
                for r, st in list(self.w.items()):
                    os.kill(st["pid"], signal.SIGKILL)
                    st["dropped"] = True
                    self._end(r)
        return self

    def _is_known(self, m):
        if m["status"] != "violation":
            return False
        return any(match_known(k, m) for k in known_for(self.mod.PROPERTY))

    def _end(self, r):
        st = self.w.pop(r)
        os.close(r)
        _, status = os.waitpid(st["pid"], 0)
        if st.get("dropped"):
            return
        if not st["done"]:
            kind = "hang" if st.get("hang") else "crash"
            job = st["cur"]
            if job is None:
                self.bad.append(
                    {
                        "status": "error",
                        "code": "worker-died",
                        "message": f"status {status}",
                        "job": ["?", -1],
                        "decisions": [],
                    }
                )
                self.stop = True
                return
            s = scenario_of(self.mod, job[0])
            viol = s.hang_is_violation if kind == "hang" else s.crash_is_violation
            self.bad.append(
                {
                    "status": "violation" if viol else "error",
                    "code": kind,
                    "message": f"{kind} (wait status {status}) in run {job}",
                    "job": job,
                    "decisions": None,
                }
            )
            self.stop = True
            rest = st["jobs"][st["finished"] + 1 :]
            self.queue = rest + self.queue


def match_known(k, m):
    return k["scenario"] == m["job"][0] and k["code"] == m["code"]


# --------------------------------------------------------------- minimise etc.
def _in_child(fn, timeout):
    """Run fn() in a forked child; (ok, value)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            v = json.dumps(fn())
        except BaseException:
            import traceback

            traceback.print_exc()
            os._exit(71)
        with os.fdopen(w, "w") as f:
            f.write(v)
        os._exit(0)
    os.close(w)
    buf = b""
    t_end = time.monotonic() + timeout
    ok = True
    while True:
        left = t_end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            ok = False
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not ok:
        return "hang", None
    if st != 0:
        return "crash", st
    return "ok", json.loads(buf)


def report_violation(mod, m, base, args):
    os.makedirs(REPLAYS, exist_ok=True)
    name, idx = m["job"]
    s = scenario_of(mod, name)
    path = os.path.join(REPLAYS, f"{mod.PROPERTY}-{name}-{base}-{idx}.json")
    rec = {
        "property": mod.PROPERTY,
        "scenario": name,
        "base_seed": base,
        "index": idx,
        "seed": seed_for(base, mod.PROPERTY, name, idx),
        "code": m["code"],
        "message": m["message"],
        "decisions": m["decisions"],
        "minimised": None,
    }
    if m["decisions"] is not None:
        st, res = _in_child(
            lambda: core.minimise(
                s.fn, m["decisions"], m["code"], budget_s=args.min_budget
            ),
            args.min_budget + s.max_wall + 30,
        )
        if st == "ok":
            rec["minimised"], rec["minimise_runs"] = res
            rec["trace"] = None

            def traced():
                _, info = core.run_once(s.fn, replay=rec["minimised"], verbose=True)
                return {
                    k: info[k] for k in ("trace", "digest", "message", "faults", "code")
                }

            st, t = _in_child(traced, s.max_wall + 30)
            if st == "ok" and t["code"] == m["code"]:
                rec["trace"] = t["trace"]
                rec["digest"] = t["digest"]
                rec["message"] = t["message"]
                rec["faults"] = t["faults"]
            else:
                rec["minimised"] = None
    with open(path, "w") as f:
        f.write(core.dumps(rec))
    # prove the replay file reproduces, in a fresh process
    p = subprocess.run(
        [os.path.join(VERIF, "run.sh"), "replay", path],
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        timeout=s.max_wall * 2 + 300,
    )
    return path, p.returncode == 1, p.stdout.decode(errors="replace"), rec


# --------------------------------------------------------------- commands
def cmd_check(args):
    t0 = time.monotonic()
    base = int(os.environ.get("VERIF_SEED", "1")) if args.seed is None else args.seed
    mod = load(args.prop)
    prep = mod.prepare(args.tier) if hasattr(mod, "prepare") else None
    if isinstance(prep, dict) and prep.get("violation"):
        m = prep["violation"]
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{mod.PROPERTY}-prepare.json")
        with open(path, "w") as f:
            f.write(core.dumps({"property": mod.PROPERTY, "prepare": m}))
        print(f"VIOLATION property={mod.PROPERTY} replay={path}\n  {m}")
        return 1
    gc.collect()
    gc.freeze()
    tier = args.tier
    jobs = []
    for s in mod.SCENARIOS:
        if args.only and s.name not in args.only.split(","):
            continue
        n = s.quick if tier == "quick" else s.thorough
        if args.scale:
            n = max(1, int(n * args.scale))
        jobs += [((i + 0.5) / n, s.name, i) for i in range(n)]
    jobs.sort()
    jobs = [(b, c) for _, b, c in jobs]
    limit = args.time or (420 if tier == "quick" else 3 * 3600)
    pool = Pool(mod, jobs, args.workers, base, time.monotonic() + limit).run()
    explore_wall = time.monotonic() - t0

    known = known_for(mod.PROPERTY)
    hit_known = {}
    new = []
    errors = []
    for m in pool.bad:
        if m["status"] == "error":
            errors.append(m)
            continue
        k = next((k for k in known if match_known(k, m)), None)
        if k is not None:
            hit_known.setdefault(k["id"], (k, m))
        else:
            new.append(m)
    for k, m in hit_known.values():
        print(
            f"KNOWN-FINDING: property={mod.PROPERTY} {k['id']}: {k['what_fails']}",
            flush=True,
        )

    rc = 0
    reported = []
    if new:
        m = min(new, key=lambda x: (x["job"][0], x["job"][1]))
        path, reproduced, out, rec = report_violation(mod, m, base, args)
        print(f"VIOLATION property={mod.PROPERTY} replay={path}")
        print(f"  scenario={m['job'][0]} seed={rec['seed']} code={rec['code']}")
        print("  " + str(rec["message"])[:2000].replace("\n", "\n  "))
        print(f"  replay reproduces in a fresh process: {reproduced}")
        reported.append({"replay": path, "code": m["code"], "reproduced": reproduced})
        rc = 1
    elif not errors and any(
        not any(r["job"][0] == n for r in pool.results) for n in {j[0] for j in jobs}
    ):
        print("HARNESS ERROR: no run of some scenario completed in time")
        rc = 3
    elif errors:
        e = errors[0]
        print(f"HARNESS ERROR in {e['job']}: {e['code']}\n{e['message']}")
        rc = 3

    # determinism: the same seeds in a fresh process with another hash seed
    determinism = None
    if rc == 0 and not args.no_determinism:
        determinism = determinism_check(mod, pool.results, base, args)
        if determinism["mismatches"]:
            rc = judge_mismatch(mod, determinism, base, reported)

    write_evidence(mod, pool, base, tier, t0, explore_wall, rc, reported, hit_known, determinism, jobs)
    if rc == 0:
        print(
            f"OK property={mod.PROPERTY} tier={tier} seed={base} runs={len(pool.results)} "
            f"wall={time.monotonic() - t0:.1f}s"
        )
    return rc


def fresh_digests(prop, base, jobs, hashseed):
    """Digests of the given runs in a fresh process, or an error text."""
    fd, path = tempfile.mkstemp(prefix="dst-digest-")
    with os.fdopen(fd, "w") as f:
        json.dump({"prop": prop, "base": base, "jobs": jobs}, f)
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    try:
        p = subprocess.run(
            [os.path.join(VERIF, "run.sh"), "digest", path],
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE,
            env=env,
            timeout=400,
        )
    finally:
        os.unlink(path)
    if p.returncode != 0:
        return "digest process failed: " + p.stderr.decode()[-2000:]
    return json.loads(p.stdout.decode().splitlines()[-1])


def determinism_check(mod, results, base, args):
    quick = args.tier == "quick"
    per, more, wall = (3, 20, 4.0) if quick else (12, 100, 60.0)
    sample = []
    for s in mod.SCENARIOS:
        rs = [r for r in results if r["job"][0] == s.name and r["status"] == "ok"]
        # runs which ask for it, then those with most faults
        rs.sort(key=lambda r: (-min(1, r["counters"].get("process_sensitive", 0)), -sum(r["faults"].values()), r["wall"]))
        if rs and rs[0]["counters"].get("process_sensitive"):
            sample += rs[per : per + 9]
        sample += rs[:per]
        left = wall / len(mod.SCENARIOS)
        for r in sorted(rs[per:], key=lambda r: r["job"][1])[:more]:
            left -= r["wall"]
            if left < 0:
                break
            sample.append(r)
    if not sample:
        return {"runs": 0, "mismatches": []}
    got = fresh_digests(mod.PROPERTY, base, [r["job"] for r in sample], "4242")
    if isinstance(got, str):
        return {"runs": len(sample), "mismatches": [got]}
    mism = [
        [r["job"], r["digest"], g]
        for r, g in zip(sample, got)
        if r["digest"] != g
    ]
    return {"runs": len(sample), "mismatches": mism, "pythonhashseed": "4242"}


def judge_mismatch(mod, determinism, base, reported):
    """
    The same decisions led to different executions in two processes. If it does so again, and
    only the hash seed of the process differs, results depend on the process they are computed
    in: a violation. Otherwise it is an error of the harness.
    """
    jobs = [m[0] for m in determinism["mismatches"] if not isinstance(m, str)][:3]
    if jobs:
        x = [fresh_digests(mod.PROPERTY, base, jobs, h) for h in ("0", "4242", "0")]
        if not any(isinstance(y, str) for y in x) and x[0] == x[2] and x[0] != x[1]:
            k = next(i for i in range(len(jobs)) if x[0][i] != x[1][i])
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, f"{mod.PROPERTY}-{jobs[k][0]}-{base}-{jobs[k][1]}-process.json")
            rec = {
                "property": mod.PROPERTY,
                "code": "depends-on-the-process",
                "base_seed": base,
                "process": jobs[k],
                "seed": seed_for(base, mod.PROPERTY, *jobs[k]),
                "digests": [x[0][k], x[1][k]],
            }
            with open(path, "w") as f:
                f.write(core.dumps(rec))
            print(f"VIOLATION property={mod.PROPERTY} replay={path}")
            print(f"  scenario={jobs[k][0]} seed={rec['seed']} code={rec['code']}")
            print("  the same execution gives different results in processes with different hash seeds")
            reported.append({"replay": path, "code": rec["code"], "reproduced": True})
            return 1
    print("HARNESS ERROR: nondeterministic runs", determinism["mismatches"])
    return 3


def write_evidence(mod, pool, base, tier, t0, explore_wall, rc, reported, hit_known, determinism, jobs):
    os.makedirs(EVIDENCE, exist_ok=True)
    res = pool.results
    faults, offered, counters, states = {}, {}, {}, set()
    per = {}
    sim_time = 0.0
    digests = set()
    nontriv = set()
    for r in res:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["offered"].items():
            offered[k] = offered.get(k, 0) + v
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        states.update((r["job"][0], x) for x in r["states"])
        sim_time += r["sim_time"]
        digests.add(r["digest"])
        if r["nontrivial"]:
            nontriv.add(r["digest"])
        p = per.setdefault(r["job"][0], {"runs": 0, "events": 0, "with_faults": 0, "wall_s": 0.0})
        p["runs"] += 1
        p["events"] += r["events"]
        p["with_faults"] += bool(r["faults"])
        p["wall_s"] = round(p["wall_s"] + r["wall"], 3)
    wall = time.monotonic() - t0
    samples = []
    for s in mod.SCENARIOS:
        rs = [r for r in res if r["job"][0] == s.name][:3]
        for r in rs:
            samples.append(
                f"{r['job'][0]}#{r['job'][1]} seed={seed_for(base, mod.PROPERTY, *r['job'])} "
                f"status={r['status']} events={r['events']} faults={r['faults']} digest={r['digest']}"
            )
    meta = mod.META
    ev = {
        "property": mod.PROPERTY,
        "tier": tier,
        "seed": base,
        "level": meta.get("level", "exploration"),
        "coverage": {
            "evaluations": len(res),
            "distinct_nontrivial": len(nontriv),
            "rule": meta["rule"],
            "samples": samples[:20],
            "runs_planned": len(jobs),
            "runs_per_scenario": per,
            "distinct_executions": len(digests),
            "distinct_states": len(states),
            "state_measure": meta["state_measure"],
            "faults_fired": faults,
            "faults_armed": offered,
            "counters": counters,
            "simulated_seconds": round(sim_time, 3),
            "runs_per_hour": round(len(res) / max(explore_wall, 1e-9) * 3600),
            "seeds_per_hour": round(len(res) / max(explore_wall, 1e-9) * 3600),
            "components_real": meta["real"],
            "components_stubbed": meta["stub"],
            "determinism": determinism,
            "known_findings_hit": sorted(hit_known),
        },
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    if reported:
        ev["coverage"]["reported"] = reported
    with open(os.path.join(EVIDENCE, mod.PROPERTY + ".json"), "w") as f:
        f.write(core.dumps(ev))


def cmd_replay(args):
    with open(args.file) as f:
        rec = json.load(f)
    mod = load(rec["property"])
    if "prepare" in rec:
        prep = mod.prepare("quick")
        bad = isinstance(prep, dict) and prep.get("violation")
        print(f"VIOLATION property={mod.PROPERTY} replay={args.file}" if bad else "not reproduced")
        return 1 if bad else 0
    if "process" in rec:
        x = [fresh_digests(mod.PROPERTY, rec["base_seed"], [rec["process"]], h) for h in ("0", "4242")]
        bad = x[0] != x[1] and not any(isinstance(y, str) for y in x)
        print("digests in two processes:", x)
        print(f"VIOLATION property={mod.PROPERTY} replay={args.file}" if bad else "not reproduced")
        return 1 if bad else 0
    if hasattr(mod, "prepare"):
        mod.prepare("quick")
    s = scenario_of(mod, rec["scenario"])
    dec = rec["minimised"] if rec["minimised"] is not None else rec["decisions"]

    def go():
        kw = {"seed": rec["seed"]} if dec is None else {"replay": dec}
        _, info = core.run_once(s.fn, verbose=True, **kw)
        return info

    st, info = _in_child(go, s.max_wall + 30)
    if st != "ok":
        print(f"run ended with {st}")
        same = st == rec["code"]
    else:
        for line in info["trace"][-60:]:
            print("   ", line)
        print("status:", info["status"], info["code"], str(info["message"])[:3000])
        same = info["status"] == "violation" and info["code"] == rec["code"]
        if same and rec.get("digest") and rec["minimised"] is not None:
            print("identical trace:", rec["digest"] == info["digest"])
    if same:
        print(f"VIOLATION property={mod.PROPERTY} replay={args.file}")
        return 1
    print("not reproduced")
    return 0


def cmd_run(args):
    base = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(args.prop)
    if hasattr(mod, "prepare"):
        mod.prepare("quick")
    s = scenario_of(mod, args.scenario)
    st, info = core.run_once(
        s.fn, seed=seed_for(base, mod.PROPERTY, s.name, args.index), verbose=True
    )
    for line in info["trace"]:
        print("   ", line)
    print({k: v for k, v in info.items() if k not in ("trace", "decisions", "states", "message")})
    print(info["message"])
    return 0


def cmd_digest(args):
    with open(args.file) as f:
        rec = json.load(f)
    mod = load(rec["prop"])
    if hasattr(mod, "prepare"):
        mod.prepare("quick")
    out = []
    # reversed order: a run must not depend on what ran before it
    for name, idx in reversed(rec["jobs"]):
        s = scenario_of(mod, name)

        def go(s=s, name=name, idx=idx):
            seed = seed_for(rec["base"], mod.PROPERTY, name, idx)
            _, info = core.run_once(s.fn, seed=seed)
            return info["digest"]

        st, v = _in_child(go, s.max_wall + 30)
        out.append(v if st == "ok" else st)
    print(json.dumps(out[::-1]))
    return 0


def cmd_setup(args):
    """Check the toolchain the checks need; every check builds its own seams."""
    from . import native_build, registry

    for n in sorted({n for v in registry.PRELOAD.values() for n in v}):
        print("built", native_build.preload_lib(n))
    return 0


def ensure_preload(prop):
    """Re-execute under the native seams of this check."""
    from . import native_build, registry

    libs = [native_build.preload_lib(n) for n in registry.PRELOAD.get(prop, [])]
    have = os.environ.get("LD_PRELOAD", "").split(":")
    if libs and not all(x in have for x in libs):
        os.environ["LD_PRELOAD"] = ":".join(libs)
        sys.stdout.flush()
        os.execv(sys.executable, [sys.executable, "-W", "ignore", "-m", "sim.cli"] + sys.argv[1:])


def main():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int)
    c.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    c.add_argument("--only")
    c.add_argument("--scale", type=float)
    c.add_argument("--time", type=float)
    c.add_argument("--min-budget", type=float, default=60.0)
    c.add_argument("--no-determinism", action="store_true")
    r = sub.add_parser("replay")
    r.add_argument("file")
    g = sub.add_parser("digest")
    g.add_argument("file")
    u = sub.add_parser("run")
    u.add_argument("prop")
    u.add_argument("scenario")
    u.add_argument("index", type=int)
    sub.add_parser("setup")
    args = ap.parse_args()
    prop = getattr(args, "prop", None)
    if args.cmd == "setup":
        os._exit(cmd_setup(args))
    if prop is None:
        with open(args.file) as f:
            rec = json.load(f)
        prop = rec.get("property") or rec.get("prop")
    ensure_preload(prop.upper())
    rc = {"check": cmd_check, "replay": cmd_replay, "run": cmd_run, "digest": cmd_digest, "setup": cmd_setup}[
        args.cmd
    ](args)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""Orchestrator of one check.

  check.py --prop C01 --tier quick|thorough        run the check (VERIF_SEED / VERIF_TIER are honoured)
  check.py --replay FILE                           re-run one saved reproduction

Builds the driver from /repo's current tree, runs the planned jobs (process count x thread
count x case range), shrinks the first failure of every job, replays it three times and only
then reports it.  Exit 0: held everywhere explored; 1: VIOLATION line printed; 2: no answer."""
import argparse, json, os, shutil, signal, subprocess, sys, tempfile, threading, time, glob

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
from targets import TARGETS
from plan import PLAN

CORES = os.cpu_count() or 8
T0 = time.time()


def base_env(scratch, threads, extra=None):
    e = dict(os.environ)
    e.update({"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
              "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
              "OMPI_MCA_plm": "isolated", "OMPI_MCA_btl": "self,vader", "OMPI_MCA_pml": "ob1",
              "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_mpi_yield_when_idle": "1",
              "OMPI_MCA_orte_tmpdir_base": scratch,
              "OMP_PROC_BIND": "false", "OMP_WAIT_POLICY": "passive", "TMPDIR": scratch,
              "OMP_NUM_THREADS": str(threads), "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
              "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0", "HDF5_USE_FILE_LOCKING": "FALSE"})
    e.pop("KOKKOS_PROFILE_LIBRARY", None)
    if extra:
        e.update(extra)
    return e


class Scratch:
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="dyv.", dir="/tmp")
        self.n = 0
        self.lock = threading.Lock()

    def new(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.root, "%d" % self.n)
        os.mkdir(d)
        return d

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


class Result:
    def __init__(self):
        self.cases = []
        self.ended = False
        self.last_start = None
        self.crash = None      # dict(i, msg, choices or None)
        self.hang = False
        self.rc = None
        self.err = ""
        self.deadline = False


def kill_tree(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def run_driver(sc, exe, prop, np, threads, args, hang_s=60, limit_s=850, env=None):
    """one mpiexec run; args: list of runner arguments"""
    d = sc.new()
    rep = os.path.join(d, "rep")
    cmd = ["mpiexec", "-np", str(np), exe, "--prop", prop, "--report", rep] + [str(a) for a in args]
    r = Result()
    errf = open(os.path.join(d, "err"), "wb")
    p = subprocess.Popen(cmd, cwd=d, env=base_env(d, threads, env), stdout=subprocess.DEVNULL, stderr=errf,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    t0 = time.time()
    size, tprog = -1, time.time()
    while True:
        try:
            p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.25)
            break
        except subprocess.TimeoutExpired:
            pass
        try:
            s = os.path.getsize(rep)
        except OSError:
            s = 0
        if s != size:
            size, tprog = s, time.time()
        if time.time() - tprog > hang_s or time.time() - t0 > limit_s:
            r.hang = time.time() - tprog > hang_s
            kill_tree(p)
            p.wait()
            break
    kill_tree(p)
    errf.close()
    r.rc = p.returncode
    r.err = open(os.path.join(d, "err"), "rb").read()[-3000:].decode(errors="replace")
    if os.path.exists(rep):
        for l in open(rep, errors="replace"):
            try:
                o = json.loads(l)
            except ValueError:
                continue
            if "start" in o:
                r.last_start = o["start"]
            elif "nt" in o:
                r.cases.append(o)
                r.last_start = None
            elif "deadline" in o:
                r.deadline = True
            elif "end" in o:
                r.ended = True
    if not r.ended:
        best = None
        for f in glob.glob(rep + ".crash.*"):
            try:
                o = json.loads(open(f).read())
            except ValueError:
                continue
            rank = 3 if "fail" in o else (1 if o.get("sig") == 15 else 2)
            if best is None or rank > best[0]:
                best = (rank, o)
        if best:
            o = best[1]
            msg = o.get("fail") or ("killed by signal %s" % o.get("sig"))
            if best[0] == 1:
                msg = "run aborted"
            r.crash = {"i": o["i"], "msg": msg, "choices": o["choices"]}
        elif r.last_start is not None:
            r.crash = {"i": r.last_start, "msg": "process ended (exit %s) during the case" % r.rc, "choices": None}
        if r.crash and r.hang:
            r.crash["msg"] = "no progress for %ds" % hang_s
        if r.crash:
            tail = [x for x in r.err.splitlines() if x.strip() and not x.startswith("---") and "mpiexec" not in x]
            r.crash["msg"] += (" | stderr: " + " / ".join(tail[:6])[:600]) if tail else ""
    shutil.rmtree(d, ignore_errors=True)
    return r


class Failure:
    def __init__(self, job, idx, msg, choices):
        self.job, self.idx, self.msg, self.choices = job, idx, msg, choices


def replay_lists(sc, exe, prop, job, lists, tier, hang_s):
    """-> list of (failed, msg, choices_used) for the leading lists that were executed"""
    d = sc.new()
    f = os.path.join(d, "lists")
    with open(f, "w") as o:
        for l in lists:
            o.write(" ".join(map(str, l)) + "\n")
    r = run_driver(sc, exe, prop, job["np"], job["threads"], ["--replay", f, "--tier", tier], hang_s, 300,
                   job.get("env"))
    out = {}
    for c in r.cases:
        out[c["i"]] = ("fail" in c, c.get("fail", ""), c.get("choices"))
    if r.crash:
        out[r.crash["i"]] = (True, r.crash["msg"], r.crash["choices"])
    shutil.rmtree(d, ignore_errors=True)
    return [out[i] for i in range(len(lists)) if i in out and all(j in out for j in range(i))], r


def shrink(sc, exe, prop, fail, tier, budget, hang_s):
    cur = list(fail.choices)
    msg = fail.msg
    t_end = time.time() + budget
    while cur and cur[-1] == 0:
        cur.pop()
    if time.time() > t_end:
        return cur, msg

    def attempt(cands):
        """first failing candidate or None"""
        nonlocal cur, msg
        i = 0
        while i < len(cands) and time.time() < t_end:
            res, r = replay_lists(sc, exe, prop, fail.job, cands[i:i + 64], tier, min(hang_s, 20))
            if not res:
                return False
            for k, (bad, m, ch) in enumerate(res):
                if bad:
                    new = list(ch) if ch is not None else list(cands[i + k])
                    new = new if len(new) <= len(cands[i + k]) else cands[i + k]
                    while new and new[-1] == 0:
                        new.pop()
                    if (len(new), sum(new)) < (len(cur), sum(cur)):
                        cur, msg = new, m
                        return True
            i += len(res)
        return False

    progress = True
    while progress and time.time() < t_end:
        progress = False
        n = len(cur)
        size = n // 2
        while size >= 1 and time.time() < t_end:
            cands = [cur[:i] + cur[i + size:] for i in range(0, len(cur) - size + 1, max(1, size // 2))]
            cands += [cur[:i] + [0] * size + cur[i + size:] for i in range(0, len(cur) - size + 1, max(1, size // 2))
                      if any(cur[i:i + size])]
            if attempt(cands):
                progress = True
                size = min(size, len(cur) // 2)
                if size == 0:
                    break
            else:
                size //= 2
        cands = []
        for i, v in enumerate(cur):
            for w in sorted({0, 1, v // 2, v - 1}):
                if 0 <= w < v:
                    cands.append(cur[:i] + [w] + cur[i + 1:])
        if attempt(cands):
            progress = True
    return cur, msg


def violation(prop, replay):
    print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)


def make_exe(spec, mode="rel"):
    t = TARGETS[spec["driver"]]
    exe, dt = B.build(spec["driver"], t["drivers"], t["folders"], mode, t.get("extra", ()))
    return exe, dt


def do_replay(path):
    rp = json.load(open(path))
    spec = PLAN[rp["property"].split(".")[0]]
    if "cmd_driver" in spec:
        import e2e
        return e2e.replay(rp)
    exe, _ = make_exe({"driver": rp["driver"]}, rp.get("mode", "rel"))
    sc = Scratch()
    try:
        job = {"np": rp["np"], "threads": rp["threads"], "env": rp.get("env")}
        if rp.get("choices") is not None:
            res, r = replay_lists(sc, exe, rp["prop"], job, [rp["choices"]], rp["tier"], 60)
            bad = bool(res) and res[0][0]
            msg = res[0][1] if res else ""
        else:
            r = run_driver(sc, exe, rp["prop"], rp["np"], rp["threads"],
                           ["--seed", rp["seed"], "--first", rp["index"], "--count", 1, "--tier", rp["tier"]], 60)
            bad = bool(r.crash) or any("fail" in c for c in r.cases)
            msg = r.crash["msg"] if r.crash else ""
        print("reproduced: %s\n%s" % (bad, msg))
        if bad:
            violation(rp["property"], path)
        return 1 if bad else 0
    finally:
        sc.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    prop = a.prop
    spec = PLAN[prop]
    tier = 1 if a.tier == "thorough" else 0
    total_limit = spec.get("limit", {}).get(a.tier, 780 if tier == 0 else 3400)
    hang_s = 60 if tier == 0 else 180
    jobs = []
    for k, j in enumerate(spec["thorough" if tier else "quick"]):
        shards = j.get("shards", 1)
        cnt = max(1, int(j["count"] * a.scale))
        for s in range(shards):
            f0 = cnt * s // shards
            f1 = cnt * (s + 1) // shards
            if f1 > f0:
                jobs.append({"prop": j.get("prop", prop), "np": j.get("np", 1), "threads": j.get("threads", 1),
                             "mode": j.get("mode", "rel"), "driver": j.get("driver", spec["driver"]),
                             "first": (k + 1) * 10000000 + f0, "count": f1 - f0,
                             # fresh memory filled with a pattern, so that a value that was never set shows
                             # (not with parallel files on 3+ processes: Open MPI's file layer becomes 10 times slower)
                             "env": {**({} if j["np"] > 2 and j.get("driver", spec["driver"]) in ("drv_io", "drv_run") else
                                        {"MALLOC_PERTURB_": "1" if len(jobs) % 2 else "85"}), **(j.get("env") or {})}})
    build_s = 0.
    exes = {}
    try:
        for j in jobs:
            key = (j["driver"], j["mode"])
            if key not in exes:
                exes[key], dt = make_exe(j, j["mode"])
                build_s += dt
    except B.BuildError as e:
        print("build error: %s" % e, file=sys.stderr)
        return 2
    sc = Scratch()
    try:
        t_run = time.time()
        cond = threading.Condition()
        free = [CORES]
        results = []

        def work(j):
            w = min(CORES, j["np"] * j["threads"])
            with cond:
                while free[0] < w:
                    cond.wait()
                free[0] -= w
            try:
                left = total_limit - (time.time() - T0)
                if left < 5:
                    j["skipped"] = True
                    return
                dl = max(5, left - 150 if tier == 0 else left - 400)
                r = run_driver(sc, exes[(j["driver"], j["mode"])], j["prop"], j["np"], j["threads"],
                               ["--seed", a.seed, "--first", j["first"], "--count", j["count"], "--tier", tier,
                                "--deadline", dl], hang_s, left, j["env"])
                with cond:
                    results.append((j, r))
            finally:
                with cond:
                    free[0] += w
                    cond.notify_all()

        # heavy jobs first
        jobs.sort(key=lambda j: -(j["np"] * j["threads"]))
        ths = [threading.Thread(target=work, args=(j,)) for j in jobs]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        run_s = time.time() - t_run
        results.sort(key=lambda x: (x[0]["first"]))

        evals = nt = checks = 0
        seen, labels, samples, perconf = set(), {}, [], {}
        fails = []
        noanswer = []
        for j, r in results:
            key = "np%d_threads%d%s%s" % (j["np"], j["threads"], "" if j["mode"] == "rel" else "_" + j["mode"],
                                          "" if j["prop"] == prop else "_" + j["prop"])
            pc = perconf.setdefault(key, 0)
            first_fail = None
            for c in r.cases:
                evals += 1
                perconf[key] += 1
                checks += c["checks"]
                for l in c["labels"]:
                    labels[l] = labels.get(l, 0) + 1
                if c["nt"]:
                    sg = (c["sg"], j["np"], j["threads"], j["prop"])
                    if sg not in seen:
                        seen.add(sg)
                        nt += 1
                        if len(samples) < 200:
                            samples.append({"case": c["i"], "np": j["np"], "threads": j["threads"], "what": c["desc"]})
                if "fail" in c and first_fail is None:
                    first_fail = Failure(j, c["i"], c["fail"], c["choices"])
            if r.crash and first_fail is None:
                first_fail = Failure(j, r.crash["i"], r.crash["msg"], r.crash["choices"])
            if first_fail:
                fails.append(first_fail)
            elif not r.ended and not r.deadline:
                noanswer.append((j, r))
        # shrink and confirm
        nviol = 0
        unconfirmed = []
        done_msgs = set()
        fails.sort(key=lambda f: (f.job["np"] * f.job["threads"], f.idx))
        for f in fails:
            if nviol >= 1 and time.time() - T0 > 240:
                break
            if nviol >= 3:
                break
            sig = f.msg.split("|")[0][:60]
            if sig in done_msgs:
                continue
            exe = exes[(f.job["driver"], f.job["mode"])]
            pr = f.job["prop"]
            rp = {"property": prop, "prop": pr, "driver": f.job["driver"], "mode": f.job["mode"], "np": f.job["np"],
                  "threads": f.job["threads"], "tier": tier, "seed": a.seed, "index": f.idx, "env": f.job["env"],
                  "choices": None, "message": f.msg}

            def confirm(ch):
                n, m = 0, ""
                for _ in range(3):
                    if ch is not None:
                        res, r = replay_lists(sc, exe, pr, f.job, [ch], tier, hang_s)
                        bad = bool(res) and res[0][0]
                        m = res[0][1] if res else m
                    else:
                        r = run_driver(sc, exe, pr, f.job["np"], f.job["threads"],
                                       ["--seed", a.seed, "--first", f.idx, "--count", 1, "--tier", tier], hang_s,
                                       300, f.job["env"])
                        bad = bool(r.crash) or any("fail" in c for c in r.cases)
                        m = r.crash["msg"] if r.crash else m
                    n += bad
                    if not bad:
                        break
                return n == 3, m
            ok = False
            if f.choices is not None:
                small, m = shrink(sc, exe, pr, f, tier, 45 if tier == 0 else 120, hang_s)
                ok, m2 = confirm(small)
                if ok:
                    rp["choices"], rp["message"] = small, m2
                else:
                    ok, m2 = confirm(f.choices)
                    if ok:
                        rp["choices"], rp["message"] = f.choices, m2
            if not ok:
                ok, m2 = confirm(None)
                if ok:
                    rp["choices"] = None
            if not ok:
                unconfirmed.append(f)
                continue
            done_msgs.add(sig)
            nviol += 1
            rd = os.path.join(VERIF, "build", "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s_%s_%d.json" % (prop, a.tier, nviol))
            json.dump(rp, open(path, "w"), indent=1)
            print("%s np=%d threads=%d case=%d: %s" % (pr, f.job["np"], f.job["threads"], f.idx, rp["message"][:1500]))
            violation(prop, path)
        # known findings: probes of recorded, unrepaired defects
        known = []
        for kf in spec.get("known", []):
            try:
                exe, dt = make_exe({"driver": kf.get("driver", spec["driver"])})
                r = run_driver(sc, exe, kf["prop"], kf.get("np", 1), kf.get("threads", 1),
                               ["--seed", 1, "--first", 0, "--count", 1, "--tier", 0], hang_s, 120)
                if r.crash or any("fail" in c for c in r.cases):
                    print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]), flush=True)
                    known.append(kf["prop"])
            except B.BuildError:
                pass
        step = max(1, len(samples) // 12)
        ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": nt, "rule": spec["rule"],
                           "samples": samples[::step][:12],
                           "assertions_evaluated": checks, "cases_per_configuration": perconf,
                           "class_counts": dict(sorted(labels.items())),
                           "build_s": round(build_s, 1), "run_s": round(run_s, 1),
                           "known_findings_reproduced": known,
                           "unconfirmed_failures": [f.msg[:300] for f in unconfirmed],
                           "jobs_cut_by_time": sum(1 for j, r in results if r.deadline) + sum(1 for j in jobs if j.get("skipped"))},
              "assumptions": spec.get("assumptions", []),
              "wall_s": round(time.time() - T0, 2), "violations": nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d assertions, build %.0fs run %.0fs total %.0fs, %d violation(s)"
              % (prop, a.tier, a.seed, evals, nt, checks, build_s, run_s, time.time() - T0, nviol))
        if nviol:
            return 1
        if unconfirmed:
            print("%d failure(s) did not reproduce: %s" % (len(unconfirmed), unconfirmed[0].msg[:500]), file=sys.stderr)
        if noanswer or evals == 0:
            print("a job gave no answer: %s" % [(j["np"], r.rc, r.err[-400:]) for j, r in noanswer][:2], file=sys.stderr)
            return 2
        return 0
    finally:
        sc.close()


if __name__ == "__main__":
    sys.exit(main())

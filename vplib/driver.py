"""Runs one check: build, generate cases in shards, shrink and confirm failures, write evidence."""
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import build
from .build import VERIF
from .config import CHECKS

OUT = os.environ.get("VP_OUT", VERIF)  # development: results of runs on altered copies go elsewhere

MPIENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_pml": "ob1",
    "OMPI_MCA_plm_rsh_agent": "/bin/false", "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_orte_abort_on_non_zero_status": "1",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false", "PYTHONDONTWRITEBYTECODE": "1",
}


def default_env(omp=1):
    e = dict(os.environ)
    e.update(MPIENV)
    e["OMP_NUM_THREADS"] = str(omp)
    e["HOME"] = e.get("HOME", "/root")
    e["LC_ALL"] = "C.UTF-8"
    return e


class Slots:
    """Weighted semaphore over the 8 cores."""
    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def take(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


SLOTS = Slots(8)


def weight(job):
    return min(8, max(1, job["np"]) * max(1, min(2, job["omp"])))


BAD = ("fail", "crash", "hang", "late")


class Run:
    def __init__(self, check, tier, seed):
        self.check, self.tier, self.seed = check, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="vp%s." % check)
        self.t0 = time.time()

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def command(self, job, binpath, args):
        if job["bin"].endswith(".py"):
            pre = ["/usr/bin/python3", os.path.join(VERIF, "harness", job["bin"])]
        else:
            pre = [binpath]
        if job["np"]:
            pre = ["mpirun", "--bind-to", "none", "-np", str(job["np"])] + pre
        return pre + args

    def exec(self, job, binpath, outdir, args, timeout, stop=None):
        """Returns (status, text): ok | fail | hang | crash | infra | stopped."""
        os.makedirs(outdir, exist_ok=True)
        env = default_env(job["omp"])
        env["TMPDIR"] = outdir if len(outdir) < 60 else "/tmp"
        env["VP_SO"] = job.get("so", "")
        env["VP_REPO"] = build.REPO
        if job["variant"] != "san":
            env["MALLOC_PERTURB_"] = "165"  # fresh memory is never zero by luck
        w = weight(job)
        SLOTS.take(w)
        stopped = False
        if stop is not None and stop.is_set():
            SLOTS.give(w)
            return "stopped", ""
        log = os.path.join(outdir, "log")
        try:
            with open(log, "wb") as lf:
                p = subprocess.Popen(self.command(job, binpath, ["--out", outdir] + (["--crash-only"] if job.get("crash_only") else []) + args), stdout=lf, stderr=subprocess.STDOUT,
                                     stdin=subprocess.DEVNULL, env=env, cwd=outdir, start_new_session=True)
                rc, end, stopped = None, time.time() + timeout, False
                while time.time() < end:
                    try:
                        rc = p.wait(timeout=0.25)
                        break
                    except subprocess.TimeoutExpired:
                        if stop is not None and stop.is_set():
                            stopped = True
                            p.terminate()
                            try:
                                p.wait(timeout=5)
                            except subprocess.TimeoutExpired:
                                pass
                            break
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        finally:
            SLOTS.give(w)
        text = open(log, "rb").read()[-20000:].decode("utf-8", "replace")
        if stopped:
            return "stopped", ""
        if rc == 0:
            return "ok", text
        if os.path.exists(os.path.join(outdir, "notjudged")):
            return "notjudged", text
        fails = sorted(glob.glob(os.path.join(outdir, "fail.*")))
        if fails:
            return "fail", "".join(open(f, errors="replace").read() for f in fails[:2])
        if os.path.exists(os.path.join(outdir, "hang")) or rc is None:
            return "late" if rc is None else "hang", "a case did not finish within its watchdog time\n" + text[-1500:]
        if rc == 13:
            return "infra", text
        m = re.search(r"(ERROR: AddressSanitizer.*|runtime error:.*|terminate called.*)", text)
        return "crash", "process ended with code %s: %s\n%s" % (rc, m.group(1) if m else "", text[-3000:])

    # ---- replaying and shrinking -------------------------------------------------
    def run_case(self, job, binpath, casetext, watchdog, extra=60):
        d = tempfile.mkdtemp(prefix="c", dir=self.tmp)
        f = os.path.join(d, "in.case")
        open(f, "w").write(casetext)
        st, tx = self.exec(job, binpath, d, ["--case", f, "--watchdog", str(watchdog)], watchdog + extra)
        ch = None
        cf = os.path.join(d, "choices")
        if os.path.exists(cf):
            ch = [int(x) for x in open(cf).read().split()]
        shutil.rmtree(d, ignore_errors=True)
        return st, tx, ch

    @staticmethod
    def casetext(prop, big, choices):
        return "prop %s\n%s%s\n" % (prop, "big\n" if big else "", "\n".join(str(c) for c in choices))

    def shrink(self, job, binpath, prop, big, choices, budget, watchdog):
        t0 = time.time()
        par = max(1, 8 // weight(job))
        best = list(choices)
        tried = set()

        def bad(ch):
            st, tx, used = self.run_case(job, binpath, self.casetext(prop, big, ch), watchdog)
            return st in BAD

        def first_bad(cands):
            cands = [c for c in cands if tuple(c) not in tried]
            for i in range(0, len(cands), par):
                if time.time() - t0 > budget:
                    return None
                grp = cands[i:i + par]
                for c in grp:
                    tried.add(tuple(c))
                with ThreadPoolExecutor(par) as ex:
                    for c, b in zip(grp, list(ex.map(bad, grp))):
                        if b:
                            return c
            return None

        while best and best[-1] == 0:
            best.pop()
        improved = True
        while improved and time.time() - t0 < budget:
            improved = False
            n = len(best)
            size = n
            while size >= 1:
                cands = [best[:i] + best[i + size:] for i in range(0, n, size)]
                cands += [best[:i] + [0] * len(best[i:i + size]) + best[i + size:] for i in range(0, n, size) if any(best[i:i + size])]
                c = first_bad(cands)
                if c is not None:
                    best = c
                    improved = True
                    while best and best[-1] == 0:
                        best.pop()
                    n = len(best)
                    size = min(size, n)
                    continue
                size //= 2
                if time.time() - t0 > budget:
                    break
            for i in range(len(best)):
                while best[i] > 0:
                    v = best[i]
                    c = first_bad([best[:i] + [x] + best[i + 1:] for x in sorted({0, 1, v // 2, v - 1}) if x < v])
                    if c is None:
                        break
                    best = c
                    improved = True
                if time.time() - t0 > budget:
                    break
        return best

    def handle_failure(self, job, binpath, outdir, status, text):
        cur = os.path.join(outdir, "current")
        if not os.path.exists(cur) or not open(cur).read().strip():
            return None, "infrastructure: %s" % text[-2000:]
        seedcase = open(cur).read()
        m = re.search(r"^prop (.*)$", seedcase, re.M)
        prop, big = m.group(1), "\nbig" in "\n" + seedcase
        sys.stderr.write("[%s] candidate failure (%s) in %s/%s: %s\n" % (self.check, status, job["bin"], prop, text[:600]))
        wd = job["watchdog"]
        if status in ("hang", "late"):  # cases take milliseconds: what hangs for this long hangs
            wd = min(wd, 40)
        # reproduce from the seed, collecting the choices
        ch, ok = None, 0
        for attempt in range(6):
            st, tx, c = self.run_case(job, binpath, seedcase, wd)
            if st in BAD:
                ok += 1
                ch, text, status = c, tx, st
                break
        if not ok:
            got = self.history_failure(job, binpath, seedcase, prop, big, wd)
            if got:
                return self.report(job, got[0], got[1], got[2], wd, "3/3")
            return None, "not reproducible in 6 replays (counted as inconclusive): %s" % text[:1500]
        det = self.run_case(job, binpath, self.casetext(prop, big, ch or []), wd)[0] in BAD
        final = self.casetext(prop, big, ch) if det else seedcase
        if det and ch:
            budget = 0 if os.environ.get("VP_FAST") else 45 if self.tier == "quick" else 120
            swd = wd if status not in ("hang", "late") else 15
            best = self.shrink(job, binpath, prop, big, ch, budget, swd)
            cand = self.casetext(prop, big, best)
            st, tx, _ = self.run_case(job, binpath, cand, wd)
            if st in BAD:
                final, text, status = cand, tx, st
        # confirm three times
        with ThreadPoolExecutor(3) as ex:
            reps = list(ex.map(lambda _: self.run_case(job, binpath, final, wd)[0], range(1 if os.environ.get("VP_FAST") else 3)))
        nrep = sum(r in BAD for r in reps)
        if nrep == 0:
            final = seedcase
        return self.report(job, final, status, text, wd, "%d/%d" % (nrep, len(reps)))

    def history_failure(self, job, binpath, seedcase, prop, big, wd):
        """A case that fails only after other cases in the same process: find and reduce that sequence."""
        m = re.search(r"^seed (\d+) (\d+)$", seedcase, re.M)
        if not m:
            return None
        seed, i = m.group(1), int(m.group(2))
        t0, budget = time.time(), 240 if self.tier == "quick" else 400

        def run(lst):
            toks, k = [], 0
            while k < len(lst):
                e = k
                while e + 1 < len(lst) and lst[e + 1] == lst[e] + 1:
                    e += 1
                toks.append(str(lst[k]) if e == k else "%d-%d" % (lst[k], lst[e]))
                k = e + 1
            text = "prop %s\n%sseed %s %s\n" % (prop, "big\n" if big else "", seed, " ".join(toks))
            st, tx, _ = self.run_case(job, binpath, text, wd, max(60, min(300, budget - (time.time() - t0))))
            return (text, st, tx) if st in BAD and st != "late" else None
        best, cur = None, None
        for lst in [[i] * 40] + [list(range(max(0, i - k), i + 1)) for k in (1, 8, 64, 512, 4096, i) if k == i or k < i]:
            if time.time() - t0 > budget:
                return None
            best = run(lst)
            if best:
                cur = lst
                break
        if not best:
            return None
        size = len(cur) // 2
        while size >= 1 and time.time() - t0 < budget:
            k = 0
            while k < len(cur) - 1 and time.time() - t0 < budget:
                cand = cur[:k] + cur[min(k + size, len(cur) - 1):]
                r = run(cand)
                if r:
                    cur, best = cand, r
                else:
                    k += size
            size //= 2
        for _ in range(3):
            r = run(cur)
            if not r:
                return None
        return best

    def report(self, job, final, status, text, wd, rep):
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        head = {"property": self.check, "bin": job["bin"], "np": job["np"], "variant": job["variant"], "omp": job["omp"],
                "watchdog": wd, "crash_only": bool(job.get("crash_only")), "so": bool(job.get("so")), "status": status, "reproduced": rep}
        body = "# %s\n" % json.dumps(head) + "".join("# %s\n" % l for l in text[:3000].splitlines()) + final
        path = os.path.join(OUT, "replays", "%s-%s.case" % (self.check, hashlib.sha256(final.encode()).hexdigest()[:10]))
        open(path, "w").write(body)
        return path, text


def load_known():
    f = os.path.join(VERIF, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else []


def run_check(cid, tier, seed):
    spec = CHECKS[cid]
    R = Run(cid, tier, seed)
    t0 = time.time()
    try:
        jobs = [dict(j) for j in spec["jobs"]]
        if os.environ.get("VP_ONLY"):  # development: one variant, a fraction of the cases
            jobs = [j for j in jobs if j["variant"] == os.environ["VP_ONLY"]] or jobs
        for j in jobs:
            j[tier] = int(j[tier] * float(os.environ.get("VP_FRAC", "1"))) or j[tier]
        bins = {}
        for var in sorted({j["variant"] for j in jobs}):
            hs = sorted({(j["bin"], j["np"] > 0) for j in jobs if j["variant"] == var and not j["bin"].endswith(".py")})
            for k, v in build.compile_all(var, hs).items():
                bins[(var, k)] = v
        for j in jobs:
            if j["bin"].endswith(".py"):
                j["so"] = build.shared_lib(j["variant"])
        tb = time.time() - t0
        work = []
        for ji, j in enumerate(jobs):
            n = j[tier]
            if not n:
                continue
            props = j["props"] or [""]
            for p in props:
                for s in range(j["shards"]):
                    work.append((j, p, s, n, ji))
        stop = threading.Event()
        results = [None] * len(work)
        first = [0] * len(work)

        def go(k):
            j, p, s, n, ji = work[k]
            if stop.is_set():
                return
            d = os.path.join(R.tmp, "w%d" % k)
            h = int(hashlib.sha256(("%d/%s/%s/%d/%d" % (seed, j["bin"], p, s, ji)).encode()).hexdigest()[:12], 16)
            cap = spec.get("cap", {"quick": 240, "thorough": 700})[tier]
            args = ["--seed", str(h), "--first", str(first[k]), "--cases", str(n - first[k]), "--watchdog", str(j["watchdog"]), "--maxsec", str(cap)]
            if p:
                args += ["--prop", p]
            if tier == "thorough" or j["big"]:
                args += ["--big"]
            st, tx = R.exec(j, bins.get((j["variant"], j["bin"])), d, args, cap + j["watchdog"] + 120, stop)
            if st == "infra" or (st == "crash" and not os.path.exists(os.path.join(d, "current"))):
                shutil.rmtree(d, ignore_errors=True)
                st, tx = R.exec(j, bins.get((j["variant"], j["bin"])), d, args, cap + j["watchdog"] + 120, stop)
            results[k] = (st, tx, d)
            if st not in ("ok", "stopped", "notjudged"):  # stop the other shards as well
                stop.set()

        ev, hashes, classes, samples, notes = 0, set(), {}, [], []
        capped, rc, viol, infra = 0, 0, [], None
        todo = list(range(len(work)))
        while todo:
            with ThreadPoolExecutor(16) as ex:
                list(ex.map(go, todo))
            again = []
            for k in todo:
                r = results[k]
                if r is None:
                    again.append(k)
                    continue
                st, tx, d = r
                f = os.path.join(d, "stats.json")
                if os.path.exists(f):
                    try:
                        s = json.load(open(f))
                        ev += s["evaluations"]
                        capped += bool(s.get("capped"))
                        for c, n in s["classes"].items():
                            classes[c] = classes.get(c, 0) + n
                        if len(samples) < 12:
                            samples += s["samples"][:2]
                    except ValueError:
                        pass
                f = os.path.join(d, "hashes")
                if os.path.exists(f):
                    b = open(f, "rb").read()
                    hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
            for k in todo:
                r = results[k]
                if r is None or r[0] == "ok":
                    continue
                m = None
                try:
                    m = re.search(r"^seed \d+ (\d+)$", open(os.path.join(r[2], "current")).read(), re.M)
                except OSError:
                    pass
                if r[0] == "stopped":
                    first[k] = int(m.group(1)) if m else first[k]
                    again.append(k)
                    continue
                if r[0] == "notjudged":
                    notes.append("a shard ended early because an oracle of another property failed")
                    continue
                j = work[k][0]
                if r[0] == "infra":
                    infra = r[1]
                    continue
                path, text = R.handle_failure(j, bins.get((j["variant"], j["bin"])), r[2], r[0], r[1])
                if path is None:
                    notes.append(text)
                    sys.stderr.write("[%s] %s\n" % (cid, text))
                    if text.startswith("infrastructure"):
                        infra = text
                    elif m:  # nothing that can be shown: look further
                        first[k] = int(m.group(1)) + 1
                        again.append(k)
                    continue
                viol.append((path, text))
                break
            if viol or infra or time.time() - t0 > {"quick": 300, "thorough": 600}[tier]:
                break
            stop.clear()
            todo = [k for k in sorted(set(again)) if first[k] < work[k][3]]
            for k in todo:
                shutil.rmtree(os.path.join(R.tmp, "w%d" % k), ignore_errors=True)
                results[k] = None
        known = [k for k in load_known() if k.get("property") == cid and k.get("status") == "known"]
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (cid, k["what"]))
        evid = {
            "property": cid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": ev, "distinct_nontrivial": len(hashes), "rule": spec["rule"],
                "samples": samples[:12], "classes": dict(sorted(classes.items())),
                "build_s": round(tb, 1), "shards": len(work), "shards_stopped_by_time_cap": capped,
                "variants": sorted({j["variant"] for j in jobs}),
            },
            "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        }
        if notes:
            evid["coverage"]["inconclusive"] = [n[:500] for n in notes]
        if known:
            evid["coverage"]["known_findings"] = [k["what"] for k in known]
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        tmp = os.path.join(OUT, "evidence", cid + ".json.tmp")
        json.dump(evid, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(OUT, "evidence", cid + ".json"))
        for path, text in viol:
            print("\n".join(text.splitlines()[:12]))
            print("VIOLATION property=%s replay=%s" % (cid, path))
            rc = 1
        if not viol and infra:
            sys.stderr.write("[%s] error of the check: %s\n" % (cid, infra))
            rc = 2
        if rc == 0:
            print("%s held on %d cases (%d distinct non-trivial), %.1f s, tier %s, seed %d" % (cid, ev, len(hashes), time.time() - t0, tier, seed))
        return rc
    finally:
        R.cleanup()


def replay(path):
    head = json.loads(open(path).readline()[2:])
    R = Run("replay", "quick", 0)
    try:
        job = dict(bin=head["bin"], np=head["np"], variant=head["variant"], omp=head["omp"], watchdog=head["watchdog"], crash_only=head.get("crash_only"))
        b = None
        if job["bin"].endswith(".py"):
            job["so"] = build.shared_lib(job["variant"])
        else:
            b = build.compile_all(job["variant"], [(job["bin"], job["np"] > 0)])[job["bin"]]
        st, tx, ch = R.run_case(job, b, open(path).read(), job["watchdog"])
        print(st)
        print(tx)
        if st in BAD:
            print("VIOLATION property=%s replay=%s" % (head["property"], path))
            return 1
        return 0 if st == "ok" else 2
    finally:
        R.cleanup()


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if a.replay:
        return replay(a.replay)
    if a.id not in CHECKS:
        print("unknown check", a.id)
        return 2
    try:
        return run_check(a.id, "thorough" if a.tier == "thorough" else "quick", seed)
    except build.BuildError as e:
        sys.stderr.write("build failed:\n%s\n" % e)
        return 2

"""Runner: generates cases, runs the real code under the monitors of one property, decides a three-valued verdict.

exit 0  held on everything observed
exit 1  violated (VIOLATION line, replay file)
exit 2  inconclusive (a required monitor was never reached, watchdog, harness could not start)
"""
import collections, hashlib, importlib, json, multiprocessing, os, signal, sys, time, traceback

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAX_FAILS_PER_CASE = 6
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
STOP = os.environ.get("VERIF_STOP") == "1"          # development: end at the first violation


class Stop(BaseException):
    """base of control-flow exceptions the code under test must not swallow"""


class Inconclusive(Stop):
    pass


class Runaway(Stop):
    """the code under test exceeded the logical step bound of the case"""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, (int, float, str)) or x is None:
        return x
    return repr(x)


class Obs:
    """what the monitors observed in one case"""

    def __init__(self):
        self.counters = collections.Counter()
        self.fails = []
        self.trivial = False

    def count(self, name, n=1):
        self.counters[name] += int(n)

    def fail(self, mech, msg, **detail):
        if len(self.fails) < MAX_FAILS_PER_CASE:
            self.fails.append(dict(mech=mech, msg=msg, detail=jsonable(detail)))

    def check(self, ok, mech, msg="", **detail):
        self.counters["checked:" + mech] += 1
        if not ok:
            self.fail(mech, msg, **detail)
        return bool(ok)

    def close(self, got, want, tol, mech, msg="", **detail):
        """|got-want| <= tol elementwise; nan never passes"""
        try:
            got = np.asarray(got, dtype=float)
            want = np.asarray(want, dtype=float)
            ok = got.shape == want.shape and bool(np.all(np.abs(got-want) <= tol))
        except (TypeError, ValueError):
            ok = False
        self.counters["checked:" + mech] += 1
        if not ok:
            self.fail(mech, msg, got=got, want=want, tol=tol, **detail)
        return ok


class Watchdog:
    """wall-clock watchdog; only ever inconclusive, except when a registered logical-step probe says runaway"""
    probe = None
    limit = 240.0

    def __init__(self, limit):
        self.deadline = time.monotonic() + limit

    def tick(self, *_):
        p = Watchdog.probe
        if p is not None and p():
            Watchdog.probe = None
            raise Runaway("logical step bound exceeded")
        if time.monotonic() > self.deadline:
            raise Inconclusive("case watchdog")

    def __enter__(self):
        Watchdog.probe = None
        signal.signal(signal.SIGALRM, self.tick)
        signal.setitimer(signal.ITIMER_REAL, 2.0, 2.0)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)
        Watchdog.probe = None


def run_case(mod, case, limit=None):
    obs = Obs()
    inconc = None
    try:
        with Watchdog(limit or getattr(mod, "CASE_LIMIT", 240.0)):
            mod.run(case, obs)
    except Inconclusive as e:
        inconc = str(e)
    except Runaway as e:
        obs.fail("runaway", "propagation does not stop: " + str(e))
    except MemoryError:
        inconc = "MemoryError"
    except Exception as e:
        c = e
        while c is not None and not isinstance(c, Stop):        # raised by the watchdog inside compiled code
            c = c.__cause__ or c.__context__
        if isinstance(c, Runaway):
            obs.fail("runaway", "propagation does not stop: " + str(c))
            return obs, inconc
        if c is not None:
            return obs, str(c)
        tb = traceback.extract_tb(e.__traceback__)
        obs.fail("exception", "%s: %s" % (type(e).__name__, str(e)[:300]),
                 where=["%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-6:]])
    return obs, inconc


def case_key(case):
    return hashlib.sha1(json.dumps(jsonable(case), sort_keys=True).encode()).hexdigest()


def rng_for(seed, pid, i):
    return np.random.default_rng([seed & 0xffffffff, sum(ord(c)*131**k for k, c in enumerate(pid)) & 0xffffffff, i])


class Lazy:
    """case list: structured cases first, then generated ones"""

    def __init__(self, mod, tier, seed, n):
        self.mod, self.tier, self.seed = mod, tier, seed
        self.struct = list(mod.structured(tier)) if hasattr(mod, "structured") else []
        self.n = len(self.struct) + n

    def get(self, i):
        if i < len(self.struct):
            return jsonable(self.struct[i])
        j = i - len(self.struct)
        rng = rng_for(self.seed, self.mod.ID, j)
        g = self.mod.gen
        if getattr(self.mod, "GEN_INDEX", False):
            return jsonable(g(rng, self.tier, j))
        return jsonable(g(rng, self.tier))


def _worker(wid, nw, mod, cases, t_end, out):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    w = os.fdopen(out, "w", buffering=1)
    for i in range(wid, cases.n, nw):
        if time.monotonic() > t_end:
            break
        w.write(json.dumps(dict(start=i)) + "\n")
        case = cases.get(i)
        obs, inconc = run_case(mod, case)
        rec = dict(i=i, c=dict(obs.counters), triv=obs.trivial, key=case_key(case))
        if obs.fails:
            rec["fails"] = obs.fails
            rec["case"] = case
        if inconc:
            rec["inconc"] = inconc
        w.write(json.dumps(jsonable(rec)) + "\n")
    w.write(json.dumps(dict(done=wid)) + "\n")
    w.close()
    os._exit(0)


def run_all(mod, cases, budget, nproc):
    """forked workers over a stripe of cases each; returns list of records"""
    import select
    t_end = time.monotonic() + budget
    fds, pids, last, recs, done = {}, {}, {}, [], set()
    sys.stdout.flush(); sys.stderr.flush()
    for wid in range(nproc):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                _worker(wid, nproc, mod, cases, t_end, w)
            except BaseException:
                traceback.print_exc()
            os._exit(97)
        os.close(w)
        fds[r] = wid
        pids[wid] = pid
    buf = collections.defaultdict(bytes)
    while fds:
        rd, _, _ = select.select(list(fds), [], [], 5.0)
        for r in rd:
            chunk = os.read(r, 1 << 16)
            if not chunk:
                os.close(r)
                del fds[r]
                continue
            buf[r] += chunk
            *lines, buf[r] = buf[r].split(b"\n")
            for ln in lines:
                d = json.loads(ln)
                if "start" in d:
                    last[fds[r]] = d["start"]
                elif "done" in d:
                    done.add(d["done"])
                else:
                    recs.append(d)
                    if STOP and d.get("fails"):
                        for p in pids.values():
                            os.kill(p, signal.SIGKILL)
                        for p in pids.values():
                            os.waitpid(p, 0)
                        return recs
    for wid, pid in pids.items():
        _, st = os.waitpid(pid, 0)
        if wid in done:
            continue
        i = last.get(wid)
        rec = dict(i=i if i is not None else -1, c={}, triv=True, key="crash%d" % wid)
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL) and i is not None:
            rec["fails"] = [dict(mech="crash", msg="interpreter died with signal %d" % sig, detail={})]
            rec["case"] = cases.get(i)
        else:
            rec["inconc"] = "worker ended early (status %d)" % st
        recs.append(rec)
    return recs


# ----------------------------------------------------------------------------------------- known findings
def known_findings(pid):
    """lines 'finding: property=<id> mech=<mechanism> <what fails>' ; 'fixed:' lines suppress nothing"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            f = ln.split(None, 3)
            if len(f) == 4 and f[0] == "finding:" and f[1] == "property=" + pid and f[2].startswith("mech="):
                out[f[2][5:]] = f[3].strip()
    return out


def import_sut():
    sys.path.insert(0, REPO)
    import pyqlaw
    if not os.path.abspath(pyqlaw.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("pyqlaw imported from %s, not from %s" % (pyqlaw.__file__, REPO))
    return pyqlaw


def main(argv):
    pid = argv[0]
    replay = argv[argv.index("--replay")+1] if "--replay" in argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    np.seterr(all="ignore")
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)

    def violation(rec, n):
        path = os.path.join(rdir, "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, case=rec.get("case"), fails=rec["fails"]), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        for x in rec["fails"][:2]:
            print("   [%s] %s %s" % (x["mech"], x["msg"], json.dumps(x["detail"])[:600]))

    def evidence(cov, nviol, assumptions):
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.monotonic()-t0, 2),
                  violations=nviol, assumptions=assumptions)
        p = os.path.join(EVID, pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(jsonable(ev), f, indent=1)
        os.replace(p + ".tmp", p)

    try:
        import_sut()
    except Exception as e:
        # the package cannot even be imported: no property that needs it holds
        rec = dict(case=None, fails=[dict(mech="import", msg="import pyqlaw: %r" % e, detail={})])
        traceback.print_exc()
        evidence(dict(evaluations=1, distinct_nontrivial=0, rule="import failed", samples=["import pyqlaw"]), 1, [])
        violation(rec, 0)
        return 1
    mod = importlib.import_module("vp.checks." + pid.lower())

    if replay:
        d = json.load(open(replay))
        if hasattr(mod, "warm"):
            mod.warm(tier)
        obs, inconc = run_case(mod, d["case"])
        print(json.dumps(jsonable(dict(counters=obs.counters, fails=obs.fails, inconclusive=inconc)), indent=1))
        return 1 if obs.fails else (2 if inconc else 0)

    warm_fail = None
    if hasattr(mod, "warm"):
        wobs, winc = run_case(type("W", (), dict(run=staticmethod(lambda c, o: mod.warm(tier)))), {}, 400.0)
        if wobs.fails:
            warm_fail = dict(i=-1, c={}, triv=True, key="warm", fails=wobs.fails, case=None)
        elif winc:
            print("INCONCLUSIVE property=%s warm-up: %s" % (pid, winc))
            return 2
    n = mod.N[tier]
    budget = float(os.environ.get("VERIF_BUDGET", mod.BUDGET[tier] if hasattr(mod, "BUDGET") else (300 if tier == "quick" else 780)))
    budget = max(20.0, budget - (time.monotonic() - t0))
    if warm_fail is not None:
        recs, cases = [warm_fail], None
    else:
        cases = Lazy(mod, tier, seed, n)
        nproc = int(os.environ.get("VERIF_JOBS", "0")) or min(getattr(mod, "JOBS", 8), os.cpu_count() or 1, max(1, cases.n))
        recs = run_all(mod, cases, budget, nproc)
    recs.sort(key=lambda r: r["i"])
    total = collections.Counter()
    keys, inconcs, fails = set(), [], []
    for r in recs:
        total.update(r["c"])
        if not r["triv"]:
            keys.add(r["key"])
        if r.get("inconc"):
            inconcs.append((r["i"], r["inconc"]))
        if r.get("fails"):
            fails.append(r)
    known = known_findings(pid)
    unlisted = []
    hit = collections.Counter()
    for r in fails:
        u = [x for x in r["fails"] if x["mech"] not in known]
        for x in r["fails"]:
            if x["mech"] in known:
                hit[x["mech"]] += 1
        if u:
            unlisted.append(dict(r, fails=u))
    samples = []
    if cases is not None:
        done_i = [r["i"] for r in recs if r["i"] >= 0 and not r["triv"]]
        for i in done_i[:1] + done_i[len(done_i)//2:][:1]:
            rec = next(r for r in recs if r["i"] == i)
            samples.append(dict(case=cases.get(i), observed=rec["c"]))
    cov = dict(evaluations=len(recs), distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples or ["none"],
               observed={k: int(v) for k, v in sorted(total.items())}, planned=cases.n if cases else 0)
    evidence(cov, len(unlisted), list(getattr(mod, "ASSUMPTIONS", [])))
    for m, what in known.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s tier=%s seed=%d: %d cases (%d distinct non-trivial) in %.1fs" % (pid, tier, seed, len(recs), len(keys), time.monotonic()-t0))
    if unlisted:
        mechs = collections.Counter(x["mech"] for r in unlisted for x in r["fails"])
        print("   mechanisms:", dict(mechs))
        for n_, r in enumerate(unlisted[:3]):
            violation(r, n_)
        return 1
    missing = [c for c in mod.REQUIRED if total[c] <= 0]
    if missing or len(keys) == 0:
        print("INCONCLUSIVE property=%s monitors never reached: %s %s" % (pid, missing, inconcs[:3]))
        return 2
    if len(inconcs) > max(2, 0.02*len(recs)):
        print("INCONCLUSIVE property=%s %d cases without a verdict: %s" % (pid, len(inconcs), inconcs[:3]))
        return 2
    return 0

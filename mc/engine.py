"""Explorer: runs every case of a finite space on the implementation, in parallel, under a watchdog.

A property module provides
    PROP, ASSUMPTIONS (list of str), LEVEL_TEXT
    cases(tier)      -> list of (group, case); case is a plain literal (tuple/list/str/num)
    step(group, case, acc)   run one case on the code in /repo and compare with the reference model
    init()           (optional) per-worker initialisation, after fork
    before(tier, acc)(optional) run once in the parent before the workers (single-process parts)
The explorer never samples: all cases are executed unless the wall budget is hit, and then the
evidence says which groups were completed.
"""
from __future__ import annotations
import argparse, hashlib, json, multiprocessing, os, pickle, shutil, signal, sys, tempfile, time, traceback, ast

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
NPROC = int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 1)
MAX_REPORT = int(os.environ.get("MC_MAX_REPORT") or 20)


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def h64(obj):
    if not isinstance(obj, bytes):
        obj = (obj if isinstance(obj, str) else repr(obj)).encode("utf-8", "surrogatepass")
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), "big")


class Acc:
    """what one worker (or the parent) observed"""

    def __init__(self):
        self.states, self.outcomes = set(), {}
        self.transitions = self.traces = 0
        self.viol, self.samples, self.groups = {}, {}, {}
        self.case = None
        self.group = None

    # -- observations
    def state(self, obj):
        """a distinct state of the explored system (hashed canonical form)"""
        self.states.add(h64(obj))

    def trans(self, n=1):
        """implementation calls executed"""
        self.transitions += n

    def trace(self, n=1):
        """complete behaviours compared with the reference model"""
        self.traces += n

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def fail(self, sig, msg, **detail):
        """a disagreement. sig: deterministic short identification of the failing input/history"""
        sig = " ".join(str(sig).split())
        if sig not in self.viol:
            self.viol[sig] = {"sig": sig, "group": self.group, "case": self.case, "message": str(msg)[:3000],
                              "detail": {k: (v if isinstance(v, (str, int, float, list, dict, type(None))) else repr(v)) for k, v in detail.items()}}

    def sample(self, text, per_group=1):
        s = self.samples.setdefault(self.group or "-", [])
        if len(s) < per_group:
            s.append(text if isinstance(text, str) else repr(text))

    def merge(self, o):
        self.states |= o.states
        self.transitions += o.transitions
        self.traces += o.traces
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in o.viol.items():
            self.viol.setdefault(k, v)
        for k, v in o.samples.items():
            self.samples.setdefault(k, v)
        for k, v in o.groups.items():
            self.groups[k] = self.groups.get(k, 0) + v


def run_case(mod, acc, group, case, limit):
    acc.case, acc.group = case, group
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.step(group, case, acc)
        acc.groups[group] = acc.groups.get(group, 0) + 1
    except Hang:
        acc.fail("hang|%s|%s" % (group, short(case)), "no result within %.0f s" % limit)
    except (KeyboardInterrupt, SystemExit):
        raise
    except RecursionError:
        acc.fail("recursion|%s|%s" % (group, short(case)), traceback.format_exc(limit=-6))
    except MemoryError:
        acc.fail("memory|%s|%s" % (group, short(case)), "MemoryError")
    except BaseException:
        tb = traceback.format_exc(limit=-8)
        last = tb.strip().splitlines()[-1]
        acc.fail("exception|%s|%s|%s" % (group, short(case), last.split(":")[0]), tb)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def short(case, n=160):
    r = " ".join(repr(case).split())
    return r if len(r) <= n else r[:n - 18] + "~" + hashlib.sha1(r.encode("utf-8", "surrogatepass")).hexdigest()[:16]


def _child(mod, cases, chunks, counter, tmp, deadline, limit):
    signal.signal(signal.SIGALRM, _alarm)
    try:
        if hasattr(mod, "init"):
            mod.init()
    except BaseException:
        with open(os.path.join(tmp, "init-error"), "w") as f:
            f.write(traceback.format_exc())
        os._exit(3)
    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(chunks):
            break
        if time.time() > deadline:
            break
        cid, lo, hi = chunks[i]
        acc = Acc()
        for j in range(lo, hi):
            run_case(mod, acc, cases[j][0], cases[j][1], limit)
            if any(k.startswith("hang|") for k in acc.viol):
                # the verdict is known: no point in waiting for the time limit again and again
                with counter.get_lock():
                    counter.value = len(chunks)
                break
            if time.time() > deadline:
                break
        fn = os.path.join(tmp, "chunk-%d" % cid)
        with open(fn + ".part", "wb") as f:
            pickle.dump((j + 1 - lo, acc), f)
        os.replace(fn + ".part", fn)
    os._exit(0)


def run_pool(mod, cases, nproc, deadline, limit, chunk, seed=0):
    """run all cases; returns Acc and the number of cases not executed"""
    total = Acc()
    n = len(cases)
    if not n:
        return total, 0
    chunk = chunk or max(1, min(40, n // (nproc * 12) or 1))
    # cases of the groups a module declares HEAVY are chunks of their own and start first
    heavy = getattr(mod, "HEAVY", ())
    spans, lo = [], 0
    while lo < n:
        hi = lo + 1
        if cases[lo][0] not in heavy:
            while hi < n and hi - lo < chunk and cases[hi][0] not in heavy:
                hi += 1
        spans.append((lo, hi))
        lo = hi
    spans.sort(key=lambda s: (cases[s[0]][0] not in heavy, s))
    chunks = [(c, lo, hi) for c, (lo, hi) in enumerate(spans)]
    if seed and len(chunks) > 1:  # VERIF_SEED only rotates the order in which chunks are executed
        k = sum(1 for c in chunks if cases[c[1]][0] in heavy)
        a, b = chunks[:k], chunks[k:]
        chunks = a[seed % k:] + a[:seed % k] if k else []
        chunks += b[seed % len(b):] + b[:seed % len(b)] if b else []
    tmp = tempfile.mkdtemp(prefix="mcpool-")
    ctx = multiprocessing.get_context("fork")
    todo, done = chunks, 0
    try:
        for attempt in (0, 1, 2):
            counter = ctx.Value("i", 0)
            procs = []
            sys.stdout.flush()
            for _ in range(min(nproc, len(todo))):
                p = ctx.Process(target=_child, args=(mod, cases, todo, counter, tmp, deadline, limit))
                p.start()
                procs.append(p)
            for p in procs:
                p.join()
            left = []
            for c in todo:
                fn = os.path.join(tmp, "chunk-%d" % c[0])
                if os.path.exists(fn):
                    with open(fn, "rb") as f:
                        k, acc = pickle.load(f)
                    os.remove(fn)
                    total.merge(acc)
                    done += k
                else:
                    left.append(c)
            if os.path.exists(os.path.join(tmp, "init-error")):
                total.group = total.case = None
                total.fail("init", open(os.path.join(tmp, "init-error")).read())
                return total, 0
            crashed = any(p.exitcode not in (0, None) for p in procs)
            todo = left
            if not todo or not crashed or time.time() > deadline:
                break
            # a worker died (crash or memory pressure): try its chunks again, one case per chunk
            nproc = max(1, nproc // 2)
            if attempt == 0:
                base = 10 ** 6
                todo = [(base + j, j, j + 1) for _, lo, hi in todo for j in range(lo, hi)]
        else:
            for c in todo:
                total.group, total.case = cases[c[1]]
                total.fail("worker-died|%s|%s" % (cases[c[1]][0], short(cases[c[1]][1])), "the interpreter running this case died")
                done += 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return total, n - done


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    """known: property=<id> sig=<signature> :: <what fails>"""
    out = {}
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                body = line.split(" sig=", 1)[1]
                sig, _, what = body.partition(" :: ")
                out[sig.strip()] = what.strip()
    return out


def evidence_dir():
    d = os.environ.get("MC_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    return d


def main(mod, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--group")
    ap.add_argument("--limit-cases", type=int)
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED") or 1)
    prop = mod.PROP
    t0 = time.time()
    if a.replay:
        return replay(mod, a.replay)
    budget = float(os.environ.get("MC_BUDGET") or (getattr(mod, "BUDGET_QUICK", 420) if a.tier == "quick" else getattr(mod, "BUDGET_THOROUGH", 800)))
    deadline = t0 + budget
    limit = getattr(mod, "CASE_LIMIT", 60.0)
    total = Acc()
    crash = None
    missing, ncases = 0, 0
    planned = {}
    try:
        signal.signal(signal.SIGALRM, _alarm)
        cases = mod.cases(a.tier)
        if a.group:
            cases = [c for c in cases if c[0] == a.group]
        if a.limit_cases:
            cases = cases[:a.limit_cases]
        for g, _ in cases:
            planned[g] = planned.get(g, 0) + 1
        ncases = len(cases)
        if hasattr(mod, "before"):
            acc = Acc()
            acc.group = "before"
            mod.before(a.tier, acc)
            total.merge(acc)
        acc, missing = run_pool(mod, cases, getattr(mod, "PROCS", NPROC), deadline, limit, getattr(mod, "CHUNK", None), seed)
        total.merge(acc)
        if hasattr(mod, "after"):
            acc = Acc()
            acc.group = "after"
            mod.after(a.tier, acc)
            total.merge(acc)
    except Exception:
        crash = traceback.format_exc()
    if crash:
        total.case = total.group = None
        total.fail("check-could-not-run", crash)
    ev = evidence_dir()
    rdir = os.path.join(ev, "replay", prop)
    shutil.rmtree(rdir, ignore_errors=True)
    known = known_findings(prop)
    new = []
    for sig in sorted(total.viol, key=lambda s: (len(repr(total.viol[s]["case"])), s)):
        if sig in known:
            print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[sig], sig))
        else:
            new.append(total.viol[sig])
    samples = []
    for g in sorted(total.samples):
        for s in total.samples[g]:
            samples.append({"group": g, "case": s[:600]})
    incomplete = sorted(g for g in planned if total.groups.get(g, 0) < planned[g] and missing)
    cov = {"states": len(total.states), "transitions": total.transitions,
           "traces_validated_against_impl": total.traces, "samples": samples[:40],
           "cases": ncases, "cases_executed": ncases - missing,
           "groups": {g: {"planned": planned[g], "completed": total.groups.get(g, 0)} for g in sorted(planned)},
           "outcomes": dict(sorted(total.outcomes.items())),
           "bounds": getattr(mod, "BOUNDS", {}).get(a.tier, ""),
           "exhaustive": bool(not missing and not crash and not a.group and not a.limit_cases)}
    if incomplete:
        cov["capped"] = "wall budget %.0f s hit; groups not completed: %s" % (budget, ", ".join(incomplete))
    doc = {"property": prop, "tier": a.tier, "seed": seed, "level": "model_checking", "coverage": cov,
           "assumptions": list(getattr(mod, "ASSUMPTIONS", [])), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    tmp = os.path.join(ev, ".%s.json.tmp" % prop)
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(doc, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(tmp, os.path.join(ev, prop + ".json"))
    for i, v in enumerate(new):
        if i >= MAX_REPORT:
            print("... %d further violations" % (len(new) - i))
            break
        os.makedirs(rdir, exist_ok=True)
        fn = os.path.join(rdir, "%02d.json" % i)
        rec = dict(v, property=prop, case=repr(v["case"]), tier=a.tier, rerun="./run.sh %s --replay %s" % (prop, fn))
        with open(fn, "w", encoding="utf-8") as f:
            json.dump(rec, f, indent=1, ensure_ascii=True)
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        print("    %s: %s" % (v["sig"][:300], v["message"].strip().splitlines()[-1][:300] if v["message"].strip() else ""))
    print("%s %s: %d/%d cases, %d states, %d transitions, %d traces, %d violation(s), %.1f s%s" % (
        prop, a.tier, ncases - missing, ncases, len(total.states), total.transitions, total.traces, len(new), time.time() - t0,
        "" if not incomplete else " CAPPED"))
    return 1 if new else 0


def replay(mod, fn):
    rec = json.load(open(fn, encoding="utf-8"))
    case = ast.literal_eval(rec["case"])
    signal.signal(signal.SIGALRM, _alarm)
    if hasattr(mod, "init"):
        mod.init()
    acc = Acc()
    if case is None and rec["group"] in ("before", "after", None):
        acc.group = rec["group"]
        getattr(mod, rec["group"] or "before")(rec["tier"], acc)
    else:
        run_case(mod, acc, rec["group"], case, getattr(mod, "CASE_LIMIT", 60.0))
    for s, v in acc.viol.items():
        print("REPRODUCED %s\n%s\n%s" % (s, v["message"], json.dumps(v["detail"], indent=1)))
    if not acc.viol:
        print("not reproduced")
    return 1 if acc.viol else 0

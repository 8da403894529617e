"""Deterministic generated-input search: seeded cases over a process pool, shrinking, 3x confirmation, replay files, evidence."""
import argparse, hashlib, json, multiprocessing as mp, os, random, sys, time, traceback, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class Skip(Exception):
    """The case is outside the property's domain (only shrinking may produce such cases)."""


class Outcome:
    """fails: list of messages, first word(s) up to ':' is the failure kind; tags: iterable of class labels."""
    __slots__ = ("fails", "tags", "nontrivial", "key")

    def __init__(self, fails=(), tags=(), nontrivial=True, key=None):
        self.fails, self.tags, self.nontrivial, self.key = list(fails), list(tags), nontrivial, key


def kind(msg):
    return msg.split(":", 1)[0]


class Check:
    """One property. Subclasses define: prop, rule, quick_n, thorough_n, build(), gen(rng), judge(case), shrinks(case), text(case)."""
    prop = "C00"
    rule = ""
    assumptions = ()
    quick_n, thorough_n = 400, 8000
    quick_cap, thorough_cap = 420, 3000     # seconds, a backstop only: hitting it never is a violation
    level = "exploration"

    def build(self):
        pass

    def gen(self, rng):
        raise NotImplementedError

    def judge(self, case):
        raise NotImplementedError

    def shrinks(self, case):
        return iter(())

    def text(self, case):
        return json.dumps(case)

    def extra_cases(self):
        """fixed regression cases always run first"""
        return []


_CHECK = None


def safe_judge(check, case):
    try:
        return check.judge(case)
    except Skip:
        raise
    except Exception:
        tb = traceback.format_exc().strip().split("\n")
        return Outcome(["unreadable-output: " + tb[-1] + " | " + " / ".join(x.strip() for x in tb[-5:-1])])


def case_rng(prop, i):
    return random.Random("%s:%d:%d" % (prop, SEED, i))


def _work(i):
    try:
        case = _CHECK.gen(case_rng(_CHECK.prop, i))
    except Exception:
        return i, None, None, "generator: " + traceback.format_exc()
    t0 = time.time()
    try:
        o = safe_judge(_CHECK, case)
    except Skip:
        return i, None, None, None
    txt = json.dumps(case, sort_keys=True)
    h = hashlib.sha1((o.key if o.key is not None else txt).encode()).hexdigest()[:16]
    return i, (o.fails, o.tags, o.nontrivial, h, time.time() - t0), (case if o.fails else None), None


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop]


def shrink(check, case, kinds, budget):
    """Greedy descent: keeps the first smaller case that still shows a failure of the same kind."""
    t0 = time.time()
    best, steps, tries = case, 0, 0
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for cand in check.shrinks(best):
            if time.time() - t0 > budget:
                break
            tries += 1
            try:
                o = safe_judge(check, cand)
            except Skip:
                continue
            except Exception:
                continue
            if o.fails and kinds & {kind(f) for f in o.fails}:
                best, progress = cand, True
                steps += 1
                break
    return best, steps, tries


def confirm(check, case, times=3):
    seen = None
    for _ in range(times):
        o = safe_judge(check, case)
        ks = {kind(f) for f in o.fails}
        seen = ks if seen is None else seen & ks
        if not seen:
            return False, o
    return True, o


def ddmin_list(lst):
    """candidate sub-lists, big cuts first"""
    n = len(lst)
    k = n // 2
    while k >= 1:
        for s in range(0, n, k):
            c = lst[:s] + lst[s + k:]
            if len(c) < n:
                yield c
        k //= 2


def run(check, argv=None):
    global _CHECK
    ap = argparse.ArgumentParser()
    ap.add_argument("--replay")
    ap.add_argument("--n", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--show", type=int)
    ap.add_argument("--keep-going", action="store_true", help="development: list every failing case, no shrinking")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    a = ap.parse_args(argv)
    t0 = time.time()
    if a.show is not None:
        check.build()
        print(check.text(check.gen(case_rng(check.prop, a.show))))
        return 0
    try:
        check.build()
    except RuntimeError as e:
        print("cannot build: %s" % e)
        return 3
    tb = time.time()
    _CHECK = check
    if a.replay:
        case = json.load(open(a.replay))["case"]
        print(check.text(case))
        o = safe_judge(check, case)
        for f in o.fails:
            print("FAIL", f)
        return 1 if o.fails else 0
    n = a.n or (check.thorough_n if TIER == "thorough" else check.quick_n)
    cap = check.thorough_cap if TIER == "thorough" else check.quick_cap

    # listed findings: replayed, reported, never counted as violations
    for k in load_known(check.prop):
        if k.get("status") == "fixed":
            continue
        case = json.load(open(os.path.join(VERIF, k["replay"])))["case"]
        o = safe_judge(check, case)
        if o.fails:
            print("KNOWN-FINDING: property=%s %s" % (check.prop, k["what"]))

    tags, distinct, evals, skipped, samples, failing = {}, set(), 0, 0, [], []
    durations = 0.0
    gen_err = None
    extra = list(check.extra_cases())
    for case in extra:
        try:
            o = safe_judge(check, case)
        except Skip:
            continue
        evals += 1
        if o.fails:
            failing.append((-1, o.fails, case))
    stopped = False
    if a.keep_going or not failing:
        with mp.Pool(a.jobs, initializer=_init) as pool:
            it = pool.imap(_work, range(a.first, a.first + n), chunksize=4)
            for i, res, case, err in it:
                if err:
                    gen_err = (i, err)
                    break
                if res is None:
                    skipped += 1
                    continue
                fails, tg, nt, h, dt = res
                evals += 1
                durations += dt
                for t in set(tg):
                    tags[t] = tags.get(t, 0) + 1
                if nt:
                    if h not in distinct:
                        distinct.add(h)
                if len(samples) < 3 and nt and (i % 7 == 3 or i > 20):
                    samples.append(i)
                if fails:
                    failing.append((i, fails, case))
                    if not a.keep_going:
                        break
                if time.time() - tb > cap:
                    stopped = True
                    break
            pool.terminate()
    if gen_err:
        sys.stderr.write("case %d: %s\n" % gen_err)
        return 3
    rc = 0
    if a.keep_going:
        ks = {}
        for i, fails, _ in failing:
            for f in fails:
                ks.setdefault(kind(f), []).append((i, f))
        for k in sorted(ks, key=lambda k: -len(ks[k])):
            print("%5d  %s" % (len(ks[k]), k))
            for i, f in ks[k][:4]:
                print("         case %d: %s" % (i, f[:600]))
    elif failing:
        i, fails, case = failing[0]
        kinds = {kind(f) for f in fails}
        small, steps, tries = shrink(check, case, kinds, 40 if TIER == "quick" else 180)
        ok, o = confirm(check, small)
        if not ok:
            small = case
            ok, o = confirm(check, small)
        if ok:
            d = os.path.join(VERIF, ".build", "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s.json" % (check.prop, hashlib.sha1(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]))
            json.dump({"property": check.prop, "case": small, "fails": o.fails, "seed": SEED, "index": i}, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (check.prop, p))
            for f in o.fails[:10]:
                print("  " + f[:1500])
            print("shrunk in %d steps (%d tries); reproduce: ./check %s --replay %s" % (steps, tries, check.prop, p))
            print(check.text(small)[:4000])
            rc = 1
        else:
            print("unstable failure, not reported as a violation: case %d %s" % (i, fails[:2]))
    ev = {"property": check.prop, "tier": TIER, "seed": SEED, "level": check.level,
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": check.rule,
                       "samples": [check.text(check.gen(case_rng(check.prop, i)))[:3000] for i in samples],
                       "classes": dict(sorted(tags.items())), "skipped": skipped, "time_cap_hit": stopped},
          "assumptions": list(check.assumptions), "wall_s": round(time.time() - t0, 2), "violations": 1 if rc else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d skipped, %d distinct non-trivial, %.1fs build, %.1fs total, violations=%d" %
          (check.prop, evals, skipped, len(distinct), tb - t0, time.time() - t0, 1 if rc else 0))
    if os.environ.get("VP_TAGS"):
        for t, c in sorted(tags.items()):
            print("   %-40s %d" % (t, c))
    return rc

"""Engine for the Python-level properties: hypothesis search in several processes, shrinking,
replay files, evidence. A case is plain JSON data; check(case, ctx) raises AssertionError."""
import hashlib, json, multiprocessing, os, sys, time

ROOT = os.environ.get("GV_ROOT", "/verif")
PKG = os.environ.get("GV_PYPKG", os.path.join(ROOT, "build", "py"))
SHARDS = 8
HANG = int(os.environ.get("GV_HANG", "240"))


class Ctx:
    def __init__(self):
        self.nontrivial = False
        self.labels = set()
        self.comparisons = 0

    def label(self, s):
        self.labels.add(s)


def guarded(check, case, ctx):
    """Panics of the native code surface as BaseException; they are failures of the case."""
    try:
        check(case, ctx)
    except AssertionError:
        raise
    except Exception as e:
        raise AssertionError(f"{type(e).__name__}: {e}") from e
    except BaseException as e:
        if type(e).__name__ == "PanicException":
            raise AssertionError(f"panic in native code: {e}") from None
        raise


def shard(args):
    mod, idx, n, seed = args
    m = __import__(mod)
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    out = dict(evals=0, distinct=set(), nontrivial=set(), labels={}, samples=[], comparisons=0, failure=None)
    journal = os.environ.get("GV_JOURNAL")
    journal = f"{journal}.{idx}" if journal else None
    state = dict(fail=None)

    @hypothesis.seed(seed * 1000003 + idx)
    @settings(database=None, max_examples=n, deadline=None, derandomize=False, report_multiple_bugs=False,
              print_blob=False, phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))
    @given(m.strategy())
    def prop(case):
        js = json.dumps(case, sort_keys=True)
        if journal:
            with open(journal, "w") as f:
                f.write(json.dumps({"property": m.ID, "message": "process died", "case": case}))
        ctx = Ctx()
        out["evals"] += 1
        try:
            guarded(m.check, case, ctx)
        except AssertionError as e:
            state["fail"] = (case, str(e))
            raise
        h = hashlib.sha1(js.encode()).digest()[:8]
        out["distinct"].add(h)
        out["comparisons"] += ctx.comparisons
        for l in ctx.labels:
            out["labels"][l] = out["labels"].get(l, 0) + 1
        if ctx.nontrivial and h not in out["nontrivial"]:
            out["nontrivial"].add(h)
            if len(out["samples"]) < 1 and len(js) > 200:
                out["samples"].append(js[:1200])

    try:
        prop()
    except AssertionError:
        out["failure"] = state["fail"]
    except BaseException as e:  # e.g. hypothesis' Flaky: the recorded case did fail once
        if state["fail"] is None:
            raise
        out["failure"] = state["fail"]
    if journal and os.path.exists(journal):
        os.remove(journal)
    return out


def stuck():
    """The case a worker has been executing for longer than HANG seconds, if any (usual cases
    take milliseconds; the journal is rewritten before every case)."""
    j = os.environ.get("GV_JOURNAL")
    for i in range(SHARDS) if j else []:
        try:
            if time.time() - os.stat(f"{j}.{i}").st_mtime > HANG:
                return json.load(open(f"{j}.{i}"))["case"]
        except (OSError, ValueError):
            pass
    return None


def main(m):
    sys.path.insert(0, PKG)
    os.environ["PYTHONPATH"] = PKG + os.pathsep + os.path.dirname(os.path.abspath(__file__))
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        case = json.load(open(f))
        case = case.get("case", case)
        try:
            guarded(m.check, case, Ctx())
        except AssertionError as e:
            print(e)
            print(f"VIOLATION property={m.ID} replay={f}")
            return 1
        print("replay passes")
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = float(os.environ.get("GV_SCALE", "1"))
    t0 = time.time()
    failure, regress = None, 0
    d = os.path.join(ROOT, "pyprops", "regress", m.ID)
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.endswith(".json"):
            case = json.load(open(os.path.join(d, f)))["case"]
            regress += 1
            try:
                guarded(m.check, case, Ctx())
            except AssertionError as e:
                failure = (case, str(e))
                break
    outs = []
    if failure is None:
        per = max(1, int(m.EXAMPLES[tier] * scale / SHARDS))
        mp = multiprocessing.get_context("spawn")
        # a worker that is killed by a signal must end the run, not leave the pool waiting for it
        from concurrent.futures import ProcessPoolExecutor, wait
        from concurrent.futures.process import BrokenProcessPool
        ex = ProcessPoolExecutor(SHARDS, mp_context=mp)
        fs = [ex.submit(shard, (m.MODULE, i, per, seed)) for i in range(SHARDS)]
        hung = None
        try:
            while hung is None and wait(fs, timeout=2)[1]:
                hung = stuck()
            outs = [f.result() for f in fs if hung is None or f.done()]
        except BrokenProcessPool:
            os.abort()
        if hung:
            failure = (hung, f"the case did not end within {HANG} s")
            procs = list(ex._processes.values())
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                p.kill()
    for o in outs:
        if failure is None and o["failure"]:
            failure = o["failure"]
    distinct = set().union(*[o["distinct"] for o in outs]) if outs else set()
    nontriv = set().union(*[o["nontrivial"] for o in outs]) if outs else set()
    labels = {}
    for o in outs:
        for k, v in o["labels"].items():
            labels[k] = labels.get(k, 0) + v
    ev = {"property": m.ID, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(o["evals"] for o in outs) + regress, "distinct": len(distinct),
                       "distinct_nontrivial": len(nontriv), "oracle_comparisons": sum(o["comparisons"] for o in outs),
                       "regression_replays": regress, "rule": m.RULE, "labels": dict(sorted(labels.items())),
                       "samples": [s for o in outs for s in o["samples"]][:5]},
          "assumptions": m.ASSUMPTIONS, "wall_s": time.time() - t0, "violations": 1 if failure else 0}
    path = None
    if failure:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        body = json.dumps(failure[0], sort_keys=True)
        path = os.path.join(ROOT, "replays", f"{m.ID}-{hashlib.sha1(body.encode()).hexdigest()[:16]}.json")
        json.dump({"property": m.ID, "message": failure[1], "case": failure[0]}, open(path, "w"), indent=1)
        ev["coverage"]["violation"] = {"replay": path, "message": failure[1]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    tmp = os.path.join(ROOT, "evidence", m.ID + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(ROOT, "evidence", m.ID + ".json"))
    c = ev["coverage"]
    print(f"{m.ID}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct non-trivial, {c['oracle_comparisons']} comparisons, {ev['wall_s']:.1f}s")
    if failure:
        print(failure[1])
        print(f"VIOLATION property={m.ID} replay={path}")
        return 1
    return 0

"""Runs one property: parallel exploration, shrinking, replay, evidence, known findings."""
import hashlib, importlib, json, multiprocessing as mp, os, random, shutil, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))
import build as buildmod
from driver import Worker, Failure, HarnessError
from pbt import Source, Case, Violation, Discard, shrink

class Ctx:
    """given to a property function for one case"""
    def __init__(self, worker, tier, params):
        self.worker, self.tier, self.params = worker, tier, params
        self.np = worker.np if worker else 1
        self.case = Case()
        self.programs = []
        self.known = []
        self.source = None
    def run(self, program, timeout=None):
        # one program in four meets another legal order of message arrival
        if self.np > 1 and self.source is not None and "perturb" not in program and self.source.bool(1, 4):
            mode = self.source.pick([1, 2, 4, 3])
            program = "perturb %d %d\n" % (self.source.int(1, 10**6), mode) + program; self.case.label("perturbed")
        self.programs.append(program)
        return self.worker.run(program, timeout)
    def label(self, *n): self.case.label(*n)
    def nontrivial(self, b=True): self.case.nontrivial = self.case.nontrivial or bool(b)
    @property
    def scratch(self): return self.worker.scratch
    def ensure(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

def load_known():
    """lines 'known: property=<id> key=<key> <text>' and 'fixed: property=...' of known_findings.txt"""
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                f = dict(x.split("=", 1) for x in l.split()[1:3])
                known.setdefault(f["property"], {})[f["key"]] = l.split(None, 3)[3] if len(l.split(None, 3)) > 3 else ""
    return known

def one(prop, worker, tier, params, rng=None, choices=None):
    """returns (Source, Ctx, error or None)"""
    s = Source(rng, choices)
    ctx = Ctx(worker, tier, params); ctx.source = s
    try:
        prop(s, ctx)
        return s, ctx, None
    except Discard:
        return s, ctx, None
    except Violation as e:
        return s, ctx, "mismatch: " + str(e)[:4000]
    except Failure as e:
        return s, ctx, "%s: %s" % (e.kind, e.detail[-5000:])
    except HarnessError:
        raise
    except (KeyError, ValueError, IndexError, TypeError, AttributeError, ZeroDivisionError, OverflowError):
        if not ctx.programs: raise
        # the output cannot be a description of any graph the oracle understands
        return s, ctx, "mismatch: uninterpretable output\n" + traceback.format_exc()[-3000:]

def child(idx, cfg, q):
    try:
        _child(idx, cfg, q)
    except BaseException:
        q.put(("error", idx, traceback.format_exc()))

def _child(idx, cfg, q):
    mod = importlib.import_module(cfg["module"])
    prop = mod.PROPERTY
    params = dict(cfg["params"])
    np_, tier, exe = cfg["np"], cfg["tier"], cfg["exe"]
    worker = Worker(exe, np_, timeout=cfg["timeout"])
    seed = int.from_bytes(hashlib.sha256(("%s/%s/%d/%d" % (cfg["id"], cfg["seed"], idx, np_)).encode()).digest()[:8], "big")
    t0 = time.monotonic()
    stats = dict(np=np_, cases=0, hashes=[], labels={}, samples=[], discarded=0, unreproduced=[], slow=[])
    seen = set()
    known_hit = {}
    hist = []          # choice lists run on the current worker
    for k in range(cfg["cases"]):
        if time.monotonic() - t0 > cfg["budget"]: break
        rng = random.Random(seed * 1000003 + k)
        if worker.proc is None or worker.count >= 400: hist = []
        s, ctx, err = one(prop, worker, tier, params, rng=rng)
        hist.append(list(s.rec))
        stats["cases"] += 1
        for l in ctx.case.labels: stats["labels"][l] = stats["labels"].get(l, 0) + 1
        for kk in ctx.known: known_hit[kk] = known_hit.get(kk, 0) + 1
        if ctx.case.nontrivial:
            h = hashlib.sha1("\n".join(ctx.programs).encode()).digest()
            if h not in seen:
                seen.add(h); stats["hashes"].append(h[:8].hex())
                if len(stats["samples"]) < 3 and (k % 7 == 3 or k > 20):
                    stats["samples"].append(dict(np=np_, choices=len(s.rec), program="\n".join(ctx.programs)[:1500],
                                                 labels=sorted(ctx.case.labels)))
        if err is None: continue
        # -- a failure: does it fail again, on a fresh worker?
        rec = list(s.rec)
        def again(choices, w=worker):
            s2, c2, e2 = one(prop, w, tier, params, choices=choices)
            return (list(s2.rec), e2, c2) if e2 else None
        reps = 0
        # on a loaded machine a case can merely be slow: it hangs when it exceeds a larger limit again
        if err.startswith("hang"): worker.timeout = 1.5 * cfg["timeout"]
        hang = err.startswith("hang")
        for a in range(min(2, cfg["retries"]) if hang else cfg["retries"]):
            worker.stop()
            if again(rec): reps += 1
            if reps >= 1: break
        if reps:
            def fails(c):
                r = again(c)
                return r[0] if r else None
            if err.startswith("hang"): worker.timeout = max(5, cfg["timeout"] / 6)
            small = shrink(rec, fails, min(40, cfg["shrink_seconds"]) if hang else cfg["shrink_seconds"])
            if err.startswith("hang"): worker.timeout = 1.5 * cfg["timeout"]
            # the shrunk case has to stand on its own, three times on fresh workers
            ok = 0; last = None
            for a in range(3):
                worker.stop(); r = again(small)
                if r: ok += 1; last = r
                if ok and hang: break
            if ok == 0:
                small = rec
                for a in range(cfg["retries"]):
                    worker.stop(); r = again(small)
                    if r: ok += 1; last = r
                    if ok >= (1 if hang else 3): break
            if last is not None:
                worker.stop()
                q.put(("fail", idx, dict(np=np_, choices=small, error=last[1], first_error=err, program="\n#---\n".join(last[2].programs),
                                         reproduced="%d" % ok), stats, known_hit))
                return
        # history dependent?
        if len(hist) > 1:
            worker.stop()
            got = None
            for c in hist:
                r = again(c)
                if r: got = r
                if worker.proc is None: break
            if got:
                worker.stop()
                q.put(("fail", idx, dict(np=np_, history=[list(c) for c in hist], choices=rec, error=got[1], first_error=err,
                                         program="\n#---\n".join(got[2].programs), reproduced="history"), stats, known_hit))
                return
        worker.timeout = cfg["timeout"]
        worker.stop(); hist = []
        if hang:
            stats["slow"].append(err[:300])
            if os.environ.get("VERIF_KEEP_SLOW"):
                with open("%s/slow-%s-%d-%d.json" % (os.environ["VERIF_KEEP_SLOW"], cfg["id"], np_, k), "w") as fh:
                    json.dump(dict(np=np_, choices=rec, error=err, program="\n#---\n".join(ctx.programs), module=cfg["module"], tier=tier, params=params), fh)
            continue
        stats["unreproduced"].append(err[:1500])
        if len(stats["unreproduced"]) >= 3:
            q.put(("fail", idx, dict(np=np_, choices=rec, error=err, first_error=err, program="\n#---\n".join(ctx.programs),
                                     reproduced="three different cases failed once each"), stats, known_hit))
            return
    worker.stop()
    q.put(("ok", idx, stats, known_hit))

def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module(d["module"])
    exe = buildmod.build(d.get("variant", "asan"))
    w = Worker(exe, d["np"], timeout=120)
    bad = 0
    for c in d.get("history") or [d["choices"]]:
        s, ctx, err = one(mod.PROPERTY, w, d["tier"], d["params"], choices=c)
        if err:
            bad += 1; print("\n".join(ctx.programs)); print("-> " + err)
    w.stop()
    print("replay: %s" % ("FAILS" if bad else "passes"))
    return 1 if bad else 0

def main(pid, module):
    t0 = time.monotonic()
    seed = os.environ.get("VERIF_SEED", "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    mod = importlib.import_module(module)
    plan = mod.PLAN[tier] if tier in mod.PLAN else mod.PLAN["quick"]
    plan = dict(plan)
    if "VERIF_BUDGET" in os.environ: plan["budget"] = float(os.environ["VERIF_BUDGET"])     # for sweeps by hand
    variant = os.environ.get("VERIF_VARIANT") or plan.get("variant", "asan")
    exe = buildmod.build(variant)
    tb = time.monotonic() - t0
    scratch = tempfile.mkdtemp(prefix="v" + pid, dir=os.environ.get("TMPDIR", "/tmp"))
    os.chmod(scratch, 0o755)
    os.environ["VERIF_SCRATCH"] = scratch
    cfgs = []
    for (np_, cases) in plan["runs"]:
        cfgs.append(dict(id=pid, module=module, np=np_, cases=cases, tier=tier, exe=exe, seed=seed,
                         budget=plan.get("budget", 75 if tier == "quick" else 3000), timeout=plan.get("timeout", 30),
                         retries=plan.get("retries", 3), shrink_seconds=plan.get("shrink", 60 if tier == "quick" else 240),
                         params=plan.get("params", {})))
    q = mp.Queue()
    procs = []
    pending = list(enumerate(cfgs))
    results, fails, errors, known_hits = {}, [], [], {}
    running = {}
    maxpar = plan.get("parallel", 6)
    stop_at = None
    try:
        while pending or running:
            while pending and len(running) < maxpar and not fails and not errors:
                i, c = pending.pop(0)
                p = mp.Process(target=child, args=(i, c, q)); p.start(); running[i] = p
            if (fails or errors): pending = []
            if not running: break
            try:
                m = q.get(timeout=2)
            except Exception:
                dead = [i for i, p in running.items() if not p.is_alive()]
                if dead:
                    try: m = q.get(timeout=2)
                    except Exception:
                        for i in dead: errors.append("child %d died" % i); running.pop(i)
                        continue
                else:
                    if fails and stop_at and time.monotonic() > stop_at:
                        for p in running.values(): p.terminate()
                        break
                    continue
            i = m[1]
            if m[0] == "ok": results[i] = m[2]; kh = m[3]
            elif m[0] == "fail":
                fails.append((i, m[2])); results[i] = m[3]; kh = m[4]
                stop_at = time.monotonic() + 1
            else: errors.append(m[2]); kh = {}
            for k, v in kh.items(): known_hits[k] = known_hits.get(k, 0) + v
            p = running.pop(i, None)
            if p: p.join(timeout=20)
    finally:
        for p in running.values():
            if p.is_alive():
                p.terminate(); p.join(timeout=10)
        os.system("pkill -f %s >/dev/null 2>&1" % (scratch + "/"))
        shutil.rmtree(scratch, ignore_errors=True)
    ev = sum(r["cases"] for r in results.values())
    labels = {}
    for r in results.values():
        for l, n in r["labels"].items(): labels[l] = labels.get(l, 0) + n
    samples = [s for r in results.values() for s in r["samples"]][:8]
    unrep = [u for r in results.values() for u in r["unreproduced"]]
    evidence = dict(property=pid, tier=tier, seed=int(seed) if seed.isdigit() else 0, level="exploration",
                    coverage=dict(evaluations=ev, distinct_nontrivial=len(set(h for r in results.values() for h in r["hashes"])),
                                  rule=mod.RULE, samples=samples or ["none"], labels=labels,
                                  per_np={str(k): v for k, v in _by_np(results).items()},
                                  unreproduced=unrep, slow=[u for r in results.values() for u in r["slow"]], known_findings_hit=known_hits),
                    wall_s=round(time.monotonic() - t0, 1), build_s=round(tb, 1))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(evidence, f, indent=1)
    known = load_known().get(pid, {})
    for k, text in known.items():
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k, text))
    print("%s: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)" % (pid, ev, evidence["coverage"]["distinct_nontrivial"], time.monotonic() - t0, tb))
    print("labels: " + ", ".join("%s=%d" % kv for kv in sorted(labels.items())))
    if unrep: print("unreproduced failures: %d\n%s" % (len(unrep), unrep[0][:600]))
    if errors and not fails:
        print("ERROR of the check:\n" + errors[0]); return 2
    if fails:
        i, f = fails[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rp = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (pid, tier, seed))
        f.update(property=pid, module=module, tier=tier, params=plan.get("params", {}), variant=variant,
                 how_to_replay="cd /verif && python3 lib/runner.py --replay " + rp)
        with open(rp, "w") as fh: json.dump(f, fh, indent=1)
        print("np=%d\n%s" % (f["np"], f["program"][:3000])); print("-> " + f["error"][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if unrep and len(unrep) >= 3:
        print("several different failures that did not repeat"); 
    return 0

def _by_np(results):
    d = {}
    for r in results.values(): d[r["np"]] = d.get(r["np"], 0) + r["cases"]
    return d

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))

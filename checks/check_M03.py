"""M03: diagnostics (log, verbosity, statistics) tell the truth and change nothing."""
from model import *
from bal import *
import hist
RULE = "diagnostics were on during at least three operations on a graph, or a balancing whose report was checked moved vertices, or statistics of a graph with edges were printed; distinct program texts are counted"

def diagnose(s, ctx, H):
    """H with diagnostics switched on and off in between, and the numbers of the marks while the log was open"""
    L, on, marks, n, acts = [], False, [], 0, 0
    every = s.bool(1, 3)
    for l in H:
        op = l.split(" ")
        k = op[1] if op[0].startswith("@") else op[0]
        if k not in ("verts", "vwts", "ghosts", "coords", "edges", "degs", "pins", "ewts", "dest", "mark"):
            if not on and s.bool(1, 2): L.append("logopen"); on = True; ctx.label("log"); marks.append([])
            elif on and s.bool(1, 12): L.append("logclose"); on = False
            if s.bool(1, 4): L.append("verb %d" % s.int(-1, 3)); ctx.label("verbosity")
            if op[0] == "balance": op[3] = str(s.int(-1, 3)); ctx.label("verbose_balance")
            if op[0] == "wbalance": op[6] = str(s.int(-1, 3)); ctx.label("verbose_wbalance")
            acts += 1 if on else 0
            L.append(" ".join(op))
            if on and (every or s.bool(1, 2)): L.append("logmark %d" % n); marks[-1].append(n); n += 1
            if s.bool(1, 6): L.append("verb -1")
        else: L.append(l)
    L += ["verb -1", "logclose"]
    return L, marks, acts

def PROPERTY(s, ctx):
    np = ctx.np
    if s.bool(1, 8): return stats(s, ctx)
    if np > 1 and s.bool(1, 5): return reports(s, ctx)
    H, slots, rich = hist.legal_history(s, ctx, np, (2, 10))
    if not any(l.startswith("fresh") for l in H): return
    for i in sorted(slots): H += ["mark ---", "setorig %d" % i, "dump %d rcow" % i, "getpart %d" % i, "valid %d" % i]
    for i, l in enumerate(H):
        # inputs whose description is long: many priorities, or tolerances with hundreds of digits
        if l.startswith("balance ") and s.bool(1, 5):
            H[i] += " prio -1 %s" % s.pick(["50", "1.05", "1e300"]) * s.pick([1, 4, 30, 90]); ctx.label("long_input")
    D, marks, acts = diagnose(s, ctx, H)
    ctx.nontrivial(acts >= 3)
    quiet = ctx.run("\n".join(H))
    loud = ctx.run("\n".join(D))
    for r in range(np):
        got = [l for l in loud[r] if not l.startswith(("lg ", "bar "))]; ref = [l for l in quiet[r] if not l.startswith("bar ")]
        if got != ref:
            k = next((i for i, (x, y) in enumerate(zip(got, ref)) if x != y), min(len(got), len(ref)))
            need(False, "part %d reports %r with diagnostics, %r without", r, got[k:k + 3], ref[k:k + 3])
    lg = [l[3:] for l in loud[0] if l.startswith("lg ")]
    need([int(l.strip()[4:]) for l in lg if l.strip().startswith("MARK")] == [k for m in marks for k in m], "the log holds the calls %r", lg[-40:])
    for l in lg:
        if l.strip().startswith("MARK"): need(not l.startswith(" "), "a call made after all others have returned is logged inside another one: %r", lg[-40:])
    need(not any(l.startswith("lg ") for r in range(1, np) for l in loud[r]), "another part wrote a log")

def stats(s, ctx):
    np = ctx.np; ctx.label("stats")
    m = gen_model(s, np, nv=(1, 12), max_edges=20, big=False, big_types=True)
    big = s.bool(1, 6)
    L = ["fresh 0"] + stage(m, s, how=s.pick(["v", "a", "c", "f"]) if big else None)
    ne = [len(T) for T in m.types]; npins = [sum(len(m.ends(e)) if m.hyper else 2 for e in T) for T in m.types]
    if big:
        n = s.pick([1000, 30000, 120000]); ctx.label("many_edges")
        # the ghosts are labelled when all types are there
        k = next(i for i, l in enumerate(L) if l.startswith("cghosts")); last = L[k:]; del L[k:]
        have = sum(1 for r in range(np) if m.local(r))
        for _ in range(7 - len(m.types)): L.append("bulkedges 0 %d" % n); ne.append(n * have); npins.append(n * have * (1 if m.hyper else 2))
        L += last
    L += ["pstats 0"]
    ctx.nontrivial(any(ne))
    outs = ctx.run("\n".join(L))
    exp = ["o ENGPAR %s Status" % ("Hyper N-graph" if m.hyper else "N-graph"), "o ENGPAR Vertices: %d" % len(m.verts),
           "o ENGPAR Edges: " + "".join("Type %d: %d " % x for x in enumerate(ne))]
    if m.hyper: exp.append("o ENGPAR Pins: " + "".join("Type %d: %d " % x for x in enumerate(npins)))
    for r in range(np): need([l.split() for l in outs[r] if l.startswith("o ")] == [l.split() for l in exp], "part %d prints %r, expected %r", r, outs[r], exp)

def floats(x): return [float(w) for w in x.split()]

def reports(s, ctx):
    """what the balancer says about imbalances, trimming and the vertices it moved is true; so is its entry in the log"""
    np = ctx.np; ctx.label("reports")
    m = gen_graph(s, ctx, np)
    classify(m, ctx)
    k = s.weighted([(1, 3), (2, 2), (3, 1)])
    prios = [(s.pick([-1] + list(range(len(m.types)))), s.pick([1.0, 1.01, 1.05, 1.1, 1.3, 1.5, 2.0])) for _ in range(k)]
    line, o = gen_balance(s, ctx, m, prios=prios, maxit=s.pick([1, 1, 2, 5, 20]))
    op = line.split(" "); op[3] = str(s.pick([0, 1, 2, 2, 2])); verb = int(op[3]); line = " ".join(op)
    log = s.bool()
    outs = ctx.run("\n".join(["fresh 0"] + stage(m, s) + ["setorig 0"] + (["logopen"] if log else []) + [line + " cap"] + (["logclose"] if log else []) + ["mark ===", "dump 0 w"]))
    m0 = m.copy(); m1 = m.copy()
    adopt(m1, [parse_dump(sections(outs[r])[-1])[0] for r in range(np)], "after balance")
    dims = [-1] + list(range(len(m.types)))
    imbs = lambda x, gh: [imbalance([weight_of(x, r, d, gh) for r in range(np)]) for d in dims]
    same = lambda a, b: len(a) == len(b) and all(x != x and y != y or abs(x - y) < 6e-5 for x, y in zip(a, b))
    for r in range(1, np): need(not [l for l in outs[r] if l.startswith("o ")], "part %d printed %s", r, outs[r])
    O = [l[2:].strip() for l in outs[0] if l.startswith("o ")]
    gh = bool(o.get("ghosts"))
    starts = [l for l in O if "Starting diffusion on" in l]
    steps = [l for l in O if "Imbalances <" in l]; nmig = [int(l.split("Migrating")[1].split()[0]) for l in O if "Migrating" in l]
    reasons = [l.split("due to")[1].strip(" .") for l in O if "due to" in l]
    done = [l for l in O if "Completed diffusion for" in l]
    need(1 <= len(starts) <= k and len(done) == len(starts), "%d criteria, but the balancer reports %s and %s", k, starts, done)
    for (d, tol), a, b in zip(prios, starts, done):
        name = "vertices" if d < 0 else "edge type %d" % d
        need(name + " with" in a and name + " in" in b, "criterion %s is reported as %r and %r", name, a, b)
    exp = imbs(m0, gh); got = floats(starts[0].split("imbalances:")[1])
    need(same(got, exp), "the balancer reports the initial imbalances %s; they are %s", got, exp)
    moved = sum(m0.part(g) != m1.part(g) for g in m0.verts)
    need((verb >= 1) or not steps, "steps are reported at verbosity %d: %s", verb, steps)
    if verb >= 1:
        if steps:
            got = floats(steps[-1].split(">:")[1]); exp = imbs(m1, False)
            need(same(got, exp), "the balancer reports the final imbalances %s; they are %s", got, exp)
        else: need(not moved, "no step is reported; %d vertices moved", moved)
    if verb >= 2:
        need(len(nmig) == len(steps) and len(reasons) == len(done), "bad report %s", O)
        if len(steps) == 1: need(nmig[0] == moved, "the balancer reports %d migrated vertices; %d moved", nmig[0], moved); ctx.label("one_step")
        need(sum(nmig) >= moved, "the balancer reports %s migrated vertices; %d moved", nmig, moved)
        k = 0
        for i, l in enumerate(O):                    # a trimmed plan is what is migrated in that step
            if "Plan was trimmed" in l:
                a, b = int(l.split("from")[1].split()[0]), int(l.split("from")[1].split()[2])
                nx = next((int(x.split("Migrating")[1].split()[0]) for x in O[i:] if "Migrating" in x), None)
                need(b <= a and b == nx, "a plan trimmed from %d to %d vertices; %s migrated", a, b, nx); ctx.label("trim_reported")
        d, tol = prios[len(done) - 1]; last = imbs(m1, gh)[dims.index(d)]
        if reasons[-1] == "target tolerance reached": need(gh and d < 0 or last <= tol + 1e-9, "the balancer reports that tolerance %r was reached; the imbalance is %r", tol, last); ctx.label("reached")
        if reasons[-1] == "nothing was migrated": need(nmig[-1] == 0, "the balancer reports that nothing was migrated, after migrating %d vertices", nmig[-1])
    if log:
        lg = [l[3:] for l in outs[0] if l.startswith("lg ")]
        k = next((i for i, l in enumerate(lg) if l.strip() == "balance() :"), None)
        need(k is not None, "the log does not hold the balancing: %s", lg[:20])
        T = {}
        for l in lg[k + 1:k + 9]:
            a, _, b = l.partition(" :"); T[a.strip()] = b.split()
        need(T.get("priorities") == [str(d) for d, _ in prios] and list(map(float, T.get("tolerances", []))) == [float("%f" % t) for _, t in prios], "balancing %s is logged as %s", prios, T)
        for key, name in (("maxit", "maxIterations"), ("maxper", "maxIterationsPerType"), ("sides", "sides_edge_type"), ("ghosts", "countGhosts")):
            if key == "maxit" or key in line.split(" "): need(T.get(name) == [line.split(" ")[line.split(" ").index(key) + 1]], "%s of %r is logged as %s", name, line, T.get(name))
        need(abs(float(T["step_factor"][0]) - float(op[2])) < 1e-6, "step factor %s is logged as %s", op[2], T["step_factor"])
    ctx.nontrivial(moved > 0)

PLAN = {"quick": {"runs": [(1, 2000), (2, 3000), (3, 3000), (4, 3000), (5, 2000), (7, 1500)], "budget": 40},
        "thorough": {"runs": [(n, 40000) for n in (1, 2, 3, 4, 5, 6, 7, 8)], "budget": 900}}

"""B06: metrics report the true partition statistics."""
from model import *
from bal import *
import math, re
RULE = "some edge is cut and part weights differ; distinct program texts are counted"

def components(m, r):
    """connected components of the local vertices of part r through the edges of type 0"""
    loc = set(m.local(r)); par = {g: g for g in loc}
    def find(x):
        while par[x] != x: x = par[x]
        return x
    for e in m.types[0]:
        ps = [p for p in m.ends(e) if p in loc]
        for p in ps[1:]: par[find(p)] = find(ps[0])
    return len(set(find(g) for g in loc))

def close(a, b, eps=6e-4):
    if math.isnan(a) or math.isnan(b): return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b): return a == b
    return abs(a - b) <= eps + 1e-9 * abs(b)

def ratio(a, b): return a / b if b else float("nan")

def PROPERTY(s, ctx):
    np = ctx.np
    directed = s.bool(1, 6)
    if directed: m = gen_model(s, np, nv=(1, 20), max_edges=30, hyper=False, directed=True)
    else: m = gen_graph(s, ctx, np)
    if s.bool(1, 8):
        for v in m.verts.values(): v[0] *= 1000
    classify(m, ctx)
    name = s.weighted([("", 2), ("p", 2), ("n" * 30, 1), ("z" * 200, 1)])
    order = s.shuffle([["evalp 0" + (" " + name if name else "")], ["metrics 0"]])
    L = ["fresh 0"] + stage(m, s) + ["mark ==="] + order[0] + order[1] + ["mark ===", "dump 0 w"]
    outs = ctx.run("\n".join(L))
    nt = len(m.types)
    W = {(d, gh): [weight_of(m, r, d, gh) for r in range(np)] for d in range(-1, nt) for gh in (False, True)}
    cuts = []
    for t in range(nt): cuts.append([sum(e[2] for e in m.local_edges(t, r) if len(residence(m, e)) > 1) for r in range(np)])
    neigh = []
    for r in range(np):
        n = set()
        for e in m.local_edges(0, r):
            res = residence(m, e)
            if len(res) > 1: n |= res - {r}
        neigh.append(len(n))
    comp = [max(0, components(m, r) - 1) for r in range(np)]
    ctx.nontrivial(any(sum(c) for c in cuts) and len(set(W[(-1, False)])) > 1)
    if any(comp): ctx.label("disconnected")
    if any(not float(x).is_integer() for c in cuts for x in c): ctx.label("fractional_cut")
    for r in range(np):
        secs = sections(outs[r])
        d, _ = parse_dump(secs[1])
        check_content(m, r, d, "after the metrics", coords=False); check_ghosts(m, r, d, "after the metrics", gweights=True); check_counts(m, r, d, "after the metrics")
        o = [l[2:] for l in secs[0] if l.startswith("o ")]
        mine = [l for l in secs[0] if not l.startswith("o ")]
        k = 0
        for dd in range(-1, nt):
            for gh in (0, 1):
                f = mine[k].split(); k += 1
                need(f[:3] == ["w", str(dd), str(gh)], "bad metrics line %r", mine[k - 1])
                exp = W[(dd, bool(gh) and dd < 0)]
                need(abs(float(f[3]) - exp[r]) < 1e-9, "part %d: getWeight(%d,%d)=%s, expected %r", r, dd, gh, f[3], exp[r])
                need(close(float(f[4]), imbalance(exp), 1e-9), "part %d: imbalance of the weights %s reported as %s", r, exp, f[4])
        need(abs(float(mine[k].split()[1]) - W[(-1, False)][r]) < 1e-9, "part %d: getWeight(-1) without ghosts reports %s", r, mine[k])
        for gh in (0, 1):
            k += 1
            f = mine[k].split()
            vals = list(map(float, f[2:]))
            if r: need(not vals, "part %d wrote imbalances", r)
            else:
                exp = [imbalance(W[(dd, bool(gh) and dd < 0)]) for dd in range(-1, nt)]
                need(len(vals) == len(exp) and all(close(a, b, 6e-5) for a, b in zip(vals, exp)), "getImbalances wrote %s, expected %s", vals, exp)
        if r: need(not o, "part %d printed %s", r, o); continue
        if r: continue
        rep = {}
        for l in o:
            if "PARTITION" not in l: continue
            l = l[l.index("PARTITION") + len("PARTITION"):].strip()
            need(l.startswith(name), "the report names %r, not %r", l, name)
            key, val = l[len(name):].lstrip(": ").rsplit(":", 1)
            rep[key.strip()] = val.strip()
        def vals(key):
            need(key in rep, "evaluatePartition did not report %s (%s)", key, sorted(rep))
            return list(map(float, rep[key].split(">")[1].split()))
        def stats(key, x):
            mx, mn, av = max(x), min(x), sum(x) / np
            exp = [mx, mn, av, ratio(mx, av)]
            got = vals(key)
            need(len(got) == 4 and all(close(a, b) for a, b in zip(got, exp)), "evaluatePartition reports %s for %s; the parts have %s", got, key, x)
        def cut(key, x):
            got = vals(key)
            need(len(got) == 2 and close(got[0], max(x)) and close(got[1], sum(x)), "evaluatePartition reports <max,tot> %s for %s; the parts have %s", got, key, x)
        stats("Neighbors", neigh); stats("Local Vertex", W[(-1, False)]); stats("Total Vertex", W[(-1, True)])
        if not directed: cut("Disconnected Components", comp)
        for t in range(nt):
            stats("Edges type %d" % t, W[(t, False)]); cut("Edges type %d Cut" % t, cuts[t])
        e = int(rep["Empty Parts"])
        lo = sum(not m.local(q) for q in range(np)); hi = sum(W[(-1, True)][q] == 0 for q in range(np))
        need(lo <= e <= hi, "evaluatePartition reports %d empty parts; %d have no vertices", e, lo)

PLAN = {"quick": {"runs": [(2, 4000), (3, 4000), (4, 4000), (5, 3000), (7, 2000), (1, 1000)], "budget": 35},
        "thorough": {"runs": [(n, 40000) for n in (1, 2, 3, 4, 5, 6, 7, 8)], "budget": 900}}

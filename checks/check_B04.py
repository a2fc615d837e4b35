"""B04: weight balancing moves weight, never creates or loses it."""
from model import *
from bal import *
from check_B02 import State
RULE = "weight was sent between two vertices; distinct program texts are counted"

def read_wp(sec, i):
    wp = {}
    while i < len(sec) and sec[i].startswith("wp "):
        f = sec[i].split(); k = (int(f[1]), int(f[2]))
        need(k not in wp, "getWeightPartition lists %s twice", k)
        wp[k] = float(f[3]); i += 1
    return wp, i

def report(outs, np, k):
    ds, wps = [], []
    for r in range(np):
        sec = sections(outs[r])[k]
        d, i = parse_dump(sec); wp, i = read_wp(sec, i)
        need(sec[i] == "valid 1 0", "part %d: checkValidity after moving weight: %r", r, sec[i])
        ds.append(d); wps.append(wp)
    return ds, wps
SHOW = ["mark ===", "dump 0 c", "wpart 0", "valid 0"]

def structure(m, ds, what):
    """everything but the weights of the vertices is as in m; returns the new weights"""
    w = {}
    for r, d in enumerate(ds):
        check_content(m, r, d, what, weights=False); check_ghosts(m, r, d, what); check_counts(m, r, d, what)
        for v in d.verts: w[v["gid"]] = v["w"]
    return w

def direct(s, ctx, m):
    """migrate(WeightMigration*) with plans of any shape"""
    np = ctx.np
    L = ["fresh 0"] + stage(m, s); n = s.int(1, 4)
    W = {g: v[0] for g, v in m.verts.items()}; flow = {}; want = []
    for k in range(n):
        for r in range(np):
            loc = m.local(r); oth = sorted(m.ghosts(r)) or []
            ent = []
            if loc:
                for _ in range(s.weighted([(0, 2), (1, 3), (2, 3), (5, 2)])):
                    u = s.pick(loc); pool = oth if oth and s.bool(9, 10) else [x for x in loc if x != u]
                    if not pool: continue
                    v = s.pick(pool); w = s.real(-2, 8, 4) if s.bool(1, 6) else s.real(0, 8, 4)
                    if s.bool(1, 5): w = W[u] - s.pick([0, 0, 1, 1, W[u] / 2])  # all of it, all but one, half
                    ent.append((u, v, w))
            L.append("@%d wsend %s" % (r, " ".join("%d %d %s" % (u, v, num(w)) for u, v, w in ent)))
            for u, v, w in ent:
                W[u] -= w; W[v] += w
                flow[(u, v)] = flow.get((u, v), 0) + w
                flow[(v, u)] = flow.get((v, u), 0) - w
                if w: ctx.nontrivial()
                ctx.label("sent")
                if m.local(m.part(v))[-1] != v: ctx.label("receiver_not_last")
                if m.part(u) == m.part(v): ctx.label("to_own_part")
        L += ["wmigrate 0"]
        how = s.weighted([("", 6), ("resetpart 0", 2), ("resetown 0", 1)])
        if how:
            L.append(how); ctx.label(how[:-2])
            if how == "resetpart 0": flow = {}
        L += SHOW
        want.append((dict(W), dict(flow)))
    outs = ctx.run("\n".join(L))
    for k, (W, F) in enumerate(want):
        what = "after weight migration %d" % (k + 1)
        ds, wps = report(outs, np, k)
        got = structure(m, ds, what)
        for g in W: need(abs(got[g] - W[g]) < 1e-9, "%s: vertex %d weighs %r, expected %r", what, g, got[g], W[g])
        for r in range(np):
            exp = {e: w for e, w in F.items() if m.part(e[0]) == r}
            need(set(wps[r]) == set(exp), "%s: getWeightPartition of part %d has the pairs %s, expected %s", what, r, sorted(wps[r]), sorted(exp))
            for e in exp: need(abs(wps[r][e] - exp[e]) < 1e-9, "%s: getWeightPartition of part %d says %r for %s, expected %r", what, r, wps[r][e], e, exp[e])

def PROPERTY(s, ctx):
    np = ctx.np
    m = gen_graph(s, ctx, np, nv=(2, 24))
    if s.bool(1, 3): return classify(m, ctx) or direct(s, ctx, m)
    scale = s.weighted([(1, 2), (10, 4), (100, 2), (1000, 2), (1 << 24, 1), (1 << 33, 1), (1 << 40, 1)]); eps = max(1, scale >> 10)
    if scale > 1000: ctx.label("huge_weights")
    for v in m.verts.values(): v[0] *= scale
    classify(m, ctx)
    one = s.bool()
    tol = s.pick([1.0, 1.0, 1.05, 1.1, 1.3]); step = s.pick([0.1, 0.1, 0.3, 0.5, 1.0]); t = s.int(0, len(m.types) - 1) if s.bool(1, 3) else 0
    L = ["fresh 0"] + stage(m, s) + ["wbalance 0 %s %s %d %d -1" % (num(tol), num(step), t, 1 if one else s.int(2, 100))] + SHOW
    if s.bool(1, 4) and not one: L += ["wbalance 0 %s %s %d %d -1" % (num(tol), num(step), t, s.int(1, 50))] + SHOW
    outs = ctx.run("\n".join(L))
    for k in range(L.count("mark ===")):
        what = "after balanceWeights %d" % (k + 1)
        ds, wps = report(outs, np, k)
        got = structure(m, ds, what)
        old = {g: v[0] for g, v in m.verts.items()}
        allw = {}
        for r in range(np):
            for (u, v), w in wps[r].items():
                need(m.part(u) == r, "%s: getWeightPartition of part %d sends from vertex %d of part %d", what, r, u, m.part(u))
                need(v in m.ghosts(r), "%s: part %d sends weight to vertex %d, which is not one of its ghosts", what, r, v)
                need(any(u in m.ends(e) and v in m.ends(e) for e in m.types[0]), "%s: weight went from vertex %d to %d, which are not adjacent", what, u, v)
                need(w > 0, "%s: part %d sends %r from %d to %d", what, r, w, u, v)
                allw[(u, v)] = w
        exp = dict(old)
        for (u, v), w in allw.items(): exp[u] -= w; exp[v] += w
        for g in exp:
            need(abs(got[g] - exp[g]) < 1e-6 * eps, "%s: vertex %d weighs %r; it weighed %r and the recorded transfers make that %r", what, g, got[g], old[g], exp[g])
            need(got[g] >= -1e-9 * eps or old[g] < 0, "%s: vertex %d weighs %r", what, g, got[g])
        need(abs(sum(got.values()) - sum(old.values())) < 1e-6 * eps, "%s: the total weight went from %r to %r", what, sum(old.values()), sum(got.values()))
        if allw: ctx.nontrivial(); ctx.label("sent")
        st = State(m, -1, t, False)
        tot = sum(st.w); imb = imbalance(st.w)
        if np > 1 and tot and imb < tol - 1e-9:
            need(not allw, "%s: the imbalance %r is within %r, yet weight moved: %s", what, imb, tol, allw)
        if np == 1: need(not allw, "weight moved in serial")
        if one and np > 1 and tot and imb > tol + 1e-9:
            ctx.label("one_step")
            for p in range(np):
                T = st.targets(m, p, step) if m.hyper is False else targets_nosides(m, st, p, step)
                sent = {}
                for (u, v), w in allw.items():
                    if m.part(u) == p: sent[m.part(v)] = sent.get(m.part(v), 0) + w
                for q, w in sent.items():
                    need(q in T, "%s: part %d (weight %r) sent %r to part %d (weight %r), which is no target", what, p, st.w[p], w, q, st.w[q])
                    need(w <= T[q] + 1e-9 * eps, "%s: part %d sent %r to part %d; its target is %r", what, p, w, q, T[q])
                if not sent:
                    for e in m.local_edges(0, p):
                        mine = [v for v in m.ends(e) if m.part(v) == p]; oth = set(v for v in m.ends(e) if m.part(v) != p)
                        if not mine or not oth: continue
                        w = min(m.verts[v][0] for v in mine)
                        good = [v for v in oth if T.get(m.part(v), 0) >= 1]
                        need(not good or w * 0.1 / len(oth) < 1.001, "%s: part %d sent nothing although vertex %s can send to %s (targets %s)", what, p, mine, good, T)
        for g in got: m.verts[g][0] = got[g]

def targets_nosides(m, st, p, step):
    """the weight balancer ignores the side tolerance"""
    return {q: (st.w[p] - st.w[q]) * (side / st.total[p]) * step for q, side in st.sides[p].items() if st.w[p] > st.w[q] and st.total[p]}

PLAN = {"quick": {"runs": [(2, 4000), (3, 4000), (4, 4000), (5, 3000), (7, 2000), (1, 100)], "budget": 40},
        "thorough": {"runs": [(n, 40000) for n in (2, 3, 4, 4, 5, 6, 7, 8)], "budget": 900}}

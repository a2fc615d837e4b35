"""Generation and oracle of split cases (B05, B08)."""
from model import *
from bal import *

def symmetric(m):
    """merges parallel edges: ParMETIS needs equal weights in both directions"""
    if m.hyper: return
    for t, T in enumerate(m.types):
        w = {}
        for u, v, x in T: w[(min(u, v), max(u, v))] = x
        for e in T: e[2] = w[(min(e[0], e[1]), max(e[0], e[1]))]

def gen(s, ctx, k, method):
    m = gen_model(s, k, large=(1, 40), nv=(k, 30), max_edges=s.pick([10, 30, 60]), ntypes=s.weighted([(1, 5), (2, 3), (3, 1)]), minparts=True, big=method != "zoltan", posw=True)
    # ParMETIS takes whole weights; Zoltan takes fractions too
    kind = s.weighted([("small", 4), ("heavy", 1)] + ([("fractions", 2)] if method == "zoltan" else []))
    if kind != "small": ctx.label(kind + "_weights")
    f = s.pick([700, 40000]) if kind == "heavy" else 1
    whole = lambda w: max(0.25, w) if kind == "fractions" else max(1.0, round(w)) * (f if s.bool(7, 8) else 1)
    for v in m.verts.values(): v[0] = whole(v[0])
    for T in m.types:
        for e in T: e[2] = whole(e[2])
    symmetric(m)
    return m

def close(a, b): return abs(a - b) <= 1e-4 * max(1.0, abs(b))

def spied(lines, *tags):
    return {t: [l.split()[1:] for l in lines if l.split(" ", 1)[0] == t] for t in tags}

def parmetis(m, outs, small, L, k, method, tol, t, factor, what):
    """the graph given to ParMETIS is the graph; returns {vertex: index of the part it chose}"""
    chosen = {}
    S = [spied(outs[small[j]], "pm", "pd", "pv", "pr") for j in range(k)]
    if any(len(x["pm"]) != 1 or len(x["pr"]) != 1 for x in S): return None        # not observed
    start = [0]
    for j in range(k): start.append(start[-1] + len(m.local(j)))
    index = {g: start[j] + i for j in range(k) for i, g in enumerate(m.order[j])}
    local = method == "local"
    for j in range(k):
        pm, pd, pv, pr = (S[j][x] for x in ("pm", "pd", "pv", "pr")); pm = pm[0]
        need([int(x) for x in pm[:4]] == ([0, 1, factor, 1] if local else [j, k, L, 1]), "%s: ParMETIS was called on original part %d with rank, size, parts, constraints %s", what, j, pm[:4])
        need(close(float(pm[4]), tol), "%s: ParMETIS was given the tolerance %s, not %s", what, pm[4], tol)
        tp = [float(x) for x in pm[5:]]
        need(all(close(x, 1.0 / len(tp)) for x in tp), "%s: target weights %s are not uniform", what, tp)
        need([int(x) for x in pd[0]] == ([0, len(m.local(j))] if local else start), "%s: original part %d gave ParMETIS the vertex ranges %s", what, j, pd[0])
        base = start[j] if local else 0
        adj = {g: {} for g in m.local(j)}
        for e in m.local_edges(t, j):
            for u in (m.ends(e) if m.hyper else [e[0]]):
                if m.part(u) != j: continue
                for v in m.ends(e):
                    if v != u and (m.part(v) == j or not local): adj[u][v] = adj[u].get(v, 0) + e[2]
        for i, g in enumerate(m.order[j]):
            row = pv[i]; need(int(row[0]) == int(m.verts[g][0]), "%s: ParMETIS was given the weight %s for vertex %d of weight %s", what, row[0], g, m.verts[g][0])
            got = {}
            for n, w in zip(row[1::2], row[2::2]):
                need(int(n) not in got, "%s: neighbor listed twice for vertex %d", what, g); got[int(n)] = int(w)
            exp = {index[v] - base: int(w) for v, w in adj[g].items()}
            need(got == exp, "%s: the neighbors of vertex %d (number %d) are given to ParMETIS as %s, but are %s", what, g, index[g] - base, got, exp)
            chosen[g] = int(pr[0][i])
    return chosen

def zoltan(m, outs, large, small, L, tol, what):
    S = [spied(outs[large[p]], "zp", "zo", "zg", "zh", "zw", "zr") for p in range(L)]
    if any(len(x["zp"]) != 1 or len(x["zr"]) != 1 for x in S): return None
    chosen = {}
    place = {j: large.index(small[j]) for j in range(len(small))}
    for p in range(L):
        x = S[p]; j = small.index(large[p]) if large[p] in small else None
        loc = m.local(j) if j is not None else []; es = m.local_edges(0, j) if j is not None else []
        need(x["zp"][0][0] == ("HYPERGRAPH" if m.hyper else "GRAPH") and int(x["zp"][0][1]) == L and close(float(x["zp"][0][2]), tol), "%s: Zoltan was called with %s on part %d (%d parts wanted)", what, x["zp"][0], p, L)
        if x["zo"] or not loc:
            got = sorted((int(a), float(b)) for a, b in x["zo"]); exp = sorted((g, m.verts[g][0]) for g in loc)
            need(got == exp, "%s: part %d gave Zoltan the vertices %s, expected %s", what, p, got, exp)
        if x["zg"]:
            for row in x["zg"]:
                g = int(row[0]); got = sorted((int(a), int(b), float(c)) for a, b, c in zip(row[1::3], row[2::3], row[3::3]))
                exp = sorted((e[1], place[m.part(e[1])], e[2]) for e in es if e[0] == g)
                need(got == exp, "%s: part %d gave Zoltan the edges %s of vertex %d (neighbor, owner, weight), expected %s", what, p, got, g, exp)
        if x["zh"]:
            need(len(x["zh"]) == len(loc), "%s: part %d listed the edges of %d vertices, it has %d", what, p, len(x["zh"]), len(loc))
            for row in x["zh"]:
                if row[0] != "1": continue
                g = int(row[1]); got = sorted(map(int, row[2:])); exp = sorted(e[0] for e in es if g in e[1])
                need(got == exp, "%s: part %d gave Zoltan the edges %s of vertex %d, expected %s", what, p, got, g, exp)
        if x["zw"]:
            got = sorted((int(a), float(b)) for a, b in x["zw"]); exp = sorted((e[0], e[2]) for e in es)
            need(got == exp, "%s: part %d gave Zoltan the edge weights %s, expected %s", what, p, got, exp)
        for g in loc: chosen[g] = p
        for a, b in zip(x["zr"][0][0::2], x["zr"][0][1::2]): chosen[int(a)] = int(b)
    return chosen

def split_case(s, ctx, lang=None):
    L = ctx.np
    method = s.weighted([("global", 4), ("local", 4)] + ([] if lang else [("zoltan", 3)]))
    k = s.int(1, max(1, L - 1)) if s.bool(7, 8) else L
    large = s.shuffle(list(range(L)))            # world ranks in the order of the large communicator
    small = s.sample(range(L), k) if s.bool(1, 2) else large[:k]
    m = gen(s, ctx, k, method)
    classify(m, ctx); ctx.label("method_" + method, "orig%d" % k)
    if small != large[:k]: ctx.label("renumbered")
    prog = ["group small " + " ".join(map(str, small)), "group large " + " ".join(map(str, large))]
    prog += switch(L, small, "small") + ["fresh 0"] + place(stage(m, s), small, "small")
    tol = s.pick([1.05, 1.05, 1.1, 1.5]); t = s.int(0, len(m.types) - 1) if method != "zoltan" else 0
    pos = {r: i for i, r in enumerate(large)}    # world rank -> rank in large
    lists = []
    factor = s.int(1, max(1, min(4, L))) if method == "local" else -1
    for j in range(k):
        others = [i for i in range(L) if i != pos[small[j]]]
        kind = s.pick(["own", "any"])
        l = ([pos[small[j]]] + s.sample(others, factor - 1)) if kind == "own" else s.sample(range(L), factor)
        lists.append(l if method == "local" else [])
    for r in range(L):
        j = small.index(r) if r in small else 0
        prog.append("@%d %s %s small large %s %d %d %s" % (r, "csplit 0 " + lang if lang else "split 0", method, num(tol), t, factor, " ".join(map(str, lists[j]))))
    prog += ["mark ===", "comminfo", "dump 0 rc", "valid 0", "getpart 0"]
    outs = ctx.run("\n".join(prog))
    M = Model(m.hyper, L); M.verts = {g: [v[0], None, v[2]] for g, v in m.verts.items()}; M.types = m.types; M.coords = m.coords
    ds, maps = [None] * L, [None] * L
    for r in range(L):
        sec = sections(outs[r])[0]; p = pos[r]
        need(sec[0] == "ci %d %d" % (p, L), "rank %d of the large communicator: PCU reports %s after the split", p, sec[0])
        ds[p], i = parse_dump(sec, 1)
        need(sec[i] == "valid 1 0", "part %d: checkValidity after the split: %s", p, sec[i])
        maps[p], _ = read_map(sec, i + 1)
    adopt(M, ds, "after the split")
    what = "after the split (%s)" % method
    if method == "zoltan":
        chosen = zoltan(m, outs, large, small, L, tol, what)
    else:
        chosen = parmetis(m, outs, small, L, k, method, tol, t, factor, what)
        if chosen is not None and method == "local": chosen = {g: lists[m.part(g)][i] for g, i in chosen.items()}
    if chosen is not None:
        ctx.label("observed")
        for g in chosen: need(M.part(g) == chosen[g], "%s: the partitioner chose part %d for vertex %d; it is on part %d", what, chosen[g], g, M.part(g))
    for p in range(L):
        check_content(M, p, ds[p], what); check_ghosts(M, p, ds[p], what, gweights=True); check_counts(M, p, ds[p], what); check_cut(M, p, ds[p], what)
        exp = {}
        if large[p] in small:
            j = small.index(large[p]); exp = {g: M.part(g) for g in m.local(j)}
            if method == "local":
                for g in exp: need(exp[g] in lists[j], "vertex %d of original part %d went to part %d; the part listed %s", g, j, exp[g], lists[j])
        need(maps[p] == exp, "getPartition of part %d gives %s, expected %s", p, maps[p], exp)
    ctx.nontrivial(any(large[M.part(g)] not in small for g in M.verts))
    w = [weight_of(M, p, -1) for p in range(L)]
    if all(w): ctx.label("all_parts_used")


"""B07: selection queues visit every part-boundary edge exactly once."""
from model import *
from bal import *
from collections import deque
RULE = "a part had a boundary edge, and the queue was a distance queue over edges at several distances or several components, or an iteration queue that skips edges; distinct program texts are counted"

def bfs(adj, src):
    d = {e: 0 for e in src}; Q = deque(src)
    while Q:
        e = Q.popleft()
        for f in adj(e):
            if f not in d: d[f] = d[e] + 1; Q.append(f)
    return d

def PROPERTY(s, ctx):
    np = ctx.np
    kind = s.pick(["iter", "push", "pull"])
    directed = kind == "iter" and s.bool(1, 3)
    shape = s.weighted([("random", 5), ("path", 3)])
    if directed: m = gen_model(s, np, nv=(1, 24), max_edges=40, directed=True, hyper=False)
    else: m = gen_graph(s, ctx, np, max_edges=s.pick([10, 30, 60]))
    if shape == "path": pathify(s, m)
    classify(m, ctx)
    outs = ctx.run("\n".join(["fresh 0"] + stage(m, s) + ["mark ===", "dump 0", "queue 0 " + kind, "dump 0"]))
    if any("unsupported" in o for o in outs): ctx.label("unsupported"); return
    for r in range(np):
        sec = sections(outs[r])[0]
        d, i = parse_dump(sec)
        q = list(map(int, sec[i].split()[1:]))
        d2, _ = parse_dump(sec, i + 1)
        check_content(m, r, d2, "after building a queue", coords=False); check_ghosts(m, r, d2, "after building a queue")
        E = d.types[0]["edges"] if d.types else []
        pins = [e["pins"] for e in E]
        bnd = [k for k, p in enumerate(pins) if any(m.part(v) != r for v in p)]
        need(sorted(q) == bnd, "part %d: the %s queue holds the edges %s; the boundary edges are %s", r, kind, q, bnd)
        if not bnd: continue
        ctx.label(kind)
        if kind == "iter":
            ctx.nontrivial(len(bnd) < len(E)); continue
        # distance: within a component, edges farther from its deepest edges come first
        by = {}
        for k, p in enumerate(pins):
            for v in (p if m.hyper else p[:1]):
                if m.part(v) == r: by.setdefault(v, []).append(k)
        adj = lambda k: [f for v in pins[k] if m.part(v) == r for f in by.get(v, [])]
        depth = bfs(adj, bnd)
        comp, ncomp = {}, 0
        for e in depth:
            if e in comp: continue
            for f in bfs(adj, [e]): comp[f] = ncomp
            ncomp += 1
        ctx.nontrivial(ncomp > 1 or max(depth.values()) > 0)
        if ncomp > 1: ctx.label("components")
        if max(depth.values()) > 1: ctx.label("deep")
        # on a traditional graph edges of one component are not always recognised as connected (an edge does
        # not lead back to the edges that lead to it), so only the set is promised there
        if not m.hyper: continue
        for c in range(ncomp):
            mem = [e for e in depth if comp[e] == c]
            top = max(depth[e] for e in mem)
            dist = bfs(adj, [e for e in mem if depth[e] == top])
            seq = [dist[e] for e in q if comp[e] == c]
            need(seq == sorted(seq, reverse=True), "part %d: the boundary edges %s of one component come in the order of distances %s from its deepest edges", r, [e for e in q if comp[e] == c], seq)

def pathify(s, m):
    """long chains: edges between consecutive vertices, mostly on the same part"""
    g = list(m.verts)
    for i, v in enumerate(g): m.verts[v][1] = min(m.np - 1, i * m.np // max(1, len(g)))
    T = m.types[0] if m.types else None
    if T is None: return
    if m.hyper:
        base = max([e[0] for e in T], default=0) + 1
        m.types[0] = T[:s.int(0, 2)] + [[base + i, (a, b), 1.0] for i, (a, b) in enumerate(zip(g, g[1:]))]
    else:
        new = []
        for a, b in zip(g, g[1:]): new += [[a, b, 1.0], [b, a, 1.0]]
        m.types[0] = new

PLAN = {"quick": {"runs": [(2, 5000), (3, 5000), (4, 5000), (5, 3000), (7, 1500), (1, 600)], "budget": 35},
        "thorough": {"runs": [(n, 40000) for n in (1, 2, 3, 4, 5, 6, 7, 8)], "budget": 900}}

"""G03: second adjacencies are the adjacencies of the chosen edge type."""
from model import *
from hist import gen_history
from collections import Counter
RULE = "an adjacency with at least two entries was requested; distinct program texts are counted"

def PROPERTY(s, ctx):
    np = ctx.np
    m = gen_model(s, np, nv=(1, 12), max_edges=12, ntypes=s.weighted([(2, 4), (1, 3), (3, 3), (7, 1)]), pinless=True, large=(1, 80))
    classify(m, ctx)
    L = ["fresh 0"] + stage(m, s)
    if s.bool(1, 4) and not m.pinless: L += gen_history(m, s, ctx, 1)
    L += ["mark ===", "dump 0"]
    nt = len(m.types)
    made = {}     # (kind, t) -> compress
    seq = []
    for _ in range(s.int(1, 6)):
        kind = s.pick(["vev", "eve"]); t = s.int(0, nt - 1); c = s.bool()
        L.append("mk%s 0 %d %d" % (kind, t, c))
        if (kind, t) in made: ctx.label("remade")
        made[(kind, t)] = c
        # read all that exist so far: creating one must not disturb the others
        for (k2, t2), c2 in sorted(made.items()):
            if s.bool(2, 3) or (k2, t2) == (kind, t):
                L.append("%s 0 %d" % (k2, t2)); seq.append((k2, t2, c2))
    L += ["mark end", "dump 0"]
    outs = ctx.run("\n".join(L))
    for r in range(np):
        lines = outs[r]; i = lines.index("===") + 1; i0 = i
        d, i = parse_dump(lines, i)
        before = lines[i0:i]
        loc = set(v["gid"] for v in d.verts)
        for (kind, t, c) in seq:
            E = d.types[t]["edges"]
            inc = {}
            for e in E:
                for p in (e["pins"] if m.hyper else e["pins"][:1]): inc.setdefault(p, []).append(e)
            if kind == "vev":
                for v in d.verts:
                    g = v["gid"]; f = lines[i].split(); i += 1
                    need(f[0] == "vev" and int(f[1]) == g, "expected vev of vertex %d, got %r", g, f)
                    nb = Counter()
                    for e in inc.get(g, []):
                        for q in (e["pins"] if m.hyper else e["pins"][1:]): nb[q] += 1
                    if c:
                        nb = Counter(x for x in nb if x != g)
                    got = Counter(map(int, f[2:]))
                    if len(nb) > 1: ctx.nontrivial()
                    need(got == nb, "part %d vev type %d compress=%d of vertex %d: %s, expected %s", r, t, c, g, sorted(got.elements()), sorted(nb.elements()))
            else:
                for e in E:
                    f = lines[i].split(); i += 1
                    need(f[0] == "eve" and int(f[1]) == e["lid"], "expected eve of edge %d, got %r", e["lid"], f)
                    nb = Counter()
                    for p in e["pins"]:
                        if p in loc:
                            for o in inc.get(p, []): nb[o["lid"]] += 1
                    if c: nb = Counter(x for x in nb if x != e["lid"])
                    if len(nb) > 1: ctx.nontrivial()
                    got = Counter(map(int, f[2:]))
                    need(got == nb, "part %d eve type %d compress=%d of edge %d: %s, expected %s", r, t, c, e["lid"], sorted(got.elements()), sorted(nb.elements()))
        need(lines[i] == "end", "part %d: extra adjacency output %r", r, lines[i]); i += 1
        d2, i2 = parse_dump(lines, i)
        need(lines[i:i2] == before, "part %d: creating adjacencies changed the graph", r)

PLAN = {"quick": {"runs": [(1, 5000), (2, 4000), (3, 4000), (4, 4000), (5, 2000)], "budget": 40},
        "thorough": {"runs": [(n, 40000) for n in (1, 1, 2, 3, 4, 5, 6)], "budget": 900}}

"""G02: iterators and lookups agree with one graph."""
from model import *
from hist import gen_history
from collections import Counter
RULE = "some vertex has two or more edges of one type; distinct program texts are counted"

def check_trav(m, r, d, lines, i):
    loc = [v["gid"] for v in d.verts]
    for t in range(len(m.types)):
        need(i < len(lines) and lines[i].split() == ["t", str(t)], "traversal of type %d missing: %r", t, lines[i:i + 1]); i += 1
        E = {e["lid"]: e for e in d.types[t]["edges"]}
        inc = {g: Counter() for g in loc}; adj = {g: Counter() for g in loc}
        for e in E.values():
            if m.hyper:
                for p in e["pins"]:
                    if p in inc:
                        inc[p][e["lid"]] += 1
                        for q in e["pins"]: adj[p][(q, e["lid"])] += 1
            else:
                u, v = e["pins"]; inc[u][e["lid"]] += 1; adj[u][(v, e["lid"])] += 1
        for g in loc:
            f = lines[i].split(); i += 1
            need(f[0] == "v" and int(f[1]) == g, "vertex iteration changed: expected vertex %d, got %r", g, f[:3])
            x = f.index("a"); es = list(map(int, f[4:x])); ad = list(map(int, f[x + 1:]))
            need(Counter(es) == inc[g], "part %d vertex %d type %d: edges() gives local edges %s, incident are %s", r, g, t, es, sorted(inc[g]))
            need(int(f[2]) == len(es), "part %d vertex %d type %d: degree %s but %d edges", r, g, t, f[2], len(es))
            got = Counter(zip(ad[::2], ad[1::2]))
            need(got == adj[g], "part %d vertex %d type %d: adjacent() gives (neighbour,edge) %s, expected %s", r, g, t, sorted(got.elements()), sorted(adj[g].elements()))
        for k in range(len(E)):
            f = lines[i].split(); i += 1
            need(f[0] == "e" and int(f[1]) == k, "part %d type %d: edge iteration gives %r as number %d", r, t, f[:2], k)
            e = E[k]
            need(int(f[2]) == len(e["pins"]), "part %d type %d edge %d: degree %s, pins %s", r, t, k, f[2], e["pins"])
            j = 3
            if not m.hyper:
                need(f[3] == "uv" and (int(f[4]), int(f[5])) == e["pins"], "part %d type %d edge %d: u,v = %s, pins %s", r, t, k, f[4:6], e["pins"]); j = 6
            ps = list(map(int, f[j + 1:]))
            need(tuple(ps[::2]) == e["pins"], "part %d type %d edge %d: pins() gives %s, then %s", r, t, k, e["pins"], ps[::2])
            lids = {v["gid"]: v["lid"] for v in d.verts + d.ghosts}
            need(all(lids[g] == l for g, l in zip(ps[::2], ps[1::2])), "part %d type %d edge %d: pins carry wrong local ids %s", r, t, k, ps)
    for v in d.verts + d.ghosts:
        f = list(map(int, lines[i].split()[1:])); need(lines[i][0] == "f", "lookup line missing: %r", lines[i]); i += 1
        need(f == [v["gid"], v["lid"], 1, 1, 0], "part %d lookup of vertex %d (lid %d): gid,lid,findGID equal,find equal,equal to previous = %s", r, v["gid"], v["lid"], f)
    return i

def PROPERTY(s, ctx):
    np = ctx.np
    m = gen_model(s, np, nv=(1, 16), max_edges=20, big_types=True, pinless=True, fine=True, large=(1, 80))
    classify(m, ctx)
    L = ["fresh 0"] + stage(m, s)
    if s.bool(1, 3) and not m.pinless: L += gen_history(m, s, ctx, 1)
    order = s.pick([["dump", "trav", "dump", "trav"], ["trav", "dump", "trav", "dump"], ["dump", "trav", "trav"]])
    for o in order: L += ["mark ===", "dump 0 c" if o == "dump" else "trav 0"]
    outs = ctx.run("\n".join(L))
    for r in range(np):
        secs = sections(outs[r])
        dumps = [x for o, x in zip(order, secs) if o == "dump"]; travs = [x for o, x in zip(order, secs) if o == "trav"]
        first, j = parse_dump(dumps[0]); need(j == len(dumps[0]), "part %d: bad dump", r)
        need(all(x == dumps[0] for x in dumps), "part %d: reading the graph changed what a later read returns", r)
        check_content(m, r, first, "graph"); check_ghosts(m, r, first, "graph")
        for x in travs:
            e = check_trav(m, r, first, x, 0)
            need(e == len(x), "part %d: traversal has extra output %r", r, x[e:e + 2])
    deg = Counter()
    for T in m.types:
        for e in T:
            for p in (m.ends(e) if m.hyper else e[:1]): deg[p] += 1
    ctx.nontrivial(any(c > 1 for c in deg.values()))

PLAN = {"quick": {"runs": [(1, 3000), (2, 3000), (3, 3000), (4, 3000), (5, 3000), (7, 1500)], "budget": 45},
        "thorough": {"runs": [(n, 40000) for n in (1, 2, 3, 4, 5, 6, 7, 8)], "budget": 900}}

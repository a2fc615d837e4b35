"""G01: construction stores exactly the graph it was given."""
from model import *
RULE = "the graph has at least one edge; distinct program texts (data, order, overload, distribution) are counted"
def PROPERTY(s, ctx):
    np = ctx.np
    hyper = s.bool()
    m = gen_model(s, np, hyper=hyper, directed=s.bool(1, 2), nv=(0, 16), max_edges=18, big_types=True, pinless=True, fine=True, large=(1, 80),
                  ntypes=s.weighted([(1, 5), (2, 4), (3, 2), (7, 1), (0, 1)]))
    classify(m, ctx)
    L = ["fresh 0"] + stage(m, s) + ["dump 0 cw"]
    ctx.label("how_" + m.how)
    outs = ctx.run("\n".join(L))
    ctx.nontrivial(any(m.types))
    for r in range(np):
        lines = outs[r]; i = 0
        t = 0
        while i < len(lines) and lines[i].startswith("T "):
            need(int(lines[i].split()[1]) == t, "constructEdges returned type %s, expected %d", lines[i], t); t += 1; i += 1
        d, i = parse_dump(lines, i)
        check_content(m, r, d, "constructed", ordered=True)
        check_ghosts(m, r, d, "constructed", gweights=np > 1)
        check_counts(m, r, d, "constructed")
PLAN = {"quick": {"runs": [(1, 6000), (2, 6000), (3, 6000), (4, 6000), (4, 6000), (5, 4000), (7, 2000)], "budget": 40},
        "thorough": {"runs": [(n, 60000) for n in (1, 2, 3, 4, 5, 6, 7, 8)], "budget": 600}}

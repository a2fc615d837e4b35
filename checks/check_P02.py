"""P02: collectives compute the exact reduction on every process."""
from comm import *
RULE = "at least three collectives on more than one process; distinct program texts are counted"

def PROPERTY(s, ctx):
    np = ctx.np; every = list(range(np))
    S = Script(np); perturbation(S, s, ctx)
    n = s.int(1, 12)
    for k in range(n):
        jitter(S, s, every, 10)
        collective(S, s, ctx, every, "collective %d" % (k + 1))
        if s.bool(1, 8): phase(S, s, ctx, every, "phase after collective %d" % (k + 1), big=False)
    ctx.nontrivial(np > 1 and n > 2)
    S.check(ctx.run("\n".join(S.lines)))

PLAN = {"quick": {"runs": [(2, 3000), (3, 4000), (4, 3000), (5, 3000), (6, 3000), (7, 2000), (1, 500), (8, 1500)], "budget": 30, "parallel": 5},
        "thorough": {"runs": [(n, 60000) for n in (1, 2, 3, 4, 5, 6, 7, 8)], "budget": 900}}

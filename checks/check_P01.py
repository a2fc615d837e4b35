"""P01: phased messaging delivers every message exactly once, intact."""
from comm import *
RULE = "some rank received messages of at least two senders, in one of at least two phases; distinct program texts are counted"

def PROPERTY(s, ctx):
    np = ctx.np; every = list(range(np))
    S = Script(np); perturbation(S, s, ctx)
    order = True; big = s.bool(1, 4); n = s.int(1, 6)
    for k in range(n):
        order = set_order(S, s, ctx, every, order)
        phase(S, s, ctx, every, "phase %d" % (k + 1), big=big, ordered=order)
        if s.bool(1, 5): collective(S, s, ctx, every, "after phase %d" % (k + 1))
    ctx.nontrivial(n > 1 and "several_senders" in ctx.case.labels)
    S.check(ctx.run("\n".join(S.lines)))

PLAN = {"quick": {"runs": [(2, 3000), (3, 4000), (4, 4000), (5, 3000), (7, 2000), (1, 500), (8, 1000)], "budget": 35, "parallel": 4},
        "thorough": {"runs": [(n, 60000) for n in (1, 2, 3, 4, 5, 6, 7, 8)], "budget": 900}}

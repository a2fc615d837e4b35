"""M01: legal call sequences never crash, hang or corrupt memory; what they must conserve is conserved."""
from model import *
from bal import *
import hist
RULE = "at least four modifying operations of three different kinds were applied; distinct program texts are counted"

def PROPERTY(s, ctx):
    np = ctx.np
    L = []
    if s.bool(1, 4): L.append("perturb %d %d" % (s.int(1, 10**6), s.int(1, 4))); ctx.label("perturbed")
    H, slots, rich = hist.legal_history(s, ctx, np)
    L += H
    ctx.nontrivial(rich)
    end = sorted(slots)
    L += ["perturb_off", "mark ===last"]
    for i in end: L += ["mark ---", "dump %d c" % i, "valid %d" % i]
    outs = ctx.run("\n".join(L))
    secs = [sections(o[o.index("===last"):], "---") for o in outs]
    for k, i in enumerate(end):
        m = slots[i]; what = "slot %d at the end" % i
        ds = [parse_dump(secs[r][k]) for r in range(np)]
        adopt(m, [d for d, _ in ds], what)
        tot = sum(v["w"] for d, _ in ds for v in d.verts); exp = sum(v[0] for v in m.verts.values())
        if not getattr(m, "lost", False): need(abs(tot - exp) <= 1e-7 * max(1, abs(exp)), "%s: the vertices weigh %r, expected %r", what, tot, exp)
        for r in range(np):
            d, j = ds[r]
            check_content(m, r, d, what, weights=m.known); check_counts(m, r, d, what)
            if not getattr(m, "loose", False): check_ghosts(m, r, d, what)
            need(secs[r][k][j] == "valid 1 0", "%s: checkValidity of part %d: %s", what, r, secs[r][k][j])

PLAN = {"quick": {"runs": [(1, 2000), (2, 3000), (3, 3000), (4, 3000), (5, 2000), (7, 1500)], "budget": 45},
        "thorough": {"runs": [(n, 40000) for n in (1, 2, 3, 4, 5, 6, 7, 8)], "budget": 900}}

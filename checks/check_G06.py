"""G06: migration leaves a correct ghost layer."""
from model import *
import check_G05
RULE = check_G05.RULE

def judge(m, r, sec, what, k):
    d, j = parse_dump(sec)
    need(sorted(v["gid"] for v in d.verts) == sorted(m.local(r)), "%s: part %d has the vertices %s", what, r, [v["gid"] for v in d.verts])
    check_ghosts(m, r, d, what, gweights=True)
    check_counts(m, r, d, what)
    need(sec[j] == "valid 1 0", "%s: part %d: checkValidity says %r", what, r, sec[j])

def PROPERTY(s, ctx): check_G05.run(s, ctx, judge, "w", lambda m: ["valid 0"])
PLAN = check_G05.PLAN

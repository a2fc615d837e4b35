"""P06: misuse and input/output failures stop the program, they never go unnoticed."""
from comm import *
from model import *
import check_P04, check_P05
import struct
RULE = "a file was cut, a disk was full or PCU was misused at least twice; distinct program texts are counted"

def stopped(what):
    return line_is("gd stopped", what)
def went_on(what): return line_is("gd went on", what)

ALWAYS = ["self", "peers", "rank", "size", "begin", "start", "send", "listen", "receive", "read", "sender", "from", "received", "unpacked", "order",
          "barrier", "addd", "addl", "mini", "maxi", "mind", "maxd", "exi", "exl", "or", "and", "adds", "debugopen", "debugprint", "switch", "comm", "free", "pack 0 8", "write 0 8",
          "packed 0", "unpack 4", "extract 4", "procself", "procpeers"]

def misuse(s, ctx):
    """calls of PCU at the wrong time or with a rank that does not exist, between and inside phases that must not suffer"""
    np = ctx.np; every = list(range(np)); S = Script(np); perturbation(S, s, ctx)
    P = [g for g in check_P05.groups(s, np)]; count = [0]
    for j, g in enumerate(P): S.lines.append("group g%d %s" % (j, " ".join(map(str, g))))
    order = True
    def bad(r, k, n, state, packed=None):
        ranks = [-1, n, n + s.int(0, 5), 2**31 - 1, -2**31]
        if state == "idle": call = s.pick(["pack %d 8" % s.int(0, n - 1), "write %d 8" % s.int(0, n - 1), "packed %d" % s.int(0, n - 1), "send", "listen", "receive", "read", "init", "pack %d 8" % s.pick(ranks)])
        elif state == "pack":
            c = ["begin", "start", "listen", "receive", "read", "init", "pack %d 8" % s.pick(ranks), "pack %d 0" % s.pick(ranks), "write %d 8" % s.pick(ranks), "packed %d" % s.pick(ranks)]
            none = [t for t in range(n) if not packed(k, t)]
            if none: c.append("packed %d" % s.pick(none))
            call = s.pick(c)
        else: call = s.pick(["begin", "start", "send", "pack %d 8" % s.int(0, n - 1), "write %d 8" % s.int(0, n - 1), "packed %d" % s.int(0, n - 1), "init"])
        count[0] += 1; ctx.label("state_" + state, "call_" + call.split()[0])
        S.add(r, "guard pcu " + call); S.expect[r].append(stopped("rank %d of %d calls %s while %s" % (k, n, call, state)))
    def hook(g):
        def fn(state, packed):
            for k, r in enumerate(g):
                for _ in range(s.weighted([(0, 4), (1, 2), (2, 1)])): bad(r, k, len(g), state, packed)
        return fn
    for step in range(s.int(1, 4)):
        if s.bool(1, 3): cur = [("g%d" % j, g) for j, g in enumerate(P)] + [("self", [r]) for r in every if not any(r in g for g in P)]
        else: cur = [("world", every)]
        for name, g in cur:
            for r in g: S.add(r, "usecomm " + name)
        if s.bool(1, 3): order = s.bool(); [S.add(r, "order %d" % order) for r in every]
        for name, g in cur:
            hook(g)("idle", None)
            if s.bool(3, 4): phase(S, s, ctx, g, "a phase with misuse", big=False, ordered=order, hook=hook(g))
            else: collective(S, s, ctx, g, "after misuse")
            hook(g)("idle", None)
    S.lines += ["usecomm world", "order 1"]
    phase(S, s, ctx, every, "after misuse", big=False)
    ctx.nontrivial(count[0] > 1)
    S.check(ctx.run("\n".join(S.lines)))

def uninit(s, ctx):
    np = ctx.np; every = list(range(np)); S = Script(np)
    S.lines.append("pcufree")
    calls = s.sample(ALWAYS, s.int(2, 8))
    for c in calls:
        ctx.label("before_init")
        for r in every: S.add(r, "guard pcu " + c); S.expect[r].append(stopped("rank %d calls %s before PCU_Comm_Init" % (r, c)))
    S.lines.append("pcuinit")
    for r in every: S.add(r, "guard pcu init"); S.expect[r].append(stopped("rank %d calls PCU_Comm_Init twice" % r))
    phase(S, s, ctx, every, "after misuse", big=False)
    ctx.nontrivial()
    S.check(ctx.run("\n".join(S.lines)))

def overrun(s, ctx):
    """more is read from a message than it holds"""
    np = ctx.np; every = list(range(np)); S = Script(np); ctx.label("overrun")
    S.lines.append("order %d" % s.bool())
    n, m = s.int(1, 50), s.int(0, 49)
    for r in every: S.add(r, "pbegin"); S.add(r, "pack %d %d 3" % ((r + 1) % np, n)); S.add(r, "psend"); S.add(r, "pcu listen")
    m = min(m, n)
    for r in every:
        if m: S.add(r, "pcu unpack %d" % m)
        S.add(r, "guard pcu %s %d" % (s.pick(["unpack", "extract"]), n - m + s.weighted([(1, 4), (s.int(1, 9), 3), (2**33, 1)])))
        S.expect[r].append(stopped("rank %d reads past the end of a message" % r))
    ctx.nontrivial()
    try: S.check(ctx.run("\n".join(S.lines), timeout=20))
    finally: ctx.worker.stop()

def texts(s, ctx):
    D = [x for x in check_P04.items(s, ctx)]
    w = " ".join("%s %d %s" % (k, len(v), " ".join(map(str, v))) if k in "ud" else "%s x%s" % (k, v.hex()) for k, v in D)
    r = " ".join(k if k == "s" else "%s %d" % (k, len(v)) for k, v in D)
    return D, w, r

def cut(s, n):
    """a length below n"""
    k = s.weighted([("any", 4), ("last", 3), ("block", 2), ("first", 1)])
    if k == "any": return s.int(0, n - 1)
    if k == "last": return max(0, n - s.int(1, 8))
    if k == "block": return min(n - 1, n // 4096 * 4096 + s.int(-2, 2)) if n > 4096 else n // 2
    return s.int(0, min(n - 1, 3))

def truncated(s, ctx):
    np = ctx.np; S = Script(np); every = list(range(np)); some = False; ctx.label("cut_stream"); reads = []
    for r in every:
        D, w, rd = texts(s, ctx); n = len(check_P04.layout(D)); S.add(r, "iow t%d %s" % (r, w)); S.expect[r].append(line_is("iow 1", "rank %d writes" % r))
        reads.append((n, rd))
    for r in every:
        n, rd = reads[r]
        if n and s.bool(3, 4):
            c = cut(s, n); some = True
            S.add(r, "cutfile t%d %d" % (r, c)); S.add(r, "guard ior t%d %s" % (r, rd)); S.expect[r].append(stopped("rank %d reads %d bytes of a file cut to %d" % (r, n, c)))
        else:
            S.add(r, "guard ior t%d %s" % (r, rd)); S.expect[r].append(lambda lines, i: i + 1); S.expect[r].append(went_on("rank %d reads a whole file" % r))
    ctx.nontrivial(some)
    S.check(ctx.run("\n".join(S.lines)))

def graphs(s, ctx):
    """saveToFile on a disk that fills up, loadFromFile of a file cut short"""
    np = ctx.np; every = list(range(np))
    big = s.bool(1, 4)
    m = gen_model(s, np, nv=(100, 250) if big else (1, 14), max_edges=200 if big else 14, big=False)
    build = ["fresh 0"] + stage(m, s)
    o = ctx.run("\n".join(build + ["save 0 w"] + ["@%d fsize w_%d.bgd" % (r, r) for r in every]))
    sizes = []
    for r in every:
        l = o[r][-1].split(); need(l[0] == "fs" and len(l) == 3, "part %d has saved no file", r)
        sizes.append((int(l[1]), l[2]))
    S = Script(np); S.lines += build + ["mark ==="]; some = False
    for r in every: S.expect[r].append(lambda lines, i: lines.index("===", i) + 1)
    if s.bool():
        ctx.label("save_full")
        for r in every:
            n = sizes[r][0]; lim = cut(s, n) if s.bool(2, 3) else n + s.int(0, 10)
            what = "part %d saves %d bytes to a device with room for %d" % (r, n, lim); some |= lim < n
            S.add(r, "room %d save 0 f %s" % (lim, s.pick(["x", "c", "f"])))
            S.expect[r].append((stopped if lim < n else went_on)(what))
            if lim >= n: S.add(r, "fsize f_%d.bgd" % r); S.expect[r].append(line_is("fs %d %s" % sizes[r], what))
    else:
        ctx.label("load_cut")
        S.lines.append("fresh 1")
        for r in every:
            n = sizes[r][0]
            # several parts: all are cut before the first collective step
            c = cut(s, n) if np == 1 else min(n - 1, s.int(0, 7 + 12 * len(m.local(r))))
            S.add(r, "save 0 w"); S.add(r, "cutfile w_%d.bgd %d" % (r, c)); S.add(r, "guard load 1 w %s" % s.pick(["x", "c", "f"]))
            S.expect[r].append(stopped("part %d loads a file of %d bytes that was cut to %d" % (r, n, c))); some = True
        S.lines.append("leave 1")
    ctx.nontrivial(some)
    S.check(ctx.run("\n".join(S.lines)))

def unopened(s, ctx):
    np = ctx.np; every = list(range(np)); S = Script(np); ctx.label("cannot_open")
    m = gen_model(s, np, nv=(1, 8), ntypes=1, big=False)
    S.lines += ["fresh 0"] + stage(m, s) + ["fresh 1", "mark ==="]
    for r in every: S.expect[r].append(lambda lines, i: lines.index("===", i) + 1)
    S.lines += ["wrfile plain x00"]
    for _ in range(s.int(1, 3)):
        op = s.pick(["load 1 nosuch", "load 1 no/such/dir", "load 1 plain/x", "save 0 plain/x", "save 0 plain/y/z", "bingraph", "part", "part", "iow no/such/file u 1 5", "ior nosuch u 1"])
        if op == "bingraph": op = "bingraph 2 nosuch.bin"
        if op == "part":
            # a part file that does not exist or has no line for the last vertices
            n = s.int(1, 12); k = s.int(0, n - 1); name = s.pick(["nosuch.part", "short.part"])
            S.lines += ["wrfile g.bin x" + b"".join(struct.pack("<ii", *e) for e in [(i, (i + 1) % n) for i in range(n)]).hex(),
                        "wrfile short.part x" + "".join("%d\n" % s.int(0, np - 1) for _ in range(k)).encode().hex()]
            op = "bingraph 2 g.bin " + name; ctx.label("part_file")
        if op.split()[0] in ("load", "save"): op += " " + s.pick(["x", "c", "f"])
        for r in every: S.add(r, "guard " + op); S.expect[r].append(stopped("part %d: %s" % (r, op)))
        if op.startswith("load"): S.lines += ["leave 1", "fresh 1"]
    S.lines += ["dump 0 rc", "valid 0"]
    for r in every: S.expect[r].append(check_P05.graph_is(m, r))
    ctx.nontrivial()
    S.check(ctx.run("\n".join(S.lines)))

def queries(s, ctx):
    np = ctx.np; every = list(range(np)); S = Script(np); ctx.label("queries")
    m = gen_model(s, np, nv=(1, 10), ntypes=1, big=False)
    S.lines += ["fresh 0"] + stage(m, s) + ["mark ==="]
    for r in every: S.expect[r].append(lambda lines, i: lines.index("===", i) + 1)
    for r in every:
        S.add(r, "guard badcoord 0"); S.expect[r].append(stopped("part %d asks for the coordinates of a ghost" % r))
        k = s.pick(["update", "count", "time", "max", "callmax", "callavg", "avg"])
        S.add(r, "guard badtimer " + k); S.expect[r].append(stopped("part %d uses a timer that was never added (%s)" % (r, k)))
    ctx.nontrivial()
    S.check(ctx.run("\n".join(S.lines)))

def disk(s, ctx):
    np = ctx.np; S = Script(np); every = list(range(np)); some = False; ctx.label("full_stream")
    for r in every:
        D, w, rd = texts(s, ctx); n = len(check_P04.layout(D))
        lim = cut(s, n) if n and s.bool(2, 3) else n + s.int(0, 100); some |= lim < n
        what = "rank %d writes %d bytes to a device with room for %d" % (r, n, lim)
        S.add(r, "room %d iow t%d %s" % (lim, r, w))
        if lim < n: S.expect[r].append(stopped(what))
        else:
            S.expect[r].append(line_is("iow 1", what)); S.expect[r].append(went_on(what))
            S.add(r, "fsize t%d" % r)
            S.expect[r].append(lambda lines, i, n=n, what=what: (need(lines[i].split()[1] == str(n), "%s: the file holds %s bytes", what, lines[i].split()[1]), i + 1)[1])
    ctx.nontrivial(some)
    S.check(ctx.run("\n".join(S.lines)))

def PROPERTY(s, ctx):
    s.weighted([(misuse, 6), (uninit, 1), (overrun, 0.15), (disk, 3), (truncated, 3), (graphs, 4), (unopened, 1.5), (queries, 0.7)])(s, ctx)

PLAN = {"quick": {"runs": [(1, 2500), (2, 3000), (3, 3000), (4, 3000), (5, 2000), (7, 1500)], "budget": 35},
        "thorough": {"runs": [(n, 40000) for n in (1, 2, 3, 4, 5, 6, 7, 8)], "budget": 900}}

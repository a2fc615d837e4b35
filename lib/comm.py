"""Generated communication scripts for PCU: phases, collectives, communicator switches, with their oracle."""
import zlib
from model import Violation, need, num

def pattern(p, n):
    a, c = p * 37 + 11, 2 * (p % 100) + 1
    base = bytes((a + c * k) & 255 for k in range(min(n, 251)))
    return (base * (n // 251 + 1))[:n] if n else b""

class Script:
    """program lines, and for every world rank the consumers of its output lines"""
    def __init__(self, np):
        self.np, self.lines = np, []
        self.expect = [[] for _ in range(np)]
        self.ordered = [True] * np
        self.after = []            # checks that need several ranks' results
        self.values = {}
    def add(self, r, op): self.lines.append("@%d %s" % (r, op))
    def check(self, outs):
        for r in range(self.np):
            i = 0
            for fn in self.expect[r]: i = fn(outs[r], i)
            need(i == len(outs[r]), "rank %d reports more than expected: %s", r, outs[r][i:i + 3])
        for fn in self.after: fn()

def jitter(S, s, members, rate=6):
    for r in members:
        if s.bool(1, rate): S.add(r, "delay %d" % s.pick([20, 100, 400, 1500]))

def gen_size(s, big):
    k = s.weighted([("tiny", 8), ("zero", 2), ("small", 6), ("eager", 2), ("large", 1 if big else 0), ("huge", 0.15 if big else 0)])
    if k == "tiny": return s.int(1, 16)
    if k == "zero": return 0
    if k == "small": return s.int(1, 200)
    if k == "eager": return s.pick([1000, 4000, 4096, 4097, 8192, 5000]) + s.int(0, 3)
    if k == "large": return s.int(30000, 200000)
    return s.int(10**6, 2 * 10**6)

def phase(S, s, ctx, members, what, big=True, ordered=True, hook=None):
    n = len(members)
    shape = s.weighted([("sparse", 5), ("random", 4), ("all", 2), ("ring", 2), ("gather", 1), ("scatter", 1), ("silent", 1), ("self", 1)])
    framed = s.bool(1, 4)
    sends = []                                   # per member: list of (to, size, pattern)
    for k in range(n):
        L = []
        def put(to): L.append((to, gen_size(s, big), s.int(0, 999)))
        if shape == "sparse":
            for _ in range(s.int(0, 2)): put(s.int(0, n - 1))
        elif shape == "random":
            for _ in range(s.int(0, 7)): put(s.int(0, n - 1))
        elif shape == "all":
            for to in s.shuffle(list(range(n))):
                for _ in range(s.int(1, 2)): put(to)
            L = s.shuffle(L)
        elif shape == "ring": put((k + 1) % n)
        elif shape == "gather": put(0)
        elif shape == "scatter" and k == n - 1:
            for to in range(n): put(to)
        elif shape == "self": put(k)
        sends.append(L)
    ctx.label("shape_" + shape, "framed" if framed else "packed", "ordered" if ordered else "unordered")
    # begin
    jitter(S, s, members)
    old = s.bool(1, 8)
    for r in members: S.add(r, "pbegin" + (" 1" if old else ""))
    if hook: hook("pack", lambda k, to: False)
    for k, r in enumerate(members):
        L = sends[k]
        cut = s.int(0, len(L)) if len(L) > 1 and s.bool(1, 3) else len(L)
        for part in (L[:cut], L[cut:]):
            if part: S.add(r, ("write " if framed else "pack ") + " ".join("%d %d %d" % x for x in part))
        if L and s.bool(1, 4):
            tos = sorted(set(x[0] for x in L))
            S.add(r, "packed " + " ".join(map(str, tos)))
            exp = "pk" + "".join(" %d %d" % (t, sum(x[1] + (8 if framed else 0) for x in L if x[0] == t)) for t in tos)
            S.expect[r].append(line_is(exp, "%s: rank %d asks for the bytes packed" % (what, k)))
    if s.bool(1, 8): collective(S, s, ctx, members, what + ", while packing"); ctx.label("collective_in_phase")
    jitter(S, s, members)
    if hook: hook("pack", lambda k, to: any(x[0] == to for x in sends[k]))
    for r in members: S.add(r, "psend")
    if hook: hook("receive", None)
    if s.bool(1, 8): collective(S, s, ctx, members, what + ", after sending"); ctx.label("collective_in_phase")
    jitter(S, s, members)
    for k, r in enumerate(members):
        got = {}
        for j in range(n):
            mine = [x for x in sends[j] if x[0] == k]
            if mine: got[j] = mine
        if got: ctx.label("delivered")
        if len(got) > 1: ctx.label("several_senders")
        if framed:
            S.add(r, "pread")
            S.expect[r].append(frames(got, ordered, "%s: rank %d" % (what, k)))
        else:
            mode = s.pick(["recv", "listen"])
            S.add(r, "%s %d" % (mode, s.int(0, 10**6)))
            full = {j: b"".join(pattern(p, z) for _, z, p in v) for j, v in got.items()}
            if mode == "recv": full = {j: b for j, b in full.items() if b}
            if any(len(b) > 20000 for b in full.values()): ctx.label("big_message")
            if any(not b for b in full.values()): ctx.label("empty_message")
            S.expect[r].append(messages(full, ordered, "%s: rank %d" % (what, k)))
    return any(sends)

def line_is(exp, what):
    def fn(lines, i):
        need(i < len(lines) and lines[i] == exp, "%s: reported %r, expected %r", what, lines[i] if i < len(lines) else None, exp)
        return i + 1
    return fn

def messages(full, ordered, what):
    def fn(lines, i):
        seen = []
        while i < len(lines) and lines[i].startswith("rx "):
            need("EARLY" not in lines[i] and "CHANGED" not in lines[i], "%s: a message ended early or was interrupted: %s", what, lines[i])
            f = list(map(int, lines[i].split()[1:])); i += 1
            need(len(f) == 5, "%s: incomplete message %s", what, lines[i - 1])
            snd, frm, n, c, done = f
            need(snd == frm, "%s: PCU_Comm_Sender says %d and PCU_Comm_From %d", what, snd, frm)
            need(snd not in seen, "%s received two messages of rank %d", what, snd)
            need(snd in full, "%s received a message of rank %d, which sent nothing", what, snd)
            need(n == len(full[snd]), "%s received %d bytes of rank %d, which sent %d", what, n, snd, len(full[snd]))
            need(c == zlib.crc32(full[snd]), "%s received other bytes of rank %d than it sent", what, snd)
            need(done == 1, "%s: the message of rank %d is not reported as unpacked", what, snd)
            seen.append(snd)
        need(i < len(lines) and lines[i] == "end", "%s: no end of phase: %s", what, lines[i:i + 1])
        need(sorted(seen) == sorted(full), "%s received messages of the ranks %s, expected %s", what, sorted(seen), sorted(full))
        if ordered: need(seen == sorted(seen), "%s: messages came in the order %s with ordering on", what, seen)
        return i + 1
    return fn

def frames(got, ordered, what):
    exp = {j: [(z, zlib.crc32(pattern(p, z))) for _, z, p in v] for j, v in got.items()}
    def fn(lines, i):
        have, order = {}, []
        while i < len(lines) and lines[i].startswith("rd "):
            frm, snd, n, c = map(int, lines[i].split()[1:]); i += 1
            need(frm == snd, "%s: PCU_Comm_Read says rank %d, PCU_Comm_Sender %d", what, frm, snd)
            need(not order or order[-1] == frm or frm not in order, "%s: the messages of rank %d are interleaved with others", what, frm)
            if not order or order[-1] != frm: order.append(frm)
            have.setdefault(frm, []).append((n, c))
        need(i < len(lines) and lines[i] == "end", "%s: no end of phase: %s", what, lines[i:i + 1])
        need(have == exp, "%s read the messages (size, checksum) %s, expected %s", what, have, exp)
        if ordered: need(order == sorted(order), "%s: messages came in the order %s with ordering on", what, order)
        return i + 1
    return fn

KINDS = ["addd", "mind", "maxd", "addi", "mini", "maxi", "addl", "adds", "mins", "maxs", "exi", "exl", "or", "and", "barrier"]
def collective(S, s, ctx, members, what, kind=None):
    n = len(members)
    kind = kind or s.pick(KINDS)
    ctx.label("coll_" + kind)
    if kind == "barrier":
        ent, ext = {}, {}
        for r in members:
            S.add(r, "barrier")
            def fn(lines, i, r=r):
                f = lines[i].split(); need(f[0] == "bar", "%s: bad line %s", what, lines[i])
                ent[r], ext[r] = int(f[1]), int(f[2]); return i + 1
            S.expect[r].append(fn)
        def fin(): need(min(ext.values()) >= max(ent.values()), "%s: a process left the barrier %d ns before the last one entered it", what, max(ent.values()) - min(ext.values()))
        S.after.append(fin)
        return
    one = kind in ("or", "and") or s.bool(1, 3)
    k = 1 if one else s.weighted([(1, 3), (2, 3), (5, 3), (0, 1), (60, 1), (1500, 0.3)])
    if k > 100 and "d" not in kind: k = 300
    fam = "d" if kind in ("addd", "mind", "maxd") else "i" if kind in ("addi", "mini", "maxi", "exi", "or", "and") else "l" if kind in ("addl", "exl") else "s"
    style = s.pick(["small", "wide", "same"])
    def val():
        if k > 100: return (s.int(0, 1) * 7919 + len(vals) * 31) % 1000
        if kind in ("or", "and"): return s.int(0, 1)
        if fam == "d": return float(s.int(-1000, 1000)) / 8 if style != "wide" else float(s.int(-2**50, 2**50))
        if fam == "i": return s.int(-1000, 1000) if style != "wide" else s.int(-2**31, 2**31 - 1) // (n if kind in ("addi", "exi") else 1)
        if fam == "l": return s.int(-1000, 1000) if style != "wide" else s.int(-2**63, 2**63 - 1) // n
        return s.int(0, 1000) if style != "wide" else s.int(0, 2**64 - 1) // (n if kind == "adds" else 1)
    vecs = []
    for j in range(n):
        vals = []
        for _ in range(k): vals.append(val())
        if style == "same" and j: vals = list(vecs[0])
        vecs.append(vals)
    op = kind + ("1" if one and kind not in ("or", "and") else "")
    for j, r in enumerate(members):
        if kind in ("exi", "exl"): exp = [sum(vecs[q][x] for q in range(j)) for x in range(k)]
        elif kind.startswith("add"): exp = [sum(vecs[q][x] for q in range(n)) for x in range(k)]
        elif kind.startswith("min") or kind == "and": exp = [min(vecs[q][x] for q in range(n)) for x in range(k)]
        else: exp = [max(vecs[q][x] for q in range(n)) for x in range(k)]
        S.add(r, "coll %s %s" % (op, " ".join(num(v) if fam == "d" else str(v) for v in vecs[j])))
        def fn(lines, i, j=j, exp=exp):
            need(i < len(lines), "%s: no result", what)
            f = lines[i].split()
            got = [float(x) if fam == "d" else int(x) for x in f[2:]]
            need(f[:2] == ["c", op] and got == exp, "%s: %s on rank %d of %d gives %s, expected %s; inputs %s", what, op, j, n, got[:8], exp[:8], [v[:8] for v in vecs])
            return i + 1
        S.expect[r].append(fn)

def perturbation(S, s, ctx):
    if s.bool(3, 4):
        mode = s.int(1, 4); S.lines.append("perturb %d %d" % (s.int(0, 10**6), mode)); ctx.label("perturb%d" % mode)

def set_order(S, s, ctx, members, cur):
    if s.bool(1, 3):
        cur = not cur
        for r in members: S.add(r, "order %d" % cur)
    return cur

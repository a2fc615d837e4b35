"""P04: stream files round-trip typed data in a fixed byte layout."""
from comm import *
import os, struct
RULE = "values of at least three kinds, one of them of several bytes, were written and read; distinct program texts are counted"

def items(s, ctx):
    L = []
    for _ in range(s.int(0, 7)):
        k = s.pick("udsb")
        n = s.weighted([(1, 4), (0, 1), (3, 3), (17, 2), (400, 0.4)])
        ctx.label("kind_" + k)
        if s.bool(1, 25):        # more than any block a buffer may have
            n = s.weighted([(s.int(0, 10000), 2), (2 ** s.int(8, 13) + s.int(-2, 2), 3)]); a, c = s.int(0, 2**64 - 1) | 1, s.int(0, 2**64 - 1)
            v = [(a * i + c) * 0x9E3779B97F4A7C15 % 2**64 for i in range(n)]; ctx.label("large")
            L.append((k, [x >> 32 for x in v] if k == "u" else v if k == "d" else bytes((x >> 40) % 255 + 1 for x in v))); continue
        if k == "u": L.append((k, [s.pick([0, 1, 255, 256, 2**31, 2**32 - 1]) if s.bool(1, 3) else s.int(0, 2**32 - 1) for _ in range(n)]))
        elif k == "d":
            v = []
            for _ in range(n):
                c = s.int(0, 4)
                v.append(struct.unpack("<Q", struct.pack("<d", s.pick([0.0, -0.0, 1.0, 1e308, 5e-324, float("inf"), -1.5])))[0] if c < 2 else (s.int(0, 2**32 - 1) << 32) | s.int(0, 2**32 - 1))
            L.append((k, v))
        elif k == "s": L.append((k, bytes(s.int(1, 255) for _ in range(n))))
        else: L.append((k, bytes(s.int(0, 255) for _ in range(n))))
    return L

def layout(L):
    b = b""
    for k, v in L:
        if k == "u": b += struct.pack(">%dI" % len(v), *v)
        elif k == "d": b += struct.pack(">%dQ" % len(v), *v)
        elif k == "s": b += v + b"\0"
        else: b += v
    return b

def PROPERTY(s, ctx):
    np = ctx.np
    L = []; data = []
    for r in range(np):
        D = items(s, ctx); data.append(D)
        L.append("@%d iow f%d " % (r, r) + " ".join("%s %d %s" % (k, len(v), " ".join(map(str, v))) if k in "ud" else "%s x%s" % (k, v.hex()) for k, v in D))
    shift = s.int(0, np - 1)                     # every rank reads the file of another one
    L.append("coll addi1 0")
    for r in range(np):
        q = (r + shift) % np
        L.append("@%d ior f%d " % (r, q) + " ".join(k if k == "s" else "%s %d" % (k, len(v)) for k, v in data[q]))
    us = [s.int(0, 2**32 - 1) for _ in range(s.int(0, 3))]; ds = [(s.int(0, 2**32 - 1) << 32) | s.int(0, 2**32 - 1) for _ in range(s.int(0, 3))]
    L += ["swapu " + " ".join(map(str, us)), "swapd " + " ".join(map(str, ds))]
    pre = s.pick(["p", "out_", "a" * 40]); ext = s.pick(["txt", "b", "x" * 20])
    for r in range(np): L.append("@%d popen %s %s x%s" % (r, pre, ext, (b"r%d" % r).hex()))
    outs = ctx.run("\n".join(L))
    ctx.nontrivial(any(len(set(k for k, _ in D)) > 2 and any(k in "ud" and v for k, v in D) for D in data))
    for r in range(np):
        o = outs[r]
        need(o[0] == "iow 1", "writing changed the caller's data (%s)", o[0])
        exp = layout(data[r])
        with open(os.path.join(ctx.scratch, "f%d" % r), "rb") as f: got = f.read()
        need(got == exp, "rank %d: the file holds %s, expected %s", r, got[:200].hex(), exp[:200].hex())
        q = (r + shift) % np
        want = []
        for k, v in data[q]: want += list(map(str, v)) if k in "ud" else ["x" + v.hex()]
        need(o[2].split() == ["ior"] + want, "rank %d read %s, expected %s", r, o[2].split()[1:][:20], want[:20])
        need(list(map(int, o[3].split()[1:])) == [struct.unpack("<I", struct.pack(">I", x))[0] for x in us], "pcu_swap_unsigneds of %s gives %s", us, o[3])
        need(list(map(int, o[4].split()[1:])) == [struct.unpack("<Q", struct.pack(">Q", x))[0] for x in ds], "pcu_swap_doubles of %s gives %s", ds, o[4])
        need(o[5] == "po 1", "pcu_open_parallel failed")
        p = os.path.join(ctx.scratch, "%s%d.%s" % (pre, r, ext))
        need(os.path.exists(p) and open(p).read() == "r%d" % r, "pcu_open_parallel did not write %s", os.path.basename(p))

PLAN = {"quick": {"runs": [(1, 4000), (2, 4000), (3, 3000), (5, 1500)], "budget": 25},
        "thorough": {"runs": [(n, 60000) for n in (1, 2, 3, 4, 5, 7)], "budget": 600}}

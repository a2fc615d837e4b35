"""M02: operations give back the memory and the files they take."""
import struct
from model import *
from bal import *
from comm import Script, phase, collective
RULE = "the repeated block acted on a graph with at least two vertices or sent messages; distinct program texts are counted"
REPEAT = 9

def acts(s, ctx, m, np, slot=0):
    L = ["setorig %d" % slot]
    some = lambda: "dest " + " ".join("%d %d" % (g, s.int(0, np - 1)) for g in m.verts if s.bool(2, 3))
    T = len(m.types)
    for _ in range(s.int(1, 3)):
        a = s.pick(["migrate", "repart", "balance", "wbalance", "eval", "metrics", "save", "load", "tags", "second", "queue", "remove", "getpart", "valid", "trav", "rebuild", "plan", "vtk", "wmigrate", "c", "reset", "weights", "dump", "gtag", "stats", "coords"])
        t = s.int(0, T - 1)
        ctx.label("act_" + a)
        if a == "migrate": L += [some(), "migrate %d%s" % (slot, s.pick(["", " timed"]))]
        elif a == "repart": L += [some(), "repart %d" % slot]
        elif a == "balance": L += [gen_balance(s, ctx, m, maxit=s.int(1, 6))[0]]
        elif a == "wbalance": L += ["wbalance %d 1 0.5 %d %d -1" % (slot, t, s.int(1, 4))]
        elif a == "eval": L += ["evalp %d" % slot]
        elif a == "metrics": L += ["metrics %d" % slot]
        elif a == "save": L += ["save %d a" % slot]
        elif a == "load": L += ["save %d a" % slot] + (["load %d a" % slot, "setorig %d" % slot] if s.bool() else ["fresh 3", "load 3 a", "destroy 3"])
        elif a == "tags":
            k = s.int(1, 3)
            L += ["mktag %d %d %s %d" % (i, slot, s.pick("idl"), s.int(-1, T - 1)) for i in range(k)] + ["filltag 0 3"] + ["rmtag %d" % i for i in s.shuffle(list(range(k)))]
        elif a == "second":
            made = set()
            for _ in range(s.int(1, 6)):
                k = s.pick("ve"); t = s.int(0, T - 1)
                if (k, t) in made and s.bool(1, 3): L.append("%s %d %d" % ("vev" if k == "v" else "eve", slot, t))
                else: L.append("mk%s %d %d %d" % ("vev" if k == "v" else "eve", slot, t, s.int(0, 1))); made.add((k, t))
        elif a == "queue": L += ["queue %d %s" % (slot, s.pick(["iter", "push", "pull"]))]
        elif a == "remove": L += ["removeedges %d %d" % (slot, T - 1)]; break
        elif a == "rebuild": L += stage(m, s, slot=slot); L += ["setorig %d" % slot]
        elif a == "plan": L += ["mgnew 0 %d" % slot, "mgins 0 %d 0 %d" % (slot, s.int(0, np - 1)), s.pick(["mgdump 0 %d" % slot, "mgclear 0"]), "mgdel 0"]
        elif a == "vtk":
            if m.coords: L += ["vtk %d v" % slot]
        elif a == "c": L += ["getpart %d" % slot, "ceval %d %s" % (slot, s.pick(["c", "f"])), "cbalance %d %s 0.1 -1 prio -1 1.05 maxit 2" % (slot, s.pick(["c", "f"]))]
        elif a == "wmigrate": L += ["wmnew 0 %d" % slot, "wmins 0 %d 0 1 0.5" % slot, "wmdel 0"]
        elif a == "reset": L += [s.pick(["resetown %d", "resetpart %d"]) % slot, "setorig %d" % slot]
        elif a == "dump": L += ["dump %d %s" % (slot, s.pick(["r", "rc", "w", "ro"]))]
        elif a == "gtag": L += ["mkgtag 5 %d %s 7" % (slot, s.pick("idl")), "rmtag 5"]
        elif a == "stats": L += ["printstats %d" % slot]
        elif a == "coords": L += ["setcoords %d" % slot]
        elif a == "weights": L += ["setew %d %d 2" % (slot, t)]
        else: L += [{"getpart": "getpart %d", "valid": "valid %d", "trav": "trav %d"}[a] % slot]
    return L

def PROPERTY(s, ctx):
    np = ctx.np
    kind = s.weighted([("graph", 6), ("split", 2 if np > 1 else 0), ("comm", 2), ("file", 1), ("life", 0.7)])
    ctx.label(kind)
    pre = []
    if kind == "graph":
        m = gen_graph(s, ctx, np, big=False, nv=(2, 24)); classify(m, ctx)
        l = s.pick(["", "", "c", "f"])
        B = ["fresh 0 " + l] + stage(m, s, how=s.pick([None, None, "c", "f"])) + acts(s, ctx, m, np) + ["destroy 0 " + l]
        ctx.nontrivial(len(m.verts) > 1)
    elif kind == "split":
        import split
        method = s.pick(["global", "local", "zoltan"]); k = s.int(1, np - 1)
        m = split.gen(s, ctx, k, method); classify(m, ctx)
        small = list(range(k)); pre = ["group small " + " ".join(map(str, small))]
        B = switch(np, small, "small") + ["fresh 0"] + place(stage(m, s), small, "small")
        f = s.int(1, np); call = s.pick(["split 0", "csplit 0 c", "csplit 0 f"]) if method != "zoltan" else "split 0"
        for r in range(np): B.append("@%d %s %s small world 1.05 0 %d %s" % (r, call, method, f if method == "local" else -1, " ".join(map(str, s.sample(list(range(np)), f))) if method == "local" else ""))
        B += acts(s, ctx, m, np) if s.bool(1, 3) else ["getpart 0"]
        B += ["destroy 0"]; ctx.label("method_" + method)
        ctx.nontrivial(len(m.verts) > 1)
    elif kind == "life":
        S = Script(np); mem = list(range(np)); B = S.lines
        S.lines.append("engfinal " + s.pick("xcf"))
        own = s.bool()
        if own: S.lines.append("pcufree")
        if own and s.bool(): S.lines.append("pcuinit"); own = False
        S.lines.append("enginit x %d" % s.pick([-1, 0]))
        for i in range(s.int(1, 4)):
            a = s.pick(["phase", "order", "switch", "pdebug", "debug", "log"])
            if a == "phase": phase(S, s, ctx, mem, "phase", ordered=True)
            elif a == "order": S.lines += ["order 0", "order 1"]
            elif a == "switch": S.lines += ["usecomm self", "engswitch world"]
            elif a == "pdebug": S.lines += ["pdopen", "pdprint 1"]
            elif a == "debug": S.lines += ["verb 0", "edopen " + s.pick(["o", "e"]), "say status 1"] + (["edclose"] if s.bool() else []) + ["verb -1"]
            elif a == "log" and "logopen" not in S.lines: S.lines += ["logopen"]
        S.lines.append("engfinal x")
        if not own: S.lines.append("pcufree")
        S.lines += ["pcuinit", "enginit x -1"]; ctx.nontrivial()
    elif kind == "file":
        if s.bool():
            n = s.int(1, 12); E = [(s.int(0, n - 1), s.int(0, n - 1)) for _ in range(s.int(1, 30))]; n = max(map(max, E)) + 1
            pre = ["wrfile g.bin x" + b"".join(struct.pack("<ii", *e) for e in E).hex()]; uf = s.bool()
            if uf: pre.append("wrfile g.part x" + "".join("%d\n" % s.int(0, np - 1) for _ in range(n)).encode().hex())
            B = ["bingraph 0 g.bin" + (" g.part" if uf else ""), "destroy 0"]; ctx.label("bingraph")
        else:
            D = [(k, [s.int(0, 2**31) for _ in range(s.int(0, 20))]) for k in s.sample(["u", "d", "s"], s.int(1, 3))]
            B = ["@%d iow f%d " % (r, r) + " ".join("s x" + "41" * len(v) if k == "s" else "%s %d %s" % (k, len(v), " ".join(map(str, v))) for k, v in D) for r in range(np)]
            B += ["@%d ior f%d " % (r, r) + " ".join("s" if k == "s" else "%s %d" % (k, len(v)) for k, v in D) for r in range(np)] + ["popen a .b x41"]; ctx.label("pcu_io")
        ctx.nontrivial()
    else:
        S = Script(np)
        mem = s.shuffle(list(range(np))); pre = ["group g " + " ".join(map(str, mem))]
        ordered = s.int(0, 1)
        S.lines.append(s.pick(["usecomm g", "engswitch g"])); S.lines.append("order %d" % ordered)
        for i in range(s.int(1, 3)):
            if s.bool(): phase(S, s, ctx, mem, "phase", ordered=ordered)
            else: collective(S, s, ctx, mem, "collective")
        S.lines.append("usecomm world"); B = S.lines; ctx.nontrivial()
    L = pre
    for _ in range(REPEAT): L = L + B + ["barrier", "heap"]
    L += ["mark ===", "heapout"]
    outs = ctx.run("\n".join(L))
    for r in range(np):
        sec = sections(outs[r])[0]
        for name, line in zip(("bytes of memory", "open files"), sec[:2]):
            h = list(map(int, line.split()[1:]))
            need(len(h) == REPEAT, "harness: %s", line)
            g = [b - a for a, b in zip(h, h[1:])][1:]
            need(min(g) <= 0, "repeating the same block on rank %d, every repetition leaves %s behind (%s)", r, name, g)
            if any(g): ctx.label("varied")

PLAN = {"quick": {"runs": [(1, 3000), (2, 3000), (3, 3000), (4, 2000), (5, 1500)], "budget": 40},
        "thorough": {"runs": [(n, 30000) for n in (1, 2, 3, 4, 5, 7)], "budget": 900}}

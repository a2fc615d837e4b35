"""Creates /verif/seeded/<id>/ from an edit of /repo and a demonstration."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(HERE))
def mk(id, prop, edits, np, demo, needs, breaks):
    S = "/tmp/mkseed"
    if not os.path.isdir(S): subprocess.check_call(["git", "clone", "-q", "/repo", S])
    subprocess.check_call("git fetch -q origin && git reset -q --hard origin/HEAD && git clean -qfd", shell=True, cwd=S)
    for f, old, new in edits:
        p = os.path.join(S, f); s = open(p).read()
        assert s.count(old) == 1, "%s: %d occurrences of %r in %s" % (id, s.count(old), old, f)
        open(p, "w").write(s.replace(old, new))
    BASE = "a778256"
    for f in {e[0] for e in edits}:
        own = set()
        for l in subprocess.check_output(["git", "blame", "-l", "-s", "--abbrev=40", BASE + "..HEAD", "--", f], cwd=S, text=True).splitlines():
            if not l.startswith("^"): own.add(int(l.split(")")[0].split()[-1]))
        cur = None
        for l in subprocess.check_output(["git", "diff", "-U0", "--", f], cwd=S, text=True).splitlines():
            if l.startswith("@@"):
                a = l.split()[1][1:].split(","); st = int(a[0]); n = int(a[1]) if len(a) > 1 else 1
                for k in range(st, st + n):
                    if k in own: print("%s: %s:%d is a line of ours" % (id, f, k))
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "diff"], cwd=S, text=True))
    shutil.copy(os.path.join(HERE, "common.h"), d)
    open(os.path.join(d, "demo.sh"), "w").write(open(os.path.join(HERE, "demo.sh")).read().replace("@NP@", str(np)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.cpp"), "w").write('#include "common.h"\n' + demo.strip() + "\n" if "#include \"common.h\"" not in demo else demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)

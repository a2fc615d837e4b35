"""Builds the worker (harness + /repo's current sources) into /verif/build/<variant>.

Every source of /repo below agi/, support/, pcu/, partition/ and interfaces/{binGraph,cengpar}.cpp is
globbed at build time, so that the tree that is checked is always the current one.  Objects are rebuilt
when the hash of (command, preprocessed dependencies) changes: we use ninja with depfiles for that.
"""
import fcntl, glob, hashlib, os, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

class BuildError(Exception):
    pass

def repo_sources():
    src = []
    for d in ("agi", "support", "pcu", "partition"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            dirs[:] = [x for x in dirs if x not in ("Coloring", "test", "tests", "build", "_build")]
            for f in sorted(files):
                if f.endswith((".c", ".cpp", ".cc")) and f != "engpar_version.cpp":
                    src.append(os.path.join(root, f))
    for f in ("binGraph.cpp", "cengpar.cpp"):
        src.append(os.path.join(REPO, "interfaces", f))
    return src

def include_dirs():
    inc = [os.path.join(REPO, "interfaces"), os.path.join(REPO, "partition")]
    for d in ("agi", "support", "pcu", "partition"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            dirs[:] = [x for x in dirs if x not in ("test", "tests")]
            if any(f.endswith((".h", ".hpp")) for f in files):
                inc.append(root)
    return sorted(set(inc))

def build(variant="asan", fortran=False, quiet=True):
    """returns the path of the worker executable"""
    bdir = os.path.join(VERIF, "build", variant)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(VERIF, "build", variant + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(variant, bdir, quiet)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()

def _build(variant, bdir, quiet):
    flags = "-g -O1 -fno-omit-frame-pointer -w"
    ld = ""
    defs = "-DHAS_PARMETIS -DHAS_ZOLTAN -DENGPAR_HAS_MALLINFO2 "
    if "long" in variant:
        defs += "-DLOCAL_ID_TYPE=int64_t -DLOCAL_ID_FTYPE=C_INT64_T "
        lidf = "C_INT64_T"
    else:
        defs += "-DLOCAL_ID_TYPE=int32_t -DLOCAL_ID_FTYPE=C_INT32_T "
        lidf = "C_INT32_T"
    if "asan" in variant:
        flags += " -fsanitize=address -fno-common"
        ld += " -fsanitize=address"
    if "ubsan" in variant:
        u = " -fsanitize=undefined,float-cast-overflow -fno-sanitize=alignment,vptr,nonnull-attribute,pointer-overflow,null -fno-sanitize-recover=undefined"
        flags += u; ld += u
    inc = " ".join("-I" + d for d in include_dirs())
    inc += " -I/usr/include/trilinos -I" + os.path.join(VERIF, "harness")
    lines = ["ninja_required_version = 1.3", "flags = %s" % flags, "defs = %s" % defs, "inc = %s" % inc,
             "rule cxx\n command = mpicxx -std=gnu++11 $flags $defs $inc -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
             "rule hcxx\n command = mpicxx -std=c++17 $flags $defs $inc -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
             "rule ocxx\n command = mpicxx -std=c++17 $flags $defs $inc -MMD -MF $out.d -c $in -o $out || mpicxx -x c++ $flags -MMD -MF $out.d -c /dev/null -o $out\n depfile = $out.d\n deps = gcc",
             "rule cc\n command = mpicc $flags $defs $inc -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc",
             "rule link\n command = mpicxx -g -Wl,--wrap=ParMETIS_V3_PartKway,--wrap=Zoltan_Set_Fn,--wrap=Zoltan_Set_Param,--wrap=Zoltan_LB_Partition,--wrap=exit,--wrap=_ZN6engpar7balanceEPNS_5InputEi %s $in -o $out -lparmetis -lmetis /usr/lib/x86_64-linux-gnu/libtrilinos_zoltan.so -lgfortran -lm" % ld,
             "rule ftn\n command = cd $dir && mpifort -cpp -g -O1 %s -DLOCAL_ID_FTYPE=%s -I%s/agi -J. -c $in -o $out" % ("", lidf, REPO)]
    objs = []
    for s in repo_sources():
        o = "repo/" + os.path.relpath(s, REPO).replace("/", "_") + ".o"
        lines.append("build %s: %s %s" % (o, "cc" if s.endswith(".c") else "cxx", s))
        objs.append(o)
    for s in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp"))):
        o = "h/" + os.path.basename(s) + ".o"
        lines.append("build %s: %s %s" % (o, "ocxx" if os.path.basename(s).startswith("opt_") else "hcxx", s))
        objs.append(o)
    f90 = os.path.join(REPO, "ftn", "engpar.f90")
    fh = os.path.join(VERIF, "harness", "fwrap.f90")
    if os.path.exists(f90) and os.path.exists(fh):
        fd = os.path.join(bdir, "f"); os.makedirs(fd, exist_ok=True)
        lines.append("build %s/engpar.f90.o: ftn %s\n dir = %s" % (fd, f90, fd))
        lines.append("build %s/fwrap.f90.o: ftn %s | %s/engpar.f90.o\n dir = %s" % (fd, fh, fd, fd))
        objs += [fd + "/engpar.f90.o", fd + "/fwrap.f90.o"]
    lines.append("build worker: link %s" % " ".join(objs))
    lines.append("default worker")
    text = "\n".join(lines) + "\n"
    nf = os.path.join(bdir, "build.ninja")
    old = open(nf).read() if os.path.exists(nf) else None
    if old != text:
        with open(nf, "w") as f: f.write(text)
    r = subprocess.run(["ninja", "-C", bdir, "-k", "0"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout[-6000:])
    if not quiet: print(r.stdout[-2000:])
    return os.path.join(bdir, "worker")

if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        print(build(v, quiet=False))

#!/usr/bin/env python3
"""Builds the library from /repo's current working tree in the flavours the
simulator needs, and the simulator.  Everything goes to /verif/build/<key>,
where the key is a hash of all inputs, so that an unchanged tree is not rebuilt."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENVV = dict(os.environ, PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", CC="/usr/bin/gcc", CXX="/usr/bin/g++", FC="/usr/bin/gfortran", LC_ALL="C")
for k in ("CFLAGS", "CXXFLAGS", "FFLAGS", "CPPFLAGS", "LDFLAGS"):
    ENVV.pop(k, None)

class BuildError(Exception):
    pass

def run(cmd, cwd=None, log=None):
    p = subprocess.run(cmd, cwd=cwd, env=ENVV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def par(cmds):
    ps = [(c, subprocess.Popen(c, env=ENVV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cmds]
    bad = None
    for c, p in ps:
        out, _ = p.communicate()
        if p.returncode and bad is None:
            bad = BuildError("%s\n%s" % (" ".join(c), out[-4000:]))
    if bad:
        raise bad

def files_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def repo_files():
    out = [os.path.join(REPO, "CMakeLists.txt")]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs]
    for p in glob.glob(os.path.join(REPO, "test", "**", "CMakeLists.txt"), recursive=True):
        out.append(p)
    return out

INST = "-fsanitize=thread -fsanitize-coverage=trace-pc,trace-cmp"
FLAVOURS = {"native": "", "inst": INST}
TARGETS = ["polylogarithm_c", "polylogarithm_cpp", "polylogarithm_fortran"]

def build_lib(flavour, bdir):
    """The three static libraries as /repo's own build files make them."""
    d = os.path.join(bdir, "lib_" + flavour)
    fl = FLAVOURS[flavour]
    cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo", "-Wno-dev",
           "-DCMAKE_POSITION_INDEPENDENT_CODE=ON", "-DBUILD_SHARED_LIBS=OFF"]
    if fl:
        cmd += ["-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY", "-DCMAKE_C_FLAGS=" + fl, "-DCMAKE_CXX_FLAGS=" + fl, "-DCMAKE_Fortran_FLAGS=" + fl]
    run(cmd)
    run(["ninja", "-C", d] + TARGETS)
    libs = [p for p in glob.glob(os.path.join(d, "src", "**", "*.a"), recursive=True)]
    if len(libs) != 3:
        raise BuildError("expected three libraries, found %s" % libs)
    # all members, renamed uniquely
    od = os.path.join(bdir, "obj_" + flavour)
    os.makedirs(od)
    objs = []
    for lib in sorted(libs):
        sub = os.path.join(od, os.path.basename(lib)[:-2])
        os.makedirs(sub)
        run(["ar", "x", lib], cwd=sub)
        objs += sorted(glob.glob(sub + "/*.o"))
    return objs

def redirect(objs, bdir, flavour):
    """Route the mathematical library (and, if instrumented, block memory
    operations) of the code under test to the simulator's seams."""
    names = run([sys.executable, os.path.join(VERIF, "sim", "libm.py"), "names"]).split()
    und = set()
    for o in objs:
        for line in run(["nm", "-u", o]).splitlines():
            p = line.split()
            if len(p) == 2:
                und.add(p[1])
    ren = {}
    for n in names:
        if n in und:
            ren[n] = "sim_" + n
        if "__%s_finite" % n in und:
            ren["__%s_finite" % n] = "sim_" + n
    if flavour == "inst":
        for n in ("memcpy", "memmove", "memset"):
            if n in und:
                ren[n] = "sim_" + n
    m = os.path.join(bdir, "redirect_" + flavour)
    with open(m, "w") as f:
        for k in sorted(ren):
            f.write("%s %s\n" % (k, ren[k]))
    for o in objs:
        run(["objcopy", "--redefine-syms=" + m, o])
    passed = sorted(u for u in und if u not in ren and not u.startswith("_ZN13polylogarithm") and not u.startswith("__tsan") and not u.startswith("__sanitizer"))
    return sorted(ren), passed

INC = ["-I", REPO + "/src/c", "-I", REPO + "/src/cpp", "-I", REPO + "/src/fortran", "-I", REPO + "/src"]

def build_harness(hdir):
    S = os.path.join(VERIF, "sim")
    inc = os.path.join(hdir, "libm_seam.inc")
    with open(inc, "w") as f:
        f.write(run([sys.executable, os.path.join(S, "libm.py"), "cpp"]))
    cxx = ["g++", "-O2", "-g1", "-std=gnu++17", "-fno-threadsafe-statics", "-fPIC", "-w", "-c"]
    cc = ["gcc", "-O2", "-g1", "-std=gnu11", "-fexceptions", "-fPIC", "-w", "-c"]
    cmds = []
    for f in sorted(glob.glob(S + "/*.cpp")):
        b = os.path.basename(f)
        if b.startswith("api_"):
            continue
        cmds.append(cxx + [f, "-o", os.path.join(hdir, b + ".o")])
    L = os.path.join(S, "life")
    cmds.append(cxx + [L + "/driver.cpp", "-o", hdir + "/driver.o"])
    cmds.append(cxx + ["-DLIFE_NOLIB", L + "/driver.cpp", "-o", hdir + "/driver_nolib.o"])
    cmds.append(cxx + [L + "/so.cpp", "-o", hdir + "/so.o"])
    cmds.append(cc + [L + "/stub.c", "-o", hdir + "/stub.o"])
    cmds.append(cc + ["-fno-builtin", "-I", hdir, os.path.join(S, "libm_seam.c"), "-o", os.path.join(hdir, "libm_seam.o")])
    par(cmds)

def build_life(bdir, seed, nexe, nso):
    """Executables and shared libraries with seeded link orders and link modes
    for the simulated process lives (C08)."""
    d = os.path.join(bdir, "life_%d_%d_%d" % (seed, nexe, nso))
    lock = open(os.path.join(bdir, "life.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(d + "/index"):
        return d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    hdir = open(bdir + "/hdir").read()
    index = life_variants(d, seed, nexe, nso, sorted(glob.glob(bdir + "/plain/*/*.o")), [bdir + "/api_c.o", bdir + "/api_cpp.o"], hdir,
                          sorted(glob.glob(bdir + "/lib_native/src/**/*.a", recursive=True)))
    os.makedirs(d + "/control")
    life_variants(d + "/control", seed, nexe, nso, [], [hdir + "/stub.o"], hdir, [])
    with open(d + "/index", "w") as f:
        f.write("\n".join(index) + "\n")
    return d

def life_variants(d, seed, nexe, nso, objs, api, hdir, archives):
    import random
    R = random.Random("life%d" % seed)
    tail = ["-lgfortran", "-lquadmath", "-lm", "-ldl", "-lpthread"]
    index = ["id %d %d %d" % (seed, nexe, nso)]
    sos = []; cmds = []
    def shuffled(l):
        r = random.Random(R.random()); l = list(l); r.shuffle(l); return l
    for i in range(nso):
        o = shuffled(objs + api + [hdir + "/so.o"])
        fl = R.choice([[], ["-Wl,-z,now"], ["-Wl,-Bsymbolic"], ["-Wl,-z,initfirst"], ["-Wl,-z,nodelete"], ["-Wl,--gc-sections"]])
        if i == 0: fl = []
        sos.append("so%d.so" % i)
        index.append("so so%d.so shared %s" % (i, " ".join(fl)))
        cmds.append(["g++", "-shared", "-o", d + "/so%d.so" % i] + fl + o + tail)
    par(cmds); cmds = []
    kinds = ["objects", "archives", "shared", "nolib", "static", "objects", "shared", "objects"]
    for i in range(nexe):
        kind = "objects" if i == 0 else kinds[i % len(kinds)]
        fl = [] if i == 0 else R.choice([[], ["-no-pie"], ["-Wl,-z,now"], ["-Wl,-z,lazy"], ["-rdynamic"], ["-Wl,--gc-sections"]])
        exe = d + "/exe%d" % i
        if kind == "objects":
            o = objs + api + [hdir + "/driver.o"]
            if i: o = shuffled(o)
            cmds.append(["g++", "-o", exe] + fl + o + tail)
        elif kind in ("archives", "static"):
            arc = shuffled(archives)
            if kind == "static": fl = ["-static"] if R.random() < 0.5 else ["-static-pie"]
            cmds.append(["g++", "-w", "-o", exe] + fl + [hdir + "/driver.o"] + api + ["-Wl,--start-group"] + arc + ["-Wl,--end-group"] + tail)
        elif kind == "shared":
            so = R.choice(sos)
            fl = [f for f in fl if f != "-no-pie"]
            cmds.append(["g++", "-o", exe] + fl + [hdir + "/driver.o", d + "/" + so, "-Wl,-rpath," + d] + tail)
        else:
            cmds.append(["g++", "-o", exe] + fl + [hdir + "/driver_nolib.o"] + tail)
        index.append("exe exe%d %s %s" % (i, kind, " ".join(fl)))
    par(cmds)
    return index

def build(verbose=False):
    root = os.path.join(VERIF, "build")
    os.makedirs(root, exist_ok=True)
    lock = open(os.path.join(root, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    simfiles = [p for p in glob.glob(VERIF + "/sim/**", recursive=True) if os.path.isfile(p)] + [os.path.abspath(__file__)]
    t0 = time.time()
    # harness objects that do not depend on the repository
    hkey = files_hash(simfiles)
    hdir = os.path.join(root, "h_" + hkey)
    if not os.path.exists(os.path.join(hdir, "ok")):
        for old in glob.glob(os.path.join(root, "h_*")):
            if time.time() - os.path.getmtime(old) > 3600: shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(hdir, ignore_errors=True)
        os.makedirs(hdir)
        build_harness(hdir)
        open(os.path.join(hdir, "ok"), "w").close()
    key = files_hash(repo_files(), hkey)
    bdir = os.path.join(root, "b_" + key)
    if not os.path.exists(os.path.join(bdir, "ok")):
        old = sorted(glob.glob(os.path.join(root, "b_*")), key=os.path.getmtime)
        for i, o in enumerate(old[:-2]):      # another check may still use a recent one
            if i < len(old) - 12 or time.time() - os.path.getmtime(o) > 1800:
                shutil.rmtree(o, ignore_errors=True)
        shutil.rmtree(bdir, ignore_errors=True)
        os.makedirs(bdir)
        S = os.path.join(VERIF, "sim")
        par([["gcc", "-O2", "-g1", "-std=gnu11", "-fexceptions", "-fPIC", "-w", "-c"] + INC + [S + "/api_c.c", "-o", bdir + "/api_c.o"],
             ["g++", "-O2", "-g1", "-std=gnu++17", "-fPIC", "-w", "-c"] + INC + [S + "/api_cpp.cpp", "-o", bdir + "/api_cpp.o"]])
        audit = {}
        for fl in FLAVOURS:
            objs = build_lib(fl, bdir)
            if fl == "native":
                shutil.copytree(bdir + "/obj_native", bdir + "/plain")
                run(["g++", "-o", bdir + "/sim_life", hdir + "/life.cpp.o", hdir + "/core.cpp.o", bdir + "/api_c.o", bdir + "/api_cpp.o"] + objs + ["-lgfortran", "-lquadmath", "-lm", "-ldl", "-lpthread"])
                with open(bdir + "/hdir", "w") as f:
                    f.write(hdir)
            audit[fl] = redirect(objs, bdir, fl)
            common = [hdir + "/" + x for x in ("core.cpp.o", "seams.cpp.o", "exec.cpp.o", "oracle.cpp.o", "disc.cpp.o", "main.cpp.o", "ref.cpp.o", "libm_seam.o")]
            if fl == "inst":
                common.append(hdir + "/tsan_rt.cpp.o")
            tail = ["-lgfortran", "-lquadmath", "-lm", "-ldl", "-lpthread"]
            run(["g++", "-no-pie", "-o", bdir + "/sim_" + fl] + common + [bdir + "/api_c.o", bdir + "/api_cpp.o"] + objs + tail)
        with open(bdir + "/audit.txt", "w") as f:
            for fl in audit:
                f.write("%s redirected: %s\n%s passed through: %s\n" % (fl, " ".join(audit[fl][0]), fl, " ".join(audit[fl][1])))
        open(os.path.join(bdir, "ok"), "w").close()
    os.utime(bdir)
    fcntl.flock(lock, fcntl.LOCK_UN)
    if verbose:
        print("build: %s (%.1f s)" % (bdir, time.time() - t0))
    return bdir

if __name__ == "__main__":
    try:
        print(build(True))
    except BuildError as e:
        print("BUILD FAILED", e)
        sys.exit(2)

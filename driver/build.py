#!/usr/bin/env python3
"""Builds the simulator and the per-rank copies of the code under test from /repo's working tree.
   build.py [plain|tsan] [subset]   ->  /verif/build/<flavour>/
Nothing is written in /repo. Rebuilds only what changed (ninja, by content of the compile command and mtime)."""
import os, sys, json, subprocess, shlex, shutil, hashlib, fcntl, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DSIM_REPO", "/repo")
BUILD = os.environ.get("DSIM_BUILD", os.path.join(VERIF, "build"))
MAXR = 6
COMPAT = "/opt/vp/kokkos37_compat.h"

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout

def configure():
    """Ask the project's own CMake files which sources and flags make up the program."""
    d = os.path.join(BUILD, "cmake")
    os.makedirs(d, exist_ok=True)
    cxx = "-include " + COMPAT
    cmd = ["cmake", "-S", REPO + "/core", "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
           "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DCMAKE_CXX_FLAGS=" + cxx,
           "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", "-DDYABLO_ENABLE_UNIT_TESTING=OFF", "-DDYABLO_USE_MPI=ON", "-DDYABLO_USE_HDF5=ON",
           "-DDYABLO_COMPILE_PABLO=OFF", "-DDYABLO_USE_INTERNAL_KOKKOS=OFF", "-DKokkos_DIR=/usr/lib/x86_64-linux-gnu/cmake/Kokkos",
           "-DFETCHCONTENT_FULLY_DISCONNECTED=ON", "-DFETCHCONTENT_SOURCE_DIR_BACKWARD-CPP_EXTERNAL=/opt/vp/backward-shim",
           "-DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest"]
    rc, out = run(cmd)
    if rc:
        sys.stderr.write(out[-4000:]); raise SystemExit("BUILD-ERROR: cmake configure failed")
    # generated headers (version) are build-time targets
    rc, out = run(["ninja", "-C", d, "-t", "targets", "all"])
    for line in out.splitlines():
        m = re.match(r"(\S*version\S*\.h): ", line)
        if m: run(["ninja", "-C", d, m.group(1)])
    db = json.load(open(d + "/compile_commands.json"))
    srcs = {}
    for e in db:
        f = os.path.realpath(e["file"])
        if not f.startswith(REPO + "/core/src/"): continue
        args = shlex.split(e["command"])
        keep = []; i = 1
        while i < len(args):
            a = args[i]
            if a in ("-I", "-isystem", "-include", "-D"): keep += [a, args[i+1]]; i += 2; continue
            if a.startswith(("-I", "-D", "-isystem", "-std=")): keep.append(a)
            i += 1
        # the objects of the library win over the copies compiled into the executable
        if f not in srcs or len(keep) > len(srcs[f]): srcs[f] = keep
    return srcs

CORE_SUBSET = ("amr/", "mpi/", "utils/", "particles/", "legacy/")

def main():
    flavour = sys.argv[1] if len(sys.argv) > 1 else "plain"
    os.makedirs(BUILD, exist_ok=True)
    lock = open(BUILD + "/.lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    srcs = configure()
    out = os.path.join(BUILD, flavour); os.makedirs(out, exist_ok=True)
    opt = ["-O1", "-g0", "-w", "-fPIC", "-fopenmp", "-fno-gnu-unique", "-fno-plt", "-DOMPI_SKIP_MPICXX", "-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK",
           "-I" + VERIF + "/sim"]
    opt.remove("-fno-plt")
    if flavour == "tsan": opt += ["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0", "-DDSIM_TSAN"]
    flags_all = None
    n = []
    n.append("ninja_required_version = 1.5")
    n.append("rule cxx\n  command = g++ $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CXX $in")
    n.append("rule sh\n  command = $cmd\n  description = $desc")
    objs = []
    q = lambda l: " ".join(shlex.quote(x) for x in l).replace("$", "$$")
    for f, keep in sorted(srcs.items()):
        o = out + "/obj/" + os.path.relpath(f, REPO + "/core/src").replace("/", "_") + ".o"
        fl = keep + opt
        if f.endswith("dyablo_main.cpp"): fl = fl + ["-Dmain=dyablo_main_entry"]
        n.append("build %s: cxx %s\n  flags = %s" % (o, f, q(fl))); objs.append(o)
        if f.endswith("AMRmesh_hashmap_new.cpp"): flags_all = fl
    if flags_all is None: flags_all = [x for x in max(srcs.values(), key=len)] + opt
    hdir = VERIF + "/harness"
    for f in sorted(os.listdir(hdir)):
        if f.endswith(".cpp"):
            o = out + "/obj/harness_" + f + ".o"
            n.append("build %s: cxx %s\n  flags = %s" % (o, hdir + "/" + f, q(flags_all + ["-I" + hdir]))); objs.append(o)
    lib = out + "/librank.so"
    n.append("build %s: sh %s\n  cmd = g++ -shared -o %s -Wl,-soname,librank.so @%s.rsp /usr/lib/x86_64-linux-gnu/libhdf5_openmpi.so -lkokkoscore -lkokkoscontainers -Wl,-rpath,'$$ORIGIN' -Wl,--no-as-needed\n  rspfile = %s.rsp\n  rspfile_content = $in\n  desc = LINK librank" % (lib, " ".join(objs), lib, lib, lib))
    n[-1] = n[-1].replace("build %s: sh" % lib, "build %s: lnk" % lib)
    n.insert(3, "rule lnk\n  command = $cmd\n  description = $desc\n  rspfile = $out.rsp\n  rspfile_content = $in")
    n[-1] = "\n".join(l for l in n[-1].splitlines() if not l.strip().startswith("rspfile"))
    h5 = os.path.realpath("/usr/lib/x86_64-linux-gnu/libhdf5_openmpi.so.103")
    ranks = []
    for r in range(MAXR):
        d = out + "/rank%d" % r
        n.append("build %s/librank.so: sh %s | %s/driver/rankcopy.py\n  cmd = python3 %s/driver/rankcopy.py %s %s %s %d\n  desc = COPY rank %d" % (d, lib, VERIF, VERIF, lib, h5, d, r, r)); ranks.append(d + "/librank.so")
    sims = []
    for f in sorted(os.listdir(VERIF + "/sim")):
        if f.endswith(".cpp"):
            o = out + "/obj/sim_" + f + ".o"; sims.append(o)
            n.append("build %s: cxx %s\n  flags = -std=gnu++17 -O2 -g1 -w -fno-strict-aliasing -fPIE -isystem /usr/lib/x86_64-linux-gnu/openmpi/include" % (o, VERIF + "/sim/" + f))
    exe = out + "/dsim"
    n.append("build %s: sh %s\n  cmd = g++ -pie -rdynamic -Wl,--no-as-needed -o %s %s -lmpi -lkokkoscore -lkokkoscontainers -ldl\n  desc = LINK dsim" % (exe, " ".join(sims), exe, " ".join(sims)))
    n.append("build all: phony %s %s" % (exe, " ".join(ranks)))
    n.append("default all")
    txt = "\n".join(n) + "\n"
    bf = out + "/build.ninja"
    if not os.path.exists(bf) or open(bf).read() != txt: open(bf, "w").write(txt)
    rc, o = run(["ninja", "-C", out, "-f", bf] + (["-j", os.environ["DSIM_JOBS"]] if "DSIM_JOBS" in os.environ else []))
    if rc:
        sys.stderr.write(o[-6000:]); raise SystemExit("BUILD-ERROR: compilation failed")
    return out

if __name__ == "__main__":
    print(main())

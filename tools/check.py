#!/usr/bin/env python3
"""
Builds what is needed from /repo's working tree and runs the check of one
property.

  check.py ID          run the check (VERIF_SEED, VERIF_TIER from environment)
  check.py --build     just build everything
  check.py --replay F  run one saved case

Everything is built in /verif/build, which git ignores.
"""
import fcntl
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(BUILD, "src")
LIB = os.path.join(BUILD, "lib")
HAR = os.path.join(BUILD, "harness")
QWT = "/usr/lib/libqwt-qt5.so"
SAN = ("-O1 -g1 -DNDEBUG -fno-omit-frame-pointer -fsanitize=address,undefined "
       "-fno-sanitize-recover=undefined -fno-sanitize=vptr")
TARGETS = ("lube-shared path-lib txt-lib ini-lib gnuplot-lib ged-lib snd-lib "
           "xml-lib graph-lib curl-lib").split()

# Which harness program checks what; the rest of the sources are common
PROGRAMS = {}
for line in open(os.path.join(VERIF, "harness", "programs.txt")):
    if line.strip() and not line.startswith("#"):
        name, rest = line.split(":", 1)
        PROGRAMS[name.strip()] = rest.split()


def put(path, data):
    """Write a file, but only if that changes it."""
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def sync():
    """Copy /repo's sources, leaving alone what did not change."""
    want = set()
    for top in ("CMakeLists.txt", "lube", "test", "cmake"):
        root = os.path.join(REPO, top)
        if os.path.isfile(root):
            want.add(top)
        for d, _, files in os.walk(root):
            for f in files:
                want.add(os.path.relpath(os.path.join(d, f), REPO))
    for f in want:
        with open(os.path.join(REPO, f), "rb") as i:
            put(os.path.join(SRC, f), i.read())
    # CMakeLists.txt would download these if they did not exist
    os.makedirs(os.path.join(SRC, "kiss_fft130"), exist_ok=True)
    wav = os.path.join(SRC, "test/test.wav")
    if not os.path.exists(wav):
        put(wav, b"")
    want.add("test/test.wav")
    for d, _, files in os.walk(SRC):
        for f in files:
            p = os.path.join(d, f)
            r = os.path.relpath(p, SRC)
            if r not in want and not r.startswith("kiss_fft130"):
                os.remove(p)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       **kw)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode(errors="replace")[-8000:])
        sys.stderr.write("check.py: build failed\n")
        sys.exit(2)


def environment():
    env = {k: v for k, v in os.environ.items() if k != "MKLROOT"}
    env.update(LANG="C.UTF-8", CC="/usr/bin/gcc", CXX="/usr/bin/g++",
               PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:"
               "/sbin:/bin", MKL_CBWR="COMPATIBLE", MKL_NUM_THREADS="1",
               OMP_NUM_THREADS="1")
    env["LD_LIBRARY_PATH"] = os.path.join(LIB, "lube") + ":" + HAR
    for k in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS"):
        env.pop(k, None)
    return env


def ninja_file():
    """The build rules of the harness programs."""
    h = os.path.join(VERIF, "harness")
    o = []
    o.append("cxxflags = -std=c++17 -Wall -Wno-sign-compare %s -I%s -I%s "
             "-isystem /usr/include/mkl -DVERIF_SRC='\"%s\"' "
             "-DVERIF_HARNESS='\"%s\"'" % (SAN, SRC, h, SRC, h))
    o.append("ldflags = %s -L%s/lube -Wl,-rpath,%s/lube" % (SAN, LIB, LIB))
    o.append("rule cxx\n  command = g++ $cxxflags $extra -MMD -MF $out.d "
             "-c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    o.append("rule link\n  command = g++ $in $ldflags -lube $libs -ldl "
             "-o $out")
    o.append("rule so\n  command = g++ -shared $in $ldflags -lube -o $out")
    o.append("build pbt.o: cxx %s/pbt.cpp" % h)
    lib = os.path.join(LIB, "lube", "libube.so")
    for name, srcs in PROGRAMS.items():
        objs = []
        libs = ""
        needs = [lib]
        so = name.endswith(".so")
        for s in srcs:
            if s.startswith("+"):
                needs.append(s[1:])
                continue
            if s.startswith("-"):
                libs += " " + s
                continue
            obj = "%s-%s.o" % (name, os.path.basename(s).rsplit(".", 1)[0])
            path = s.replace("@SRC@", SRC)
            if not path.startswith("/"):
                path = os.path.join(h, s)
            o.append("build %s: cxx %s" % (obj, path))
            if so:
                o.append("  extra = -fPIC")
            objs.append(obj)
        if so:
            o.append("build %s: so %s | %s" % (name, " ".join(objs), lib))
            continue
        o.append("build %s: link pbt.o %s | %s\n  libs = %s" %
                 (name, " ".join(objs), " ".join(needs), libs))
    return "\n".join(o) + "\n"


def build(programs):
    os.makedirs(BUILD, exist_ok=True)
    env = environment()
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        sync()
        if not os.path.exists(os.path.join(LIB, "build.ninja")):
            run(["cmake", "-S", SRC, "-B", LIB, "-G", "Ninja",
                 "-DCMAKE_BUILD_TYPE=None",
                 "-DCMAKE_C_COMPILER=/usr/bin/gcc",
                 "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
                 "-DCMAKE_CXX_FLAGS=%s -Wno-error -isystem /usr/include/mkl" %
                 SAN,
                 "-DBLA_VENDOR=Intel10_64lp_seq", "-DQWT_LIBRARY=" + QWT,
                 "-DQWT_INCLUDE_DIR=/usr/include/qwt"], env=env)
        run(["ninja", "-C", LIB] + TARGETS, env=env)
        os.makedirs(HAR, exist_ok=True)
        put(os.path.join(HAR, "build.ninja"), ninja_file().encode())
        run(["ninja", "-C", HAR] + programs, env=env)
    return env


def program_of(prop):
    for line in open(os.path.join(VERIF, "harness", "checks.txt")):
        w = line.split()
        if w and w[0] == prop:
            return w[1]
    sys.stderr.write("check.py: no such property %s\n" % prop)
    sys.exit(2)


def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        build(list(PROGRAMS))
        return 0
    if a[:1] == ["--replay"]:
        prop = open(a[1]).readline().split()[1]
        prog = program_of(prop)
        env = build([prog])
        return subprocess.call([os.path.join(HAR, prog), "--replay", a[1]],
                               env=env)
    prop = a[0]
    prog = program_of(prop)
    env = build([prog])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    cmd = [os.path.join(HAR, prog), prop, "--evidence", ev,
           "--out", os.path.join(BUILD, "replays")] + a[1:]
    return subprocess.call(cmd, env=env, cwd=VERIF)


if __name__ == "__main__":
    sys.exit(main())

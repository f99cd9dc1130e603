#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [extra harness options]

Builds the harness of one property together with the current /repo sources (AddressSanitizer build, own build
directory, /repo untouched) and runs it.  Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Anything else: the check itself could not run.
"""
import os, subprocess, sys, fcntl, hashlib, json, shutil, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))

CXXFLAGS = ("-DFMT_DEPRECATED_OSTREAM -O1 -g1 -fsanitize=address -fno-omit-frame-pointer "
            "-D_GLIBCXX_ASSERTIONS -w")


def build_env():
    env = dict(os.environ)
    env.update(HOME="/root", LANG="C.UTF-8", CC="gcc", CXX="g++",
               PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return env


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    log = os.path.join(BUILD, "build.log")
    with open(os.path.join(BUILD, ".lock"), "w") as lock, open(log, "w") as lf:
        fcntl.flock(lock, fcntl.LOCK_EX)
        started = time.time_ns()
        state = source_state()
        check_stale(state)
        if not os.path.exists(os.path.join(BUILD, "build.ninja")):
            cmd = ["cmake", "-S", os.path.join(HERE, "harness"), "-B", BUILD, "-G", "Ninja",
                   "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
                   "-DCMAKE_CXX_FLAGS=" + CXXFLAGS, "-DCMAKE_C_FLAGS=-fsanitize=address",
                   "-DREPO=" + REPO,
                   "-DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON",
                   "-DCMAKE_FIND_PACKAGE_TARGETS_GLOBAL=ON",
                   "-Dexternal_capnproto_DIR=/opt/vp/deps/cmake", "-Dfmtlib_DIR=/opt/vp/deps/cmake",
                   "-Dnanobind_DIR=/opt/vp/deps/python/nanobind/cmake", "-DPython_EXECUTABLE=/usr/bin/python3",
                   "-DCCACHE_PROGRAM=", "-DWITH_CUDA=OFF"]
            r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=build_env())
            if r.returncode:
                return False, log
        r = subprocess.run(["ninja", "-C", BUILD] + targets, stdout=lf, stderr=subprocess.STDOUT, env=build_env())
        if r.returncode == 0:
            with open(os.path.join(BUILD, ".sources"), "w") as f:
                json.dump(dict(time=started, files=state), f)
        return r.returncode == 0, log


def source_state():
    """content hash and modification time of every source file that can enter the build"""
    state = {}
    for top in (REPO, os.path.join(HERE, "harness")):
        for d, dirs, files in os.walk(top):
            dirs[:] = [x for x in dirs if x not in (".git", "_build", "build", "__pycache__")]
            for f in files:
                p = os.path.join(d, f)
                if os.path.isfile(p) and os.path.getsize(p) < 4 << 20:
                    with open(p, "rb") as h:
                        state[p] = [hashlib.sha1(h.read()).hexdigest(), os.stat(p).st_mtime_ns]
    return state


def check_stale(state):
    """ninja goes by modification times; a file with new content but an old time would be missed, so start afresh"""
    try:
        with open(os.path.join(BUILD, ".sources")) as f:
            old = json.load(f)
    except (OSError, ValueError):
        return
    for p, (sha, mtime) in state.items():
        was = old["files"].get(p)
        if was and was[0] != sha and mtime <= max(was[1], old["time"]):
            for x in os.listdir(BUILD):
                if x in (".lock", "build.log"):
                    continue
                x = os.path.join(BUILD, x)
                shutil.rmtree(x) if os.path.isdir(x) and not os.path.islink(x) else os.unlink(x)
            return


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    prop = args.pop(0)
    if prop == "--build":
        ok, log = build(args)
        if not ok:
            sys.stdout.write(open(log).read()[-4000:])
        return 0 if ok else 2
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = os.environ.get("VERIF_SEED") or "1"
    extra, replay = [], None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        else:
            extra.append(a)
    targets = [prop]
    if os.path.exists(os.path.join(HERE, "harness", prop + ".targets")):
        targets += open(os.path.join(HERE, "harness", prop + ".targets")).read().split()
    ok, log = build(targets)
    if not ok:
        sys.stdout.write(open(log).read()[-6000:])
        print("check %s: the build failed" % prop)
        return 2
    exe = os.path.join(BUILD, prop)
    env = dict(os.environ)
    env.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                                   "handle_segv=1:handle_sigfpe=1:handle_abort=1:max_allocation_size_mb=8000:"
                                   "detect_odr_violation=0")
    env["VERIF_BIN"] = BUILD
    env["HDF5_USE_FILE_LOCKING"] = "FALSE"
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    cmd = [exe, "--tier", tier, "--seed", seed, "--known", os.path.join(HERE, "known_findings.txt"),
           "--replay-dir", os.path.join(HERE, "replays")]
    cmd += ["--replay", replay] if replay else ["--evidence", os.path.join(HERE, "evidence", prop + ".json")]
    sys.stdout.flush()
    r = subprocess.run(cmd + extra, env=env)
    return r.returncode if r.returncode in (0, 1) else 3


sys.exit(main())

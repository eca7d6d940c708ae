#!/usr/bin/env python3
"""check.py setup            build everything
   check.py run PROP [...]   rebuild PROP's harness from /repo and run it
Extra arguments go to the harness (see harness/src/pbt.cpp)."""
import fcntl, hashlib, os, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
CM = os.path.join(BUILD, "cmake")
STAMP = os.path.join(BUILD, "sources.stamp")
ENV = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, ".ccache"), CCACHE_MAXSIZE="3G",
           CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime",
           NINJA_STATUS="[%f/%t] ")


def sources():
    for base in (os.path.join(REPO, "SeQuant"), os.path.join(ROOT, "harness")):
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".cpp", ".hpp", ".h", ".cc", ".hh", ".in", ".txt", ".ipp")):
                    yield os.path.join(d, f)
    yield os.path.join(REPO, "CMakeLists.txt")


def refresh():
    """make builds depend on file contents rather than times: a file whose
    content differs from what was last built is made newer than that build, one
    with the same content gets back the time it had then (only times change)"""
    old, new = {}, {}
    if os.path.exists(STAMP):
        for l in open(STAMP):
            h, m, p = l.rstrip("\n").split(" ", 2)
            old[p] = (h, int(m))
    t = os.path.getmtime(STAMP) if old else 0
    for p in sources():
        with open(p, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
        m = os.stat(p).st_mtime_ns
        if p in old:
            if old[p][0] == h:
                if m != old[p][1]:
                    os.utime(p, ns=(old[p][1], old[p][1]))
            elif m <= (t + 2) * 1e9:
                os.utime(p)
        new[p] = (h, os.stat(p).st_mtime_ns)
    return new


def build(targets):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        new = refresh()
        if not os.path.exists(os.path.join(CM, "build.ninja")):
            r = subprocess.run(["cmake", "-G", "Ninja", "-S", os.path.join(ROOT, "harness"), "-B", CM],
                               env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(r.stdout)
                sys.exit(3)
        r = subprocess.run(["ninja", "-C", CM] + targets, env=ENV, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-8000:])
            print("BUILD FAILED")
            sys.exit(3)
        with open(STAMP, "w") as f:
            for p, (h, m) in new.items():
                f.write(f"{h} {m} {p}\n")


def main():
    if sys.argv[1:2] == ["setup"]:
        t = time.time()
        build([])
        print(f"setup done in {time.time()-t:.0f} s")
        return 0
    if sys.argv[1:2] != ["run"] or len(sys.argv) < 3:
        print(__doc__)
        return 2
    prop = sys.argv[2]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    t = time.time()
    build([f"prop_{prop}"])
    print(f"build: {time.time()-t:.1f} s", flush=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cmd = [os.path.join(CM, f"prop_{prop}"), "--tier", tier, "--seed", seed,
           "--evidence", os.path.join(ROOT, "evidence", prop + ".json"),
           "--replay-dir", os.path.join(ROOT, "replays"),
           "--known", os.path.join(ROOT, "known_findings.tsv")] + sys.argv[3:]
    rc = subprocess.run(cmd).returncode
    return rc if rc in (0, 1) else 4


sys.exit(main())

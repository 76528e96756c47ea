#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE] [--only FACET] [--cases N] [--build-only]

Builds the property's harness from /repo's working tree and runs the generated-input search.
Exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; exit 2: the check itself could not run."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CFG = json.load(open(os.path.join(VERIF, "harness", "checks.json")))

BASE = ["-DBUILD_WITH_IPOPT_SUPPORT", "-DCPPAD", "-DCT_USE_LAPACK", "-DHAVE_CSTDDEF", "-isystem", "/usr/include/eigen3",
        "-w", "-pthread", "-std=c++14", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off"]
MODES = {"asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
         "plain": ["-O1", "-g1"], "fast": ["-O2"],
         "tsan": ["-O1", "-g1", "-fsanitize=thread"]}


def include_flags(bdir):
    inc = os.path.join(bdir, "include")
    shutil.rmtree(inc, ignore_errors=True)
    os.makedirs(os.path.join(inc, "ct/core"))
    # a generated header that git ignores: made here when the tree has not been configured
    if not os.path.exists(os.path.join(REPO, "ct_core/include/ct/core/templateDir.h")):
        with open(os.path.join(REPO, "ct_core/include/ct/core/templateDir.h.in")) as f:
            t = f.read()
        t = t.replace("${CODEGEN_TEMPLATE_DIR}", REPO + "/ct_core/templates").replace("${CODEGEN_OUTPUT_DIR}", bdir)
        with open(os.path.join(inc, "ct/core/templateDir.h"), "w") as f:
            f.write(t)
    r = REPO
    return ["-I" + os.path.join(VERIF, "harness"), "-I" + inc, "-I" + inc + "/ct/core", "-I" + r + "/ct_core/include", "-I" + r + "/ct_optcon/include",
            "-I" + r + "/ct_rbd/include", "-I" + r + "/ct_rbd/include/ct", "-I" + r + "/ct_rbd/include/ct/rbd",
            "-I" + r + "/ct_rbd/include/ct/rbd/robot/kinematics/ikfast", "-I" + r + "/ct_models/include",
            "-I/usr/include/coin", "-I/usr/include/coin-or"]


def build(pid, c, bdir):
    os.makedirs(bdir, exist_ok=True)
    inc = include_flags(bdir)
    if c.get("shim"):
        inc.append("-I" + os.path.join(VERIF, "shim"))  # stand-in for kindr, which is not installed
    mode = MODES[c.get("mode", "asan")]
    cxx = ["g++"]
    env = dict(os.environ)
    if shutil.which("ccache") and not os.environ.get("VERIF_NO_CCACHE"):
        cxx = ["ccache", "g++"]
        env["CCACHE_DIR"] = os.path.join(VERIF, "build", ".ccache")
        env["CCACHE_MAXSIZE"] = "4G"
        env["CCACHE_NOHASHDIR"] = "1"
    jobs = []
    for src in ["harness/pbt_main.cpp"] + c["sources"]:
        obj = os.path.join(bdir, src.replace("/", "_") + ".o")
        jobs.append((cxx + BASE + mode + c.get("flags", []) + inc + ["-c", os.path.join(VERIF, src), "-o", obj], obj))
    for e in c.get("repo_sources", []):
        obj = os.path.join(bdir, e["src"].replace("/", "_") + ".o")
        flags = e.get("flags")
        base = BASE + mode if flags is None else ["-w", "-fPIC", "-DNDEBUG"] + flags
        jobs.append((cxx + base + inc + ["-c", os.path.join(REPO, e["src"]), "-o", obj], obj))

    def one(j):
        p = subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=bdir)
        return p.returncode, p.stdout.decode(errors="replace")
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    for (rc, out), j in zip(res, jobs):
        if rc:
            print("check error: harness does not compile against the current tree:\n" + " ".join(j[0]) + "\n" + out[:6000])
            return None
    exe = os.path.join(bdir, "harness")
    link = ["g++"] + mode + ["-pthread", "-fopenmp"] + [j[1] for j in jobs] + ["-o", exe] + c.get("libs", [])
    p = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=bdir)
    if p.returncode:
        print("check error: harness does not link:\n" + p.stdout.decode(errors="replace")[:6000])
        return None
    return exe


def main():
    a = sys.argv[1:]
    if a[:1] == ["--selftest"]:
        for t in ("g++", "python3"):
            if not shutil.which(t):
                print("missing tool " + t)
                return 2
        bdir = os.path.join(VERIF, "build", "selftest")
        return 0 if build("selftest", {"sources": ["harness/selftest.cpp"], "mode": "plain"}, bdir) and \
            subprocess.run([os.path.join(bdir, "harness"), "--property", "selftest", "--tier", "quick", "--seed", "1", "--cases", "200",
                            "--workers", "2", "--evidence", os.path.join(bdir, "ev.json"), "--replay-dir", bdir, "--rule", "-",
                            "--max-seconds", "60", "--case-timeout", "10"]).returncode == 0 else 2
    pid = a[0]
    def arg(name, default=None):
        return a[a.index(name) + 1] if name in a else default
    tier = arg("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = os.environ.get("VERIF_SEED", "1")
    c = CFG[pid]
    bdir = os.path.join(VERIF, "build", pid)
    exe = build(pid, c, bdir)
    if exe is None:
        return 2
    if "--build-only" in a:
        return 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["TSAN_OPTIONS"] = "halt_on_error=1:second_deadlock_stack=1"
    cmd = [exe, "--property", pid, "--known", os.path.join(VERIF, "KNOWN_FINDINGS.txt")]
    if "--replay" in a:
        cmd += ["--replay", arg("--replay")]
        if "-v" in a:
            cmd += ["-v"]
            env["PBT_KEEP_STDERR"] = "1"
    else:
        n = arg("--cases", str(c["cases"][tier]))
        cmd += ["--tier", tier, "--seed", seed, "--cases", n, "--workers", str(c.get("workers", 8)),
                "--evidence", os.path.join(VERIF, "evidence", pid + ".json"), "--replay-dir", rdir, "--rule", c["rule"],
                "--max-seconds", str(c.get("max_seconds", {"quick": 300, "thorough": 3000})[tier]),
                "--case-timeout", str(c.get("case_timeout", 60))]
        if "confirm" in c:
            cmd += ["--confirm", c["confirm"]]
        for s in c.get("assumptions", []):
            cmd += ["--assume", s]
        if "--only" in a:
            cmd += ["--only", arg("--only")]
    # thread sanitizer does not get along with every address-space randomisation
    if c.get("mode") == "tsan" and shutil.which("setarch") and subprocess.run(["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0:
        cmd = ["setarch", "-R"] + cmd
    sys.stdout.flush()
    rc = subprocess.run(cmd, env=env, cwd=bdir).returncode
    return rc if rc in (0, 1) else 2


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Development aid, not used by any check.

seedtool.py verify ID...         patch applies to /repo HEAD, touches original lines only, builds, tests compile
                                 (= pass), demo.sh exits 0 without and nonzero with it
seedtool.py matrix [-t] [-p C01,..] ID...  run the quick (-t: thorough) check of the bug's own property (-p: the
                                 given ones, -p all) on a scratch copy with the patch; one line per run
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = ROOT + "/seeded"
BASE = "576d29b"


def sh(cmd, cwd=None, env=None, timeout=2400):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return 99, "timeout"


def copy(patch=None):
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    repo = d + "/repo"
    sh("git clone -q /repo %s" % repo)
    if patch:
        rc, out = sh("git apply %s" % patch, cwd=repo)
        if rc:
            shutil.rmtree(d)
            raise RuntimeError("patch does not apply: " + out)
    return d, repo


def original_lines(patch):
    """removed lines of the patch that my own commits added"""
    bad, n = [], 0
    f = ln = None
    for l in open(patch, errors="replace"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            ln = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            b = sh("git -C /repo blame -s -L %d,%d HEAD -- %s" % (ln, ln, f))[1]
            if not b.startswith("^" + BASE):
                bad.append(b.strip())
            ln += 1
        elif l.startswith(" "):
            ln += 1
    return n, bad


def verify(i):
    p = "%s/%s/patch.diff" % (SEED, i)
    n, bad = original_lines(p)
    if not n or bad:
        return i, "BAD-LINES removed=%d mine=%s" % (n, bad)
    try:
        d, repo = copy(p)
    except RuntimeError as ex:
        return i, str(ex)
    try:
        rc, out = sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ "
                     "-DMREGEX_BUILD_TESTS=ON -DMREGEX_BUILD_EXAMPLES=ON -DCMAKE_POLICY_VERSION_MINIMUM=3.5 && ninja -C _build -k 0",
                     cwd=repo)
        if rc:
            return i, "TESTS-FAIL " + "\n".join(l for l in out.splitlines() if "error" in l)[:700]
        shutil.rmtree(repo + "/_build")
        demo = d + "/demo"
        shutil.copytree("%s/%s" % (SEED, i), demo)
        for f in ("patch.diff", "meta.json"):
            os.remove(demo + "/" + f)
        rc1, out1 = sh("bash %s/demo.sh" % demo, cwd=repo, timeout=300)
        sh("git checkout -q -- .", cwd=repo)
        rc0, out0 = sh("bash %s/demo.sh" % demo, cwd=repo, timeout=300)
        ok = rc0 == 0 and rc1 != 0
        return i, "ok" if ok else "DEMO clean=%d patched=%d\n%s\n%s" % (rc0, rc1, out0[-600:], out1[-600:])
    finally:
        shutil.rmtree(d)


def matrix(ids, props, tier):
    caught = 0
    for i in ids:
        meta = json.load(open("%s/%s/meta.json" % (SEED, i)))
        ps = props or [meta["property"]]
        if ps == ["all"]:
            ps = ["C%02d" % k for k in range(1, 19)]
        d, repo = copy("%s/%s/patch.diff" % (SEED, i))
        try:
            for p in ps:
                rc, out = sh("python3 check.py " + p, cwd=ROOT, env=dict(os.environ, VERIF_REPO=repo, VERIF_TIER=tier))
                v = [l for l in out.splitlines() if l.startswith("VIOLATION property=%s " % p)]
                tag = "CAUGHT" if rc == 1 and v else "missed" if rc == 0 else "ERROR rc=%d" % rc
                detail = [l for l in out.splitlines() if l.strip() and not l.startswith("VIOLATION")][:2]
                print(i, p, tag, (out[-500:] if tag[0] == "E" else " | ".join(detail)[:260] if tag[0] == "C" else ""), flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    mode, args = sys.argv[1], sys.argv[2:]
    tier, props = "quick", None
    while args and args[0].startswith("-"):
        o = args.pop(0)
        if o == "-t":
            tier = "thorough"
        else:
            props = args.pop(0).split(",")
    ids = args or sorted(os.listdir(SEED))
    if mode == "verify":
        with ThreadPoolExecutor(4) as ex:
            for i, r in ex.map(verify, ids):
                print(i, r, flush=True)
    else:
        matrix(ids, props, tier)

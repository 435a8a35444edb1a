#!/usr/bin/env python3
"""Planted bugs: confirm them in a scratch copy of /repo, and run checks against them.

  seed.py test ID...        apply in a scratch copy, build, run the tests, run the demo with and without the patch
  seed.py check ID [PROP..] run the checks (default: the bug's property) against the scratch copy with the patch
"""
import json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/seedwork"
REPO = "/repo"


def sh(cmd, cwd=None, env=None, timeout=1800):
    return subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def fresh(name):
    d = os.path.join(S, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = sh("git -C %s archive HEAD | tar -x -C %s && cp %s/succinct_config.hpp %s/" % (REPO, d, REPO, d))
    assert r.returncode == 0, r.stdout
    return d


def apply(d, sid):
    r = sh("git init -q . && git apply %s/seeded/%s/patch.diff" % (V, sid), cwd=d)
    assert r.returncode == 0, r.stdout


def demo(d, sid):
    # away from its own folder, as in the final check
    t = os.path.join(S, "demo-" + sid)
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree("%s/seeded/%s" % (V, sid), t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    t0 = time.time()
    r = sh("bash %s/demo.sh" % t, cwd=d)
    shutil.rmtree(t)
    return r.returncode, time.time() - t0, r.stdout[-300:].strip().replace("\n", " | ")


def test(sid):
    d = fresh("clean")
    rc0, t0, o0 = demo(d, sid)
    d = fresh("bug-" + sid)
    apply(d, sid)
    r = sh('cmake -S . -B _build -G Ninja -Wno-deprecated -DCMAKE_BUILD_TYPE=RelWithDebInfo "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g" -DCMAKE_CXX_FLAGS=-Wno-error -DCMAKE_POLICY_VERSION_MINIMUM=3.5 && ninja -C _build', cwd=d)
    if r.returncode:
        print(sid, "BUILD FAILED", r.stdout[-1500:])
        return
    failed = []
    for e in sorted(os.listdir(d + "/_build")):
        if e.startswith("test_") and os.access(d + "/_build/" + e, os.X_OK) and not os.path.isdir(d + "/_build/" + e):
            r = sh("./" + e, cwd=d + "/_build", env={"MALLOC_PERTURB_": "255"} if e == "test_bit_vector" else None)
            if r.returncode:
                failed.append(e)
    rc1, t1, o1 = demo(d, sid)
    print(sid, "OK" if rc0 == 0 and rc1 != 0 and not failed else "BAD", "tests-failed=%s" % failed, "demo clean=%d (%.0f s) bug=%d (%.0f s)" % (rc0, t0, rc1, t1), "|", o0 if rc0 else "", "|", o1, flush=True)
    shutil.rmtree(d)


def check(sid, props):
    d = fresh("bug-" + sid)
    apply(d, sid)
    props = props or [json.load(open("%s/seeded/%s/meta.json" % (V, sid)))["property"]]
    for p in props:
        t0 = time.time()
        r = sh("bin/check " + p, cwd=V, env={"VERIF_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"})
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(sid, p, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "rc=%d" % r.returncode), "%.0f s" % (time.time() - t0), v[:1], "" if r.returncode in (0, 1) else r.stdout[-800:], flush=True)
    shutil.rmtree(d)


if __name__ == "__main__":
    os.makedirs(S, exist_ok=True)
    if sys.argv[1] == "test":
        for s in sys.argv[2:]:
            test(s)
    else:
        check(sys.argv[2], sys.argv[3:])

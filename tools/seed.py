"""Make and try a planted bug in a scratch copy of /repo.

seed.py new ID         scratch copy /tmp/sb/ID (with the patch applied if it exists)
seed.py diff ID        write seeded/ID/patch.diff from the scratch copy
seed.py try ID [tests] demo on the clean tree and on the copy, stable tests on the copy, this property's check
"""
import json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def copy(i):
    d = "/tmp/sb/" + i
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/sb", exist_ok=True)
    sh("cp -a /repo %s" % d)
    p = "%s/seeded/%s/patch.diff" % (V, i)
    if os.path.exists(p):
        r = sh("git -C %s apply %s" % (d, p))
        if r.returncode:
            sys.exit("patch does not apply: " + r.stderr)
    return d


def env(d):
    e = dict(os.environ)
    e["PYTHONPATH"] = d
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


cmd, i = sys.argv[1:3]
if cmd == "new":
    print(copy(i))
elif cmd == "diff":
    d = "/tmp/sb/" + i
    os.makedirs("%s/seeded/%s" % (V, i), exist_ok=True)
    open("%s/seeded/%s/patch.diff" % (V, i), "w").write(sh("git -C %s diff" % d).stdout)
elif cmd == "try":
    d = copy(i)
    out = {"id": i}
    demo = "%s/seeded/%s/demo.sh" % (V, i)
    prop = json.load(open("%s/seeded/%s/meta.json" % (V, i)))["property"]
    r = sh("bash " + demo, cwd="/repo", env=env("/repo"))
    out["demo_clean"] = r.returncode
    if r.returncode:
        print(r.stdout[-800:], r.stderr[-800:])
    r = sh("bash " + demo, cwd=d, env=env(d))
    out["demo_bug"] = r.returncode
    print("   demo says:", (r.stdout + r.stderr).strip()[-300:])
    if "tests" in sys.argv:
        e = env(d)
        e.update(NUMBA_NUM_THREADS="1", NUMBA_CACHE_DIR=d + "/nbc", PYTHONHASHSEED="0")
        r = sh("timeout 840 %s -m pytest -q -n 8 -p no:cacheprovider --rootdir=%s --timeout=100" % (PY, d), cwd=d, env=e)
        out["tests"] = r.stdout.strip().splitlines()[-1]
    for p in [prop] + [a for a in sys.argv[3:] if a.startswith("C")]:
        t = time.time()
        e = dict(os.environ, NOSIM_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        r = sh("./check.py %s quick" % p, cwd=V, env=e)
        out[p] = (r.returncode, round(time.time() - t))
        print("   %s: %s" % (p, (r.stdout.strip().splitlines() or ["-"])[-1][-400:]), r.stderr[-300:])
    print(out)
    shutil.rmtree(d, ignore_errors=True)

"""Development tool (no check uses it): plants a bug, confirms it, keeps it under seeded/.

spec file (python): ID, PROPERTY, EDITS=[(file, old, new)], DEMO (bash text), FILES={name: text}, NEEDS, BREAKS
usage: seed.py spec.py...    confirms each and runs the property's check against it
       seed.py --check id... runs the property's check against kept bugs
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build():
    r = sh("bash /opt/vp/build.sh")
    return r.returncode == 0, r.stdout[-3000:]


def clean():
    sh("git -C /repo checkout -- .")


def demo(d):
    return sh("timeout 300 bash %s/demo.sh" % d, cwd=R)


def check(prop):
    r = sh("python3 check.py %s quick" % prop, cwd=V, env=dict(os.environ, VERIF_SEED="1"))
    caught = r.returncode == 1 and ("VIOLATION property=%s " % prop) in r.stdout
    line = next((l for l in r.stdout.splitlines() if l.startswith("    ")), "")[:300]
    return caught, r.returncode, line if caught else r.stdout[-600:]


def plant(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, "seeded", g["ID"])
    assert sh("git -C /repo status --porcelain").stdout == "", "dirty"
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.sh"), "w").write(g["DEMO"])
    for n, t in g.get("FILES", {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    ok, out = build()
    r = demo(d)
    if r.returncode != 0:
        print(g["ID"], "DEMO FAILS ON CLEAN TREE", r.stdout[-1500:])
        return
    try:
        for f, old, new in g["EDITS"]:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        ok, out = build()
        if not ok:
            print(g["ID"], "DOES NOT BUILD", out)
            return
        r = demo(d)
        sh("bash /opt/vp/test.sh /tmp/seed-o.json")
        res = json.load(open("/tmp/seed-o.json"))
        base = set(json.load(open("/opt/vp/BASELINE.json"))["passed"]) if "passed" in json.load(open("/opt/vp/BASELINE.json")) else None
        failed = res["failed"] if isinstance(res["failed"], list) else res["failed"]
        print(g["ID"], "demo rc", r.returncode, "failed tests", failed if len(str(failed)) < 400 else str(failed)[:400], flush=True)
        if r.returncode == 0:
            print("   DEMO DOES NOT NOTICE")
        if failed:
            print("   TESTS NOTICE")
        for prop in [g["PROPERTY"]]:
            print("   check", prop, *check(prop), flush=True)
    finally:
        clean()


def recheck(i):
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    r = sh("git -C /repo apply %s/patch.diff" % d)
    try:
        print(i, *(check(m["property"]) if r.returncode == 0 else ["PATCH DOES NOT APPLY", r.stdout]), flush=True)
    finally:
        clean()


if sys.argv[1] == "--check":
    ids = sys.argv[2:] or sorted(os.listdir(os.path.join(V, "seeded")))
    for i in ids:
        recheck(i)
else:
    for s in sys.argv[1:]:
        plant(s)
    build()

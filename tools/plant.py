"""Plant one bug: python3 tools/plant.py DEF.json  (development aid, no check uses it)
DEF: {id, property, file, edits: [[old, new], ...] or files: {file: edits}, demo: python source, needs, what_it_breaks}
Builds a scratch copy of /repo with the change, confirms that it builds, passes the stable tests, and that the demonstration
distinguishes it; then writes /verif/seeded/<id>/. With --check runs the property's check against the scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def scratch():
    d = tempfile.mkdtemp(prefix="plant_")
    subprocess.check_call(["cp", "-a", "/repo/.", d])
    return d

def script(name, d):
    s = open("/opt/vp/" + name).read().replace("cd /repo", "cd " + d).replace('startswith("/repo/")', 'startswith("%s/")' % d)
    f = os.path.join(d, ".vp_" + name); open(f, "w").write(s); return f

def tests_ok(d):
    out = os.path.join(d, ".vp_out.json")
    sh(["bash", script("test.sh", d), out])
    b = json.load(open("/opt/vp/BASELINE.json")); t = json.load(open(out))
    want = set(b.get("passed") or b.get("stable") or b.get("tests"))
    return sorted(want - set(t["passed"]))

def demo(folder, d):
    return sh(["bash", os.path.join(folder, "demo.sh")], cwd=d, timeout=300)

def main():
    D = json.load(open(sys.argv[1]))
    d = scratch()
    try:
        files = D.get("files") or {D["file"]: D["edits"]}
        for f, eds in files.items():
            p = os.path.join(d, f); s = open(p).read()
            for o, n in eds:
                assert s.count(o) == 1, "%s: %d matches of %r" % (f, s.count(o), o)
                s = s.replace(o, n)
            open(p, "w").write(s)
        diff = sh(["git", "diff"], cwd=d).stdout
        b = sh(["bash", script("build.sh", d)])
        if b.returncode: print(D["id"], "BUILD FAILED", b.stdout[-800:]); return 1
        miss = tests_ok(d)
        if miss: print(D["id"], "TESTS FAIL", miss); return 1
        out = os.path.join(V, "seeded", D["id"]); os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(D["demo"])
        open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\n'
            'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        json.dump({"property": D["property"], "needs": D["needs"], "what_it_breaks": D["what_it_breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        g, bad = demo(out, "/repo"), demo(out, d)
        ok = g.returncode == 0 and bad.returncode != 0
        print(D["id"], "planted" if ok else "DEMO WRONG (good %d, bad %d)\n%s\n----\n%s" % (g.returncode, bad.returncode, g.stdout[-600:], bad.stdout[-600:]))
        if not ok: shutil.rmtree(out); return 1
        if "--check" in sys.argv:
            r = sh(["./check", D["property"], "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=d))
            print(D["id"], "check", D["property"], "rc", r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s " % D["property"] in r.stdout else "MISSED\n" + r.stdout[-600:])
        return 0
    finally:
        shutil.rmtree(d)
if __name__ == "__main__": sys.exit(main())

#!/opt/venv/bin/python
"""Makes /verif/seeded/<id>/ from tools/seeds.py: each change is applied to a scratch copy of /repo, has to touch
only lines of the original repository, keep the stable tests passing, and its demonstration has to tell it apart."""
import json, os, subprocess, sys, tempfile, shutil, xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds
OUT = os.path.join(os.path.dirname(HERE), "seeded")
BASE = "1a31625"
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '#!/bin/bash\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def tests(w):
    x = os.path.join(w, ".junit.xml")
    env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0")
    sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", "-o", "junit_family=xunit2", "--junitxml=" + x, "tests", "bip38/libs/ripemd160.py", cwd=w, env=env)
    good = set()
    for c in ET.parse(x).getroot().iter("testcase"):
        if not any(k.tag in ("failure", "error", "skipped") for k in c):
            good.add(c.get("classname") + "::" + c.get("name"))
    os.unlink(x)
    return STABLE - good


def demo(d, w):
    r = sh("bash", os.path.join(d, "demo.sh"), cwd=w, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def one(s):
    d = os.path.join(OUT, s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed.")
    try:
        sh("cp", "-a", "/repo/.", w)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(seeds.PRELUDE + s["demo"].strip("\n") + "\n")
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        rc0, o0 = demo(d, w)
        for file, old, new in s["edits"]:
            p = os.path.join(w, file)
            t = open(p, encoding="utf-8").read()
            if old not in t:
                return s["id"], "edit not found: " + old[:60]
            open(p, "w", encoding="utf-8").write(t.replace(old, new) if s.get("all") else t.replace(old, new, 1))
        diff = sh("git", "diff", cwd=w).stdout
        file, base, gone = None, [], 0
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                base = sh("git", "show", BASE + ":" + l[6:], cwd=w).stdout.splitlines()
            elif l.startswith("-") and not l.startswith("---"):
                gone += 1
                if l[1:] not in base:
                    return s["id"], "not an original line: " + l
        if not gone:
            return s["id"], "no original line changed"
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), f, indent=1)
            f.write("\n")
        failed = tests(w)
        rc1, o1 = demo(d, w)
        bad = []
        if failed: bad.append("tests fail: %s" % sorted(failed))
        if rc0: bad.append("demo on the unchanged tree: %s %s" % (rc0, o0))
        if not rc1: bad.append("demo does not notice the change")
        return s["id"], "; ".join(bad) or "ok (demo says: %s)" % o1.strip().splitlines()[-1:]
    except Exception as e:
        return s["id"], repr(e)
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    want = [s for s in seeds.SEEDS if not sys.argv[1:] or s["id"] in sys.argv[1:] or s["property"] in sys.argv[1:]]
    with ThreadPoolExecutor(8) as ex:
        for i, r in ex.map(one, want):
            print(i, r, flush=True)
            if not r.startswith("ok"):
                shutil.rmtree(os.path.join(OUT, i), ignore_errors=True)

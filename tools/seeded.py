#!/usr/bin/env python3
"""Development aid, not a check: confirms planted bugs and measures which checks catch them.

    seeded.py verify ID...    patch applies, builds, stable tests pass, demo 0 without / nonzero with
    seeded.py catch  ID...    runs the property's quick check against the patched tree
    seeded.py table           rewrites the table of DESIGN.md from seeded/results.json

Each bug is tried in a mount namespace of its own in which a patched copy lies over /repo.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
BASE = os.environ.get("SEED_BASE", "/repo")
RES = os.path.join(V, "tools", "seeded_results.json")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def results():
    return json.load(open(RES)) if os.path.exists(RES) else {}


def put(i, **kw):
    r = results()
    r.setdefault(i, {}).update(kw)
    json.dump(r, open(RES, "w"), indent=1, sort_keys=True)


def tree(i):
    d = tempfile.mkdtemp(prefix="seed-")
    sh("cp -a %s/. %s/" % (BASE, d))
    r = sh("git -C %s apply %s/%s/patch.diff" % (d, S, i))
    if r.returncode:
        print(r.stdout)
        shutil.rmtree(d)
        return None
    return d


def ns(d, cmd, timeout=1200):
    return sh("unshare -m bash -c 'mount --bind %s /repo && cd /repo && %s'" % (d, cmd), timeout=timeout)


def verify(i):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = ns(BASE, "bash %s/%s/demo.sh" % (S, i))
    if r.returncode:
        return "demo fails on the unchanged tree: " + r.stdout[-800:]
    d = tree(i)
    if not d:
        return "patch does not apply"
    try:
        r = ns(d, "bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/o.json" % d)
        if not os.path.exists(d + "/o.json"):
            return "build failed: " + r.stdout[-1500:]
        missing = stable - set(json.load(open(d + "/o.json"))["passed"])
        if missing:
            return "tests fail: %s" % sorted(missing)
        r = ns(d, "bash %s/%s/demo.sh" % (S, i))
        if r.returncode == 0:
            return "demo passes with the patch"
        return None
    finally:
        shutil.rmtree(d)


def catch(i, prop=None, extra=""):
    prop = prop or json.load(open("%s/%s/meta.json" % (S, i)))["property"]
    d = tree(i)
    try:
        t = time.time()
        r = ns(d, "cd %s && VERIF_SEED=%s python3 run.py %s %s" % (V, os.environ.get("VERIF_SEED", "1"), prop, extra))
        hit = r.returncode == 1 and re.search(r"VIOLATION property=%s replay=" % prop, r.stdout)
        tail = [l for l in r.stdout.splitlines() if l.strip()]
        why = next((l for l in tail if not l.startswith(("  ", "VIOLATION"))), "")
        return bool(hit), time.time() - t, r.returncode, why[:200], r.stdout
    finally:
        shutil.rmtree(d)


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "table":
        r = results()
        rows = ["| bug | property | needs | caught | how |", "|---|---|---|---|---|"]
        for i in sorted(os.listdir(S)):
            m = json.load(open("%s/%s/meta.json" % (S, i)))
            x = r.get(i, {})
            rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), "yes, %ds" % x["seconds"] if x.get("caught") else "no" if "caught" in x else "?", x.get("why", "").replace("|", "/").replace("\n", " ")[:140]))
        p = V + "/DESIGN.md"
        t = open(p).read().split("<!-- seeded-table -->")[0]
        open(p, "w").write(t + "<!-- seeded-table -->\n" + "\n".join(rows) + "\n")
        return
    ids = ids or sorted(os.listdir(S))
    for i in ids:
        if cmd == "verify":
            e = verify(i)
            put(i, valid=e is None)
            print(i, "valid" if e is None else "INVALID: " + e)
        else:
            hit, sec, rc, why, out = catch(i)
            put(i, caught=hit, seconds=round(sec), why=why)
            print("%-32s %s rc=%d %.0fs %s" % (i, "CAUGHT" if hit else "*** MISSED", rc, sec, why))
            if rc not in (0, 1):
                print(out[-1500:])
        sys.stdout.flush()


main()

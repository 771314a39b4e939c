#!/usr/bin/env python3
"""Build /verif/seeded/<id> from defs.py and confirm each in a scratch copy of /repo.
usage: mk.py [ids...]      (needs scratch copy /tmp/w: cp -a /repo /tmp/w)"""
import importlib, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import defs
W = "/tmp/w"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def sync():
    if not os.path.exists(W):
        sh("cp -a /repo %s" % W)
    sh("cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD" % W)
def run(i, d, full):
    out = "/verif/seeded/" + i
    sh("cd %s && git checkout -q -- ." % W)
    for f, a, b in d["edits"]:
        p = W + "/" + (f if "/" in f else "crates/rerecast/src/" + f)
        s = open(p).read()
        if s.count(a) < 1:
            return "NO MATCH in %s: %r" % (f, a)
        n = d.get("nth", {}).get(f)
        if n is None and s.count(a) != 1:
            return "%d matches in %s: %r" % (s.count(a), f, a)
        if n is not None:
            parts = s.split(a)
            s = a.join(parts[:n + 1]) + b + a.join(parts[n + 1:])
        else:
            s = s.replace(a, b)
        open(p, "w").write(s)
    diff = sh("cd %s && git diff" % W).stdout
    tmp = "/tmp/seedwork"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + "/demo.rs", "w").write((open(HERE + "/prelude.rs").read() if d.get("prelude", True) else "") + d["demo"])
    s = d.get("sh") or open(HERE + "/demo.sh").read()
    open(tmp + "/demo.sh", "w").write(s)
    os.chmod(tmp + "/demo.sh", 0o755)
    # demo with the patch, then without
    bad = sh("bash %s/demo.sh" % tmp, cwd=W)
    if "error[" in bad.stderr or "could not compile" in bad.stderr:
        return "DEMO DOES NOT COMPILE\n" + bad.stderr[-3000:]
    if bad.returncode == 0:
        return "demo passes with the patch"
    good = sh("bash %s/demo.sh" % tmp, cwd="/repo")
    if good.returncode != 0:
        return "demo fails without the patch\n" + good.stderr[-2000:]
    if full:
        t = open("/opt/vp/test.sh").read().replace("/repo", W).replace("/opt/vp/logs", "/tmp/wlogs")
        open("/tmp/wtest.sh", "w").write(t)
        sh("bash /tmp/wtest.sh /tmp/wout.json")
        r = json.load(open("/tmp/wout.json"))
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        ok = set(r.get("passed") or [k for k, v in r.items() if v in ("pass", "passed", "PASS")])
        if base - ok:
            return "breaks tests: %s" % sorted(base - ok)[:4]
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    for f in ("demo.rs", "demo.sh"):
        shutil.copy(tmp + "/" + f, out + "/" + f)
    json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["what"]}, open(out + "/meta.json", "w"), indent=1)
    return "ok (fails with: %s)" % bad.stderr.strip().splitlines()[-2:][0][:150] if bad.stderr.strip() else "ok"
if __name__ == "__main__":
    sync()
    ids = sys.argv[1:] or sorted(defs.D)
    for i in ids:
        if not sys.argv[1:] and os.path.exists("/verif/seeded/%s/meta.json" % i):
            continue
        print(i, defs.D[i]["property"], run(i, defs.D[i], True), flush=True)
    sh("cd %s && git checkout -q -- ." % W)

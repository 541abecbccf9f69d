#!/usr/bin/env python3
"""mkseed.py SPEC.py...: make /verif/seeded/<id> from a spec (id, prop, needs, breaks, edits, demo, cc, files)
and confirm it in a scratch copy of /repo: builds, existing tests pass, the demonstration tells the trees apart."""
import json, os, shutil, subprocess, sys, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
def sh(cmd, cwd, t=300):
    try:
        r = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
def make(spec):
    s = {}
    exec(open(spec).read(), s)
    d = V / "seeded" / s["id"]
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    if "demo" in s:
        (d / "demo.c").write_text(s["demo"])
        shutil.copy(V / "tools/demo/dp.h", d / "dp.h")
        shutil.copy(V / "tools/demo/build.sh", d / "build.sh")
        (d / "demo.sh").write_text('#!/bin/bash\n# cwd: /repo\nhere=$(cd "$(dirname "$0")" && pwd)\n. "$here/build.sh"\ntmp=$(mktemp -d)\ntrap \'rm -rf "$tmp"\' EXIT\n' + s.get("cc", 'cc_demo "$tmp/demo" "$here/demo.c" $LIBSRC || exit 0\n') + 'cd "$tmp" && timeout 200 ./demo\n')
    else:
        (d / "demo.sh").write_text(s["sh"])
    os.chmod(d / "demo.sh", 0o755)
    for n, t in s.get("files", {}).items():
        (d / n).write_text(t)
    (d / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    wt = "/tmp/seedwt"
    subprocess.run(["rm", "-rf", wt]); subprocess.run(["cp", "-a", "/repo", wt])
    for f, old, new in s["edits"]:
        p = pathlib.Path(wt) / f
        t = p.read_text()
        if t.count(old) != 1:
            print(s["id"], "edit matches", t.count(old), "times:", old[:60]); return
        p.write_text(t.replace(old, new))
    _, diff = sh("git diff", wt)
    (d / "patch.diff").write_text(diff)
    # which lines are touched: must be original ones
    rc0, o0 = sh(f"bash {d}/demo.sh", "/repo")
    # build the patched tree in place so that paths are those of /repo
    subprocess.run(["git", "-C", "/repo", "apply", str(d / "patch.diff")], check=True)
    try:
        rb, ob = sh("bash /opt/vp/build.sh", "/repo")
        rt, ot = sh("bash /opt/vp/test.sh /tmp/seed.json", "/repo")
        rc1, o1 = sh(f"bash {d}/demo.sh", "/repo")
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        sh("bash /opt/vp/build.sh", "/repo")
    try:
        res = json.load(open("/tmp/seed.json"))
    except Exception:
        res = ot[-200:]
    fails = [k for k in json.load(open("/opt/vp/BASELINE.json"))["stable"] if k not in (res.get("passed") or [])] if isinstance(res, dict) else res
    print(s["id"], "clean:", rc0, o0.strip()[-150:], "| build", rb, "| missing tests:", fails, "| patched:", rc1, o1.strip()[-200:])
    subprocess.run(["rm", "-rf", wt])
for f in sys.argv[1:]:
    make(f)

#!/usr/bin/env python3
"""Work with planted bugs (development tool; no check uses it).

  seedlab.py new ID             scratch copy of /repo in /tmp/sd_ID
  seedlab.py freeze ID          write seeded/ID/patch.diff from that copy
  seedlab.py confirm ID...      tests pass with the patch; demo 0 / nonzero
  seedlab.py check ID P...      run checks P (or meta.json's) on the patched copy
  seedlab.py drop ID            remove the scratch copy
confirm and check create and remove their own copies when none exists."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)


def copy(i, tag="sd"):
    d = f"/tmp/{tag}_{i}"
    if os.path.exists(d):
        shutil.rmtree(d)
    sh(f"cp -a /repo {d}")
    sh(f"git -C {d} checkout -q -- .")
    return d


def patched(i, tag):
    d = copy(i, tag)
    r = sh(f"git -C {d} apply {SEEDED}/{i}/patch.diff")
    if r.returncode:
        raise SystemExit(f"{i}: patch does not apply: {r.stderr}")
    return d


def stable(d):
    w = d + "_w"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    with open("/opt/vp/test.sh") as f:
        s = f.read().replace("/opt/vp/work", w).replace("cd /repo", "cd " + d)
    with open(w + "/t.sh", "w") as f:
        f.write(s)
    sh(f"bash {w}/t.sh {w}/out.json")
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    out = json.load(open(w + "/out.json"))
    ok = set(out.get("passed") or out.get("stable") or [])
    missing = sorted(set(base) - ok)
    shutil.rmtree(w, ignore_errors=True)
    return missing


def demo(i, d):
    t = f"/tmp/demo_{i}_{os.getpid()}"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(f"{SEEDED}/{i}", t,
                    ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh(f"bash {t}/demo.sh", cwd=d, timeout=300)
    shutil.rmtree(t, ignore_errors=True)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def confirm(i):
    d = patched(i, "sc")
    try:
        rc1, o1 = demo(i, "/repo")
        rc2, o2 = demo(i, d)
        miss = stable(d)
        c = sh(f"cd {d} && for f in $(git diff --name-only); do "
               "/opt/venv/bin/python -m py_compile $f || exit 1; done")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    good = rc1 == 0 and rc2 != 0 and not miss and c.returncode == 0
    return f"{i}: {'CONFIRMED' if good else 'REJECTED'} clean={rc1} " \
           f"patched={rc2} missing={miss[:4]}" + \
        ("" if good else f"\n--clean: {o1}\n--patched: {o2}")


def check(i, props, tier="quick", seed=1):
    d = patched(i, "sk")
    res = {}
    try:
        for p in props:
            r = sh(f"VERIF_REPO={d} {VERIF}/run.py {p} --tier {tier} --seed {seed}",
                   cwd=VERIF)
            viol = [l.strip() for l in r.stdout.splitlines()
                    if "mechanism" in l]
            res[p] = (r.returncode, viol[:4],
                      "" if r.returncode in (0, 1) else
                      (r.stdout + r.stderr)[-500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def main():
    cmd, *a = sys.argv[1:]
    if cmd == "new":
        print(copy(a[0]))
    elif cmd == "drop":
        shutil.rmtree(f"/tmp/sd_{a[0]}", ignore_errors=True)
    elif cmd == "freeze":
        os.makedirs(f"{SEEDED}/{a[0]}", exist_ok=True)
        p = sh(f"git -C /tmp/sd_{a[0]} diff").stdout
        open(f"{SEEDED}/{a[0]}/patch.diff", "w").write(p)
        print(p)
    elif cmd == "confirm":
        with cf.ThreadPoolExecutor(2) as ex:
            for r in ex.map(confirm, a or sorted(os.listdir(SEEDED))):
                print(r, flush=True)
    elif cmd == "check":
        props = a[1:] or [json.load(open(f"{SEEDED}/{a[0]}/meta.json"))["property"]]
        for p, r in check(a[0], props).items():
            print(a[0], p, *r, flush=True)
    elif cmd == "matrix":
        for i in a or sorted(os.listdir(SEEDED)):
            p = json.load(open(f"{SEEDED}/{i}/meta.json"))["property"]
            for p, r in check(i, [p]).items():
                print(i, p, "CAUGHT" if r[0] == 1 else "MISSED", *r, flush=True)


main()

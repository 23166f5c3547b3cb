#!/usr/bin/env python3
"""seed.py ID...   (re)creates and confirms planted bugs described in dev/seeds/<ID>.txt (development tool; no check reads it)

file format:
  property: C01
  needs: ...
  breaks: ...
  <<<<
  old text
  ====
  new text
  >>>>
  demo:
  python program (exit 0 = property holds)
"""
import json, os, re, shutil, subprocess, sys

H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
W = "/tmp/w/seedrepo"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def parse(f):
    s = open(f).read()
    head, demo = s.split("\ndemo:\n", 1)
    edits = re.findall(r"^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$", head, re.S | re.M)
    meta = dict(re.findall(r"^(\w+): (.*)$", head.split("<<<<")[0], re.M))
    return meta, edits, demo


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    notest = "-T" in sys.argv
    nocheck = "-C" in sys.argv
    if not ids:
        ids = sorted(x[:-4] for x in os.listdir(H + "/seeds"))
    for i in ids:
        meta, edits, demo = parse(f"{H}/seeds/{i}.txt")
        shutil.rmtree(W, ignore_errors=True)
        os.makedirs(W)
        sh(f"cd /repo && git archive HEAD salabim tests setup.py pyproject.toml README.md 2>/dev/null | tar x -C {W} || git archive HEAD salabim tests | tar x -C {W}; cd {W} && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x")
        p = W + "/salabim/salabim.py"
        s = open(p).read()
        bad = False
        for o, n in edits:
            if s.count(o) != 1:
                print(i, "edit matches", s.count(o), "times:", o[:80]); bad = True
            s = s.replace(o, n, 1)
        if bad:
            continue
        D = f"{V}/seeded/{i}"
        os.makedirs(D, exist_ok=True)
        open(D + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport salabim as sim\n" + demo)
        open(D + "/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(D + "/demo.sh", 0o755)
        r0 = sh(f"cd {W} && bash {D}/demo.sh")
        open(p, "w").write(s)
        r1 = sh(f"cd {W} && bash {D}/demo.sh")
        d = sh(f"cd {W} && git diff").stdout
        open(D + "/patch.diff", "w").write(d)
        json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(D + "/meta.json", "w"), indent=1)
        ap = sh(f"git -C /repo apply --check {D}/patch.diff")
        t = "-"
        if not notest:
            rt = sh(f"cd {W} && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests")
            t = rt.stdout.strip().splitlines()[-1]
        c = "-"
        if not nocheck:
            rc = sh(f"cd {V} && VERIF_REPO={W} python3 check.py {meta['property']}")
            c = {0: "MISSED", 1: "caught"}.get(rc.returncode, f"rc{rc.returncode}")
            c += " " + (rc.stdout.splitlines() or [""])[0][:140]
        if not nocheck:
            f = H + "/design/caught.json"
            k = json.load(open(f)) if os.path.exists(f) else {}
            k[i] = c.split("]")[0].replace("caught [", meta["property"] + " ") if c.startswith("caught") else c.split()[0].lower()
            json.dump(k, open(f, "w"), indent=1, sort_keys=True)
        print(f"{i} [{meta['property']}] demo clean={r0.returncode} bug={r1.returncode} apply={ap.returncode} tests={t} check={c}")
        if r0.returncode or not r1.returncode:
            print((r0.stdout + r0.stderr)[-600:], "\n-- with bug:\n", (r1.stdout + r1.stderr)[-300:])
    shutil.rmtree(W, ignore_errors=True)


main()

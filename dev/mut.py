#!/usr/bin/env python3
"""development aid (not a registered check): applies textual mutants to scratch copies and runs the rules on them
usage: mut.py FILE... [-p PROP] [-n NAME]
file: blocks  "### name PROP[,PROP]"  or "### name quiet PROP,..."  followed by <<<< old ==== new >>>> edits"""
import os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
SRC = open("/repo/salabim/salabim.py").read()


def parse(fn):
    out = []
    for blk in re.split(r"^### ", open(fn).read(), flags=re.M)[1:]:
        head, body = blk.split("\n", 1)
        h = head.split()
        quiet = "quiet" in h
        props = [x for x in h[-1].split(",")]
        eds = re.findall(r"<<<<\n(.*?)\n====\n(.*?)\n?>>>>", body, flags=re.S)
        out.append((h[0], quiet, props, eds))
    return out


def run(job):
    name, quiet, prop, src = job
    d = tempfile.mkdtemp(prefix="mut")
    try:
        os.makedirs(d + "/salabim")
        open(d + "/salabim/salabim.py", "w").write(src)
        r = subprocess.run([sys.executable, H + "/one.py", prop], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        return name, quiet, prop, r.returncode, r.stdout + r.stderr[-600:]
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]
    only = None
    nm = None
    if "-p" in a:
        i = a.index("-p"); only = a[i + 1]; del a[i:i + 2]
    if "-n" in a:
        i = a.index("-n"); nm = a[i + 1]; del a[i:i + 2]
    jobs = []
    for fn in a:
        for name, quiet, props, eds in parse(fn):
            if nm and nm not in name:
                continue
            s = SRC
            bad = False
            for old, new in eds:
                if s.count(old) != 1:
                    print("BAD EDIT", name, s.count(old), repr(old[:80]))
                    bad = True
                    break
                s = s.replace(old, new)
            if bad:
                continue
            try:
                compile(s, "x", "exec")
            except SyntaxError as e:
                print("SYNTAX", name, e)
                continue
            for p in props:
                if only and p != only:
                    continue
                jobs.append((name, quiet, p, s))
    with ThreadPoolExecutor(7) as ex:
        for name, quiet, prop, rc, out in ex.map(run, jobs):
            want = 0 if quiet else 1
            st = "ok  " if rc == want else "FALSE ALARM" if quiet else "MISSED" if rc == 0 else f"BROKEN rc={rc}"
            line = out.strip().splitlines()
            print(f"{st:12s} {name:28s} {prop} {'' if rc == 0 else (line[0][:150] if line else '')}")
            if st not in ("ok  ", "MISSED") and rc:
                print("     ", "\n      ".join(line[-4:]))


main()

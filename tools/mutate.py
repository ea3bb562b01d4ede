#!/usr/bin/env python3
"""Runs the checks of a property against quick textual mutants of /repo (scratch copies). Usage: mutate.py FILE [ID...]
FILE defines MUT: list of (id, properties, [(path, old, new)...]). Prints which mutants no check reports."""
import sys, os, subprocess, tempfile, shutil, concurrent.futures as cf, time
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
deepen = os.environ.get("DEEPEN", "5s"); jobs = int(os.environ.get("JOBS", "3"))
def run(m):
    mid, props, edits = m
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        for path, old, new in edits:
            p = d + "/repo/" + path; s = open(p).read()
            if s.count(old) < 1: return mid, "NOEDIT " + path
            open(p, "w").write(s.replace(old, new, 1))
        r = subprocess.run([os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/mc/build.sh", d + "/b", d + "/repo"], capture_output=True, text=True)
        if r.returncode: return mid, "BUILD " + (r.stdout + r.stderr)[-400:]
        out = []
        for p in props.split():
            t = time.time()
            r = subprocess.run([d + "/b/harness", "-prop", p, "-deepen", deepen, "-replays", d + "/rp"], capture_output=True, text=True, errors="replace", timeout=900)
            v = [l for l in (r.stdout + r.stderr).splitlines() if "VIOLATION" in l or "scenario" in l]
            out.append(f"{p}:{'caught' if r.returncode == 1 else 'rc%d' % r.returncode} {time.time()-t:.0f}s")
            if r.returncode not in (0, 1): out.append((r.stdout + r.stderr)[-300:])
        return mid, " | ".join(out)
    except Exception as e:
        return mid, "EXC %r" % e
    finally:
        shutil.rmtree(d, ignore_errors=True)
ms = [m for m in ns["MUT"] if not only or m[0] in only]
with cf.ThreadPoolExecutor(jobs) as ex:
    for mid, res in ex.map(run, ms):
        flag = "" if "caught" in res else "MISSED "
        print(flag + mid, res, flush=True)

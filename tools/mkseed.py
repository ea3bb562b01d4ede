#!/usr/bin/env python3
"""mkseed.py FILE...: each FILE is a Python file that defines BUGS, a list of dicts:
 id, property, needs, what_it_breaks, edits=[(path, old, new)], demo (Go source of demo_test.go).
Confirms each bug in a scratch copy of /repo and writes /verif/seeded/<id>."""
import sys, os, subprocess, shutil, json, tempfile
V = "/verif"
def sh(cmd, cwd, timeout=900):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
only = os.environ.get("ONLY", "").split(",") if os.environ.get("ONLY") else None
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
orig = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
orig = "8894f3d"
for fn in sys.argv[1:]:
    ns = {}
    exec(open(fn).read(), ns)
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        wt = d + "/repo"
        try:
            subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
            subprocess.check_call(["cp", "-a", "/repo", wt])
            # only original lines are changed
            warn = []
            for path, old, new in b["edits"]:
                p = os.path.join(wt, path)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], path, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.check_output(["git", "-C", wt, "diff"], text=True)
            # blame of removed lines
            cur, ln = None, 0
            own = 0; tot = 0
            for l in diff.split("\n"):
                if l.startswith("--- "): cur = l[6:]
                elif l.startswith("@@"): ln = int(l.split()[1].split(",")[0][1:])
                elif l.startswith("-"):
                    tot += 1
                    bl = subprocess.check_output(["git", "-C", "/repo", "blame", "-s", "-L", "%d,%d" % (ln, ln), orig + "..HEAD", "--", cur], text=True)
                    if not bl.startswith("^"): own += 1; print("   own line:", bl.strip())
                    ln += 1
                elif l.startswith(" "): ln += 1
            out = os.path.join(V, "seeded", b["id"])
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo_test.go", "w").write(b["demo"].lstrip())
            shutil.copy(V + "/tools/demo_util.go.txt", out + "/util_test.go")
            shutil.copy(V + "/tools/demo.sh.txt", out + "/demo.sh"); os.chmod(out + "/demo.sh", 0o755)
            json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)
            ok = True
            if os.environ.get("DEMO_ONLY") is None:
                env = ". /opt/vp/env.sh; "
                r = sh(env + "go build ./... && go vet ./core/... ./lib/mpsc/... 2>&1 | head -3; go build ./...", wt)
                if r.returncode: print(b["id"], "DOES NOT BUILD", r.stdout); ok = False
            good = [sh(out + "/demo.sh", "/repo").returncode for _ in range(2)]
            r = sh(out + "/demo.sh", wt)
            bad = [r.returncode, sh(out + "/demo.sh", wt).returncode]
            if any(good) or not all(bad): ok = False
            missing = []
            if os.environ.get("DEMO_ONLY") is None and ok:
                sh("sed -e 's#/repo#%s#g' -e 's#/opt/vp/work#%s/work#g' /opt/vp/test.sh > %s/test.sh" % (wt, d, d), d)
                sh("bash %s/test.sh %s/out.json" % (d, d), d)
                o = json.load(open(d + "/out.json"))
                passed = set(o.get("passed", o.get("pass", [])))
                missing = sorted(stable - passed)
                if missing: ok = False
            print(b["id"], b["property"], "OK" if ok and tot and own < tot else "REJECTED", "good", good, "bad", bad, "missing", missing, "own", own, "of", tot)
            if not ok and not all(bad): print("   demo with patch:", r.stdout[-600:])
            if any(good): print("   demo without:", sh(out + "/demo.sh", "/repo").stdout[-800:])
            if not ok: shutil.rmtree(out, ignore_errors=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        sys.stdout.flush()

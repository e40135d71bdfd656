#!/usr/bin/env python3
"""Development tool: runs checks against patches, each in scratch copies of /repo
and /verif that are bound over the real ones in a mount namespace of their own.
  sweep.py [-j N] seeds [ID...]       every planted bug against its property's check
  sweep.py [-j N] dir DIR CHECKS      every DIR/*.diff against the checks (comma list or 'all')
                                      (FIRST=1: until one of them reports something)
  sweep.py [-j N] clean CHECKS        the checks on the unchanged tree
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def job(name, patch, checks):
    d = tempfile.mkdtemp(prefix="sweep-")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        subprocess.run(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", V + "/", d + "/verif"]
                       if shutil.which("rsync") else ["cp", "-a", V, d + "/verif"], check=True)
        if patch:
            r = subprocess.run(["git", "-C", d + "/repo", "apply", "--whitespace=nowarn", patch], stderr=subprocess.PIPE)
            if r.returncode:
                return [(name, "-", "DOES NOT APPLY " + r.stderr.decode()[:200])]
        out = []
        for c in checks:
            t = time.time()
            p = subprocess.run(["unshare", "-Urm", "bash", "-c",
                                "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec python3 bin/check.py %s" % (d, d, c)],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, VERIF_TIER=os.environ.get("VERIF_TIER", "quick")))
            txt = p.stdout.decode("utf8", "replace").strip().splitlines()
            what = {0: "quiet", 1: "caught"}.get(p.returncode, "NO ANSWER %d" % p.returncode)
            out.append((name, c, what + " (%.0f s) " % (time.time() - t) + (" | ".join(txt[:3] if p.returncode == 1 else txt[-3:])[:300] if p.returncode else "")))
            if p.returncode == 1 and os.environ.get("FIRST"):
                break
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    j = 4
    if a[0] == "-j":
        j, a = int(a[1]), a[2:]
    props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    jobs = []
    if a[0] == "seeds":
        for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
            n = os.path.basename(os.path.dirname(m))
            if len(a) == 1 or n in a[1:]:
                jobs.append((n, os.path.dirname(m) + "/patch.diff", [json.load(open(m))["property"]]))
    elif a[0] == "dir":
        cs = props if a[2] == "all" else a[2].split(",")
        for f in sorted(glob.glob(a[1] + "/*.diff")):
            jobs.append((os.path.basename(f)[:-5], f, cs))
    else:
        cs = props if a[1] == "all" else a[1].split(",")
        jobs = [("clean", None, [c]) for c in cs]
    with ThreadPoolExecutor(j) as ex:
        for f in [ex.submit(job, *x) for x in jobs]:
            for n, c, w in f.result():
                print("%-34s %-4s %s" % (n, c, w), flush=True)


main()

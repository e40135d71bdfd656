"""mkseed.py [id...]: writes /verif/seeded/<id>/ and confirms the demonstrations in a scratch copy."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS
V = os.path.dirname(os.path.dirname(HERE))
WT = "/tmp/seedwt"
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
shutil.rmtree(WT, ignore_errors=True)
sh("git -C /repo worktree prune; git clone -q /repo " + WT)
ids = sys.argv[1:]
for b in BUGS:
    if ids and b["id"] not in ids:
        continue
    sh("git checkout -q -- .", cwd=WT)
    d = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "demo", "src"))
    for x in ("shim", "wrap"):
        shutil.copytree(os.path.join(V, "harness", x), os.path.join(d, x))
    for x in os.listdir(os.path.join(d, "wrap")):
        if x in ("gearley", "gearley-example-grammars"):
            shutil.rmtree(os.path.join(d, "wrap", x))
    shutil.copy(os.path.join(HERE, "Cargo.toml"), d)
    shutil.copy(os.path.join(HERE, "demo.toml"), os.path.join(d, "demo", "Cargo.toml"))
    shutil.copy(os.path.join(HERE, "demo.sh"), d)
    shutil.copy(os.path.join(HERE, "kit.rs"), os.path.join(d, "demo", "src", "kit.rs"))
    open(os.path.join(d, "demo", "src", "main.rs"), "w").write(b["demo"] + "\n")
    lock = os.path.join(HERE, "Cargo.lock")
    if not os.path.exists(lock):
        r = sh("cp %s/harness/Cargo.lock . && cargo generate-lockfile --offline 2>&1; cargo metadata --offline --format-version 1 > /dev/null" % V, cwd=d)
        shutil.copy(os.path.join(d, "Cargo.lock"), lock)
    shutil.copy(lock, d)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    r0 = sh("bash %s/demo.sh" % d, cwd=WT)
    ok = True
    for f, old, new in b["edits"]:
        p = os.path.join(WT, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT DOES NOT APPLY", f, s.count(old))
            ok = False
            break
        open(p, "w").write(s.replace(old, new))
    if not ok:
        continue
    diff = sh("git diff", cwd=WT).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    r1 = sh("bash %s/demo.sh" % d, cwd=WT)
    last = (r1.stdout.decode().strip().splitlines() or [""])
    print(b["id"], "clean", r0.returncode, "patched", r1.returncode, "" if r0.returncode == 0 and r1.returncode not in (0, 98, 99) else "*** " + (r0.stdout.decode()[-1500:] if r0.returncode else "") + "\n".join(last[-12:]), flush=True)
sh("git checkout -q -- .", cwd=WT)
shutil.rmtree(WT, ignore_errors=True)

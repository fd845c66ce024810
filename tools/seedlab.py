#!/usr/bin/env python3
"""Development aid (not a check): confirms planted bugs in a scratch copy bound over /repo.

  seedlab.py prep                      make /tmp/sw/{repo,verif} from HEAD of both
  seedlab.py confirm ID...             builds, tests, demo with and without the patch
  seedlab.py check ID [PROP...]        runs checks of the scratch /verif against the patched scratch /repo
"""
import json, os, subprocess, sys
SW = "/tmp/sw"
SEED = "/verif/seeded"
SRC = os.environ.get("VSRC", "/verif")  # where the checks are taken from

def sh(script, **k):
    return subprocess.run(["unshare", "-m", "bash", "-c",
        f"mount --bind {SW}/repo /repo && mount --bind {SW}/seeded /mnt && mount --bind {SW}/verif /verif && cd /repo && " + script],
        text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def prep():
    subprocess.run(f"mkdir -p {SW}/seeded && rsync -a --delete /repo/ {SW}/repo/ && rsync -a --delete /verif/ {SW}/verif/", shell=True, check=True)

def sync():
    subprocess.run(f"rsync -a --delete {SEED}/ {SW}/seeded/ && cd {SW}/repo && git checkout -q -- . && git clean -fdq", shell=True, check=True)
    subprocess.run(f"rsync -a --delete --exclude target --exclude build --exclude evidence --exclude replays --exclude seeded {SRC}/ {SW}/verif/", shell=True, check=True)

def stable():
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = sh("bash /opt/vp/build.sh >/tmp/sw/b.log 2>&1 || { tail -20 /tmp/sw/b.log; exit 9; }; bash /opt/vp/test.sh /tmp/sw/t.json >/tmp/sw/t.log 2>&1; true")
    if r.returncode == 9:
        return "BUILD FAILED\n" + r.stdout
    t = json.load(open("/tmp/sw/t.json"))
    miss = base - set(t["passed"])
    return ("TESTS FAIL " + str(sorted(miss))) if miss else "ok"

def demo(i):
    r = sh(f"bash /mnt/{i}/demo.sh")
    return r.returncode, r.stdout[-400:]

def main():
    cmd, a = sys.argv[1], sys.argv[2:]
    if cmd == "prep":
        prep(); sync(); print(stable()); return
    sync()
    if cmd == "confirm":
        for i in a:
            rc0, o0 = demo(i)   # scratch is clean and built by the previous revert or prep
            r = sh(f"git apply /mnt/{i}/patch.diff")
            if r.returncode:
                print(i, "PATCH", r.stdout); continue
            st = stable()
            rc1, o1 = demo(i)
            sync(); s2 = stable()
            print(i, "clean demo", rc0, "|", st, "| patched demo", rc1, "|", "GOOD" if rc0 == 0 and rc1 and st == "ok" else "BAD", flush=True)
            if rc0 or not rc1: print(o0, o1)
    elif cmd == "check":
        i = a[0]
        props = a[1:] or [json.load(open(f"{SEED}/{i}/meta.json"))["property"]]
        r = sh(f"git apply /mnt/{i}/patch.diff")
        assert r.returncode == 0, r.stdout
        for p in props:
            r = sh(f"cd /verif && bin/check {p}")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"{i:28s} {p} rc={r.returncode}", "CAUGHT" if r.returncode == 1 and v else ("quiet" if r.returncode == 0 else "ERROR"), "|", (r.stdout.splitlines() or [""])[-3 if v else -1][:110], "|", (r.stdout.splitlines()[-2][:150] if v else ""), flush=True)
        sync()
main()

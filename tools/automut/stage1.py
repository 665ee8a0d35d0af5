#!/usr/bin/env python3
"""stage1.py MUTANTS.jsonl OUT.jsonl : keep the changes that build and pass the tests of their own package."""
import sys, os, json, subprocess, shutil, threading, queue, random
env = dict(os.environ)
out = subprocess.check_output(["bash", "-c", ". /opt/vp/env.sh; env -0"]).decode()
env.update(dict(x.split("=", 1) for x in out.split("\0") if "=" in x))
env["GOMAXPROCS"] = "2"
J = int(os.environ.get("J", "6"))
ms = [json.loads(l) for l in open(sys.argv[1])]
done = set()
if os.path.exists(sys.argv[2]):
    done = {json.loads(l)["id"] for l in open(sys.argv[2])}
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
random.Random(1).shuffle(ms)
q = queue.Queue()
for m in ms:
    if m["id"] not in done: q.put(m)
lock = threading.Lock(); fo = open(sys.argv[2], "a")
def stab(pkg):
    p = "github.com/trustbloc/vc-go" + ("/" + pkg if pkg else "") + "/"
    return {x[len(p):] for x in stable if x.startswith(p)}
def work(n):
    d = f"/tmp/am/w{n}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call(f"cp -a /repo/. {d} && git -C {d} checkout -qf HEAD -- .", shell=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        f = f"{d}/{m['file']}"; src = open(f, "rb").read()
        open(f, "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
        try:
            pkg = os.path.dirname(m["file"])
            b = subprocess.run(["go", "build", "./" + pkg], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if b.returncode: st = "nobuild"
            else:
                st = "survived"
                # the whole package subtree's tests, without those that fail on the unchanged tree
                tops = sorted({x.split("/")[0] for x in stab(pkg) if x.startswith("Test") and "TestParseCredentialWithResource" not in x})
                if tops:
                    try:
                        r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-failfast", "-timeout", "120s", "-run", "^(" + "|".join(tops) + ")$", "-skip", "^TestParseCredentialWithResource$", "-json", "./" + pkg], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=200)
                        ss = stab(pkg)
                        failed = False
                        for l in r.stdout.splitlines():
                            try: e = json.loads(l)
                            except Exception: continue
                            if e.get("Action") == "fail" and (not e.get("Test") or e["Test"] in ss):
                                if e.get("Test"): failed = True
                        if r.returncode and not failed:
                            ok = {json.loads(l).get("Test") for l in r.stdout.splitlines() if '"pass"' in l}
                            failed = any(t not in ok for t in tops)
                        if failed: st = "killed"
                    except subprocess.TimeoutExpired: st = "killed"
            with lock:
                fo.write(json.dumps({**m, "st": st}) + "\n"); fo.flush()
        finally:
            open(f, "wb").write(src)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(J)]
[t.start() for t in ts]; [t.join() for t in ts]

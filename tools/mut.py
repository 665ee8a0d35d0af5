#!/usr/bin/env python3
"""Quick experiments with planted changes: python3 tools/mut.py FILE [id...]
FILE defines M(id, "C01[,C02]", [(file, old, new), ...]). For each: apply to a scratch copy of /repo, build, run the
stable suite and the named checks against it. Prints one line per (change, check)."""
import sys, os, subprocess, json, tempfile, shutil, re
env = dict(os.environ)
out = subprocess.check_output(["bash", "-c", ". /opt/vp/env.sh; env -0"]).decode()
env.update(dict(x.split("=", 1) for x in out.split("\0") if "=" in x))
defs = {}
def M(id, props, edits):
    assert id not in defs, id
    defs[id] = (props.split(","), edits)
exec(open(sys.argv[1]).read())
want = sys.argv[2:] or list(defs)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env={**env, **kw}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
def one(id):
    props, edits = defs[id]
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp/mut")
    try:
        subprocess.check_call(f"cp -a /repo/. {d} && git -C {d} checkout -qf HEAD -- .", shell=True)
        bad = False
        for f, old, new in edits:
            s = open(f"{d}/{f}").read()
            if s.count(old) != 1:
                print(id, "EDIT MISMATCH", f, s.count(old), repr(old[:70])); bad = True; break
            open(f"{d}/{f}", "w").write(s.replace(old, new))
        if bad: return
        r = sh("go build ./...", d)
        if r.returncode: print(id, "NO BUILD", r.stdout[:400]); return
        if not os.environ.get("NOSUITE"):
            r = sh("go test -json -vet=off -count=1 -skip '^TestParseCredentialWithResource$' ./... 2>/dev/null", d)
            ok = set()
            for l in r.stdout.splitlines():
                try: e = json.loads(l)
                except Exception: continue
                if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
            m = sorted(stable - ok)
            m = [x for x in m if "TestParseCredentialWithResource" not in x]
            print(id, "suite: ok" if not m else f"suite: {len(m)} MISSING {[x.split('vc-go/')[-1] for x in m[:3]]}", flush=True)
        H = "/verif/harness"
        shutil.copy(H + "/go.sum", f"{d}.sum")
        open(f"{d}.mod", "w").write(re.sub(r"=> /repo\b", f"=> {d}", open(H + "/go.mod").read()))
        for p in props:
            l = p.lower()
            race = "-race" if os.path.exists(f"{H}/cmd/{l}/RACE") else ""
            r = sh(f"go build {race} -modfile={d}.mod -o {d}.bin ./cmd/{l}", H)
            if r.returncode: print(id, p, "CHECK BUILD FAIL", r.stdout[:300]); continue
            r = sh(f"timeout 890 {d}.bin", H, VERIF_SEED="1", VERIF_TIER=os.environ.get("TIER", "quick"), VH_EVDIR=f"{d}.ev")
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            last = (r.stdout.splitlines() or [""])[-1]
            print(f"   {id} {p}:", f"CAUGHT x{len(v)} " + v[0][v[0].find("key="):][:170] if r.returncode == 1 and v else f"*** MISSED rc={r.returncode} {last[:150]}", flush=True)
            shutil.rmtree(f"{d}.ev", ignore_errors=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for x in (".sum", ".mod", ".bin"):
            if os.path.exists(d + x): os.remove(d + x)

from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for f in [ex.submit(one, id) for id in want]: f.result()

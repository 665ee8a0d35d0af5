#!/usr/bin/env python3
"""stage2.py STAGE1.jsonl OUT.jsonl : run the checks that watch a changed file on each surviving change until one reports it;
for those none reports, the whole stable suite. Follows STAGE1 as it grows."""
import sys, os, json, subprocess, shutil, threading, re, time, random
env = dict(os.environ)
out = subprocess.check_output(["bash", "-c", ". /opt/vp/env.sh; env -0"]).decode()
env.update(dict(x.split("=", 1) for x in out.split("\0") if "=" in x))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
MAP = [  # first match
 (r"sdjwt/(verifier|common/verification)", "C07 C06 C08 C12"), (r"sdjwt/holder", "C06 C07 C08"), (r"sdjwt/issuer", "C06 C08 C11"), (r"sdjwt/", "C06 C07 C08 C12"),
 (r"verifiable/credential_sdjwt", "C08 C11 C09"), (r"dataintegrity/|verifiable/(did_)?data_integrity", "C03 C12 C05 C11"),
 (r"verifiable/did_ldp|verifiable/lddocument|verifiable/linked_data|verifiable/credential_ldp", "C02 C03 C12 C11"), (r"verifiable/embedded", "C02 C03 C05 C12"),
 (r"verifiable/bbs|verifiable/credential_bbs|crypto-ext/verifiers/bbs", "C23 C22 C02 C12"), (r"crypto-ext/", "C22 C24 C12"), (r"proof/", "C24 C01 C02 C04 C22 C12"),
 (r"vermethod", "C24 C01"), (r"jwt/", "C01 C07 C09 C12 C10"), (r"cwt/|verifiable/(cose|cwt)", "C04 C09 C10 C12"),
 (r"verifiable/credential_cwt", "C09 C04 C10 C11"), (r"verifiable/(credential_jw|jw)", "C09 C01 C10 C18 C12 C11"),
 (r"verifiable/presentation_(jw|cwt)", "C09 C05 C10 C11 C12"), (r"verifiable/presentation", "C05 C10 C11 C09 C18 C12"),
 (r"verifiable/related", "C19 C12"), (r"verifiable/cache", "C20"), (r"verifiable/", "C10 C18 C01 C11 C20 C09 C12"),
 (r"status/", "C14 C12"), (r"presexch/internal", "C16 C15"), (r"presexch/", "C15 C16 C12 C11"), (r"didconfig", "C17 C12"), (r"legacy", "C21"),
 (r"util/", "C10 C18 C09 C12"), (r"", "C10 C12")]
def checks(f): return next(c.split() for p, c in MAP if re.match(p, f))
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env={**env, **kw}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
H = "/verif/harness"
lock = threading.Lock(); fo = open(sys.argv[2], "a"); taken = {json.loads(l)["id"] for l in open(sys.argv[2])}
only = os.environ.get("ONLY")
def nxt():
    with lock:
        for l in open(sys.argv[1]):
            if not l.endswith("\n"): break
            m = json.loads(l)
            if m["st"] == "survived" and m["id"] not in taken and (not only or re.match(only, m["file"])):
                taken.add(m["id"]); return m
def work(n):
    d = f"/tmp/am/s{n}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.check_call(f"cp -a /repo/. {d} && git -C {d} checkout -qf HEAD -- .", shell=True)
    shutil.copy(H + "/go.sum", f"{d}.sum")
    open(f"{d}.mod", "w").write(re.sub(r"=> /repo\b", f"=> {d}", open(H + "/go.mod").read()))
    idle = 0
    while idle < 60:
        m = nxt()
        if not m: idle += 1; time.sleep(10); continue
        idle = 0
        f = f"{d}/{m['file']}"; src = open(f, "rb").read()
        open(f, "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
        res, notes = "MISSED", []
        try:
            for p in [x for x in checks(m["file"]) if x not in os.environ.get("LATER", "C12").split()]:
                l = p.lower(); race = "-race" if os.path.exists(f"{H}/cmd/{l}/RACE") else ""
                r = sh(f"go build {race} -modfile={d}.mod -o {d}.bin ./cmd/{l}", H)
                if r.returncode: notes.append(p + " nobuild"); continue
                r = sh(f"timeout 600 {d}.bin", H, VERIF_SEED="1", VERIF_TIER="quick", VH_EVDIR=f"{d}.ev")
                shutil.rmtree(f"{d}.ev", ignore_errors=True)
                v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
                if r.returncode == 1 and v: res = p; notes.append(v[0][v[0].find("key="):][:120]); break
                if r.returncode != 0: notes.append(f"{p} rc={r.returncode} " + (r.stdout.splitlines() or [""])[-1][:160])
            if res == "MISSED":
                r = sh("go test -json -vet=off -skip '^TestParseCredentialWithResource$' ./... 2>/dev/null", d)
                ok = set()
                for l in r.stdout.splitlines():
                    try: e = json.loads(l)
                    except Exception: continue
                    if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
                miss = [x for x in stable - ok if "TestParseCredentialWithResource" not in x]
                if miss: res = "SUITE"
        finally:
            open(f, "wb").write(src)
        with lock:
            fo.write(json.dumps({**m, "res": res, "notes": notes}) + "\n"); fo.flush()
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(int(os.environ.get("J", "2")))]
[t.start() for t in ts]; [t.join() for t in ts]

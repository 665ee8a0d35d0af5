#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in tools/seeds_*.py: python3 tools/mkseed.py [id...]
A definition: S(id, property, [(file, old, new), ...], needs, breaks, go_body, extra_imports)
go_body is the body of  func demo() error  in a program that uses the harness helper package vh."""
import sys, os, glob, json, subprocess, shutil, tempfile
V = "/verif"
defs = {}
def S(id, prop, edits, needs, breaks, body, imports=(), top=""):
    assert id not in defs, id
    defs[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, body=body, imports=imports, top=top)
def E(file, id):
    """the edits of an experiment in tools/mut"""
    got = {}
    exec(open(f"{V}/tools/mut/{file}.py").read(), {"M": lambda i, props, edits: got.setdefault(i, edits)})
    return got[id]
for f in sorted(glob.glob(V + "/tools/seeds_*.py")):
    exec(open(f).read())
want = sys.argv[1:] or [d for d in defs if not os.path.exists(f"{V}/seeded/{d}/patch.diff")]
DEMO = '''#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken. Run with the repository as working directory.
. /opt/vp/env.sh 2>/dev/null
repo=$PWD; here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cp -r "$here/prog/." "$t/" && cd "$t" || exit 3
sed -i "s#=> /repo\\$#=> $repo#" go.mod
go build -o "$t/demo.bin" . || exit 3
"$t/demo.bin"
'''
for id in want:
    d = defs[id]
    out = f"{V}/seeded/{id}"
    wt = tempfile.mkdtemp(prefix="mkseed")
    subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {wt} && cd {wt} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True)
    base = lambda f: subprocess.run(["git", "-C", "/repo", "show", "6754124:" + f], capture_output=True, text=True).stdout.splitlines()
    orig = False
    for f, old, new in d["edits"]:
        s = open(f"{wt}/{f}").read()
        if s.count(old) != 1: print(id, "EDIT MISMATCH", f, s.count(old), repr(old[:80])); sys.exit(1)
        open(f"{wt}/{f}", "w").write(s.replace(old, new))
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out + "/prog/vh")
    for f in {e[0] for e in d["edits"]}:
        lines = set(base(f))
        gone = [l[1:] for l in subprocess.check_output(["git", "-C", wt, "diff", "-U0", f]).decode().splitlines() if l.startswith("-") and not l.startswith("---")]
        orig = orig or any(l in lines and l.strip() not in ("", "}", ")") for l in gone)
    if not orig: print(id, "WARNING: changes no original line")
    diff = subprocess.check_output(["git", "-C", wt, "diff"]).decode()
    open(out + "/patch.diff", "w").write(diff)
    shutil.rmtree(wt)
    for f in glob.glob(V + "/harness/vh/*.go"):
        if not f.endswith("/check.go"): shutil.copy(f, out + "/prog/vh/")
    shutil.copytree(f"{V}/harness/vh/data", f"{out}/prog/vh/data")
    shutil.copy(f"{V}/harness/go.mod", out + "/prog/go.mod"); shutil.copy(f"{V}/harness/go.sum", out + "/prog/go.sum")
    imps = sorted(set(["fmt", "os", "github.com/trustbloc/vc-go/verifharness/vh"] + list(d["imports"])))
    src = "package main\n\nimport (\n" + "".join(f'\t{i}\n' if " " in i else f'\t"{i}"\n' for i in imps) + ")\n\nvar _ = vh.J\n\n"
    src += d["top"] + "\n\nfunc demo() error {\n" + d["body"] + "\n}\n\nfunc main() {\n\tif err := demo(); err != nil {\n\t\tfmt.Println(\"BROKEN:\", err)\n\t\tos.Exit(1)\n\t}\n\n\tfmt.Println(\"ok\")\n}\n"
    open(out + "/prog/main.go", "w").write(src)
    open(out + "/demo.sh", "w").write(DEMO); os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    print("made", id)

"""mkbug.py FILE: creates seeded/<id>/ from a small description (python dict literal per bug): id, property, edits
[(file, old, new)], demo (C++ source), needs, breaks.  The demo is confirmed against the unchanged and the changed tree
in a scratch copy of the headers."""
import sys, os, json, subprocess, shutil, tempfile
SH = """#!/bin/bash
# run with cwd /repo
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O1 -w -I include %s-o "$T/demo" "$D/demo.cxx" %s|| exit 2
cd "$T" && timeout 60 ./demo
"""
def main(f):
    for b in eval(open(f).read()):
        d = "/verif/seeded/" + b["id"]
        tmp = tempfile.mkdtemp(prefix="mkbug")
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call("cd /repo && git archive HEAD include src | tar -x -C " + tmp, shell=True)
        subprocess.check_call("cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x" % tmp, shell=True)
        for fn, old, new in b["edits"]:
            p = os.path.join(tmp, fn)
            s = open(p).read()
            n = s.count(old)
            if n != b.get("count", 1):
                print(b["id"], "edit matches", n); break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = subprocess.check_output(["git", "-C", tmp, "diff"], text=True)
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(SH % (b.get("flags", "") + " " if b.get("flags") else "", b.get("libs", "") + " " if b.get("libs") else ""))
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.cxx", "w").write(b["demo"].strip() + "\n")
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=tmp).returncode
            subprocess.check_call(["git", "-C", tmp, "stash", "-q"])
            r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=tmp).returncode
            chk = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"]).returncode
            print(b["id"], "unchanged", r0, "changed", r1, "OK" if r0 == 0 and r1 not in (0, 2) and chk == 0 else "BAD")
        shutil.rmtree(tmp)
main(sys.argv[1])

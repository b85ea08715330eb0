#!/bin/bash
# developer's self-check: each bounded stand-in compiles on its own against /repo, as its check composes it
cd "$(dirname "$0")"; rc=0
for t in harness/c*_verif_test.go; do
python3 - "$t" <<'P' || rc=1
import sys,re,os,json,subprocess,tempfile
t=os.path.abspath(sys.argv[1]); s=open(t).read(); h=os.path.dirname(t); repo=os.environ.get("VERIF_REPO","/repo")
f=[h+"/gen_verif_test.go",t]+[h+"/"+m for m in re.findall(r"(?m)^// needs: (\S+)",s)]
m=re.search(r"(?m)^// package-dir: (\S+)",s); sub=m[1] if m else "."
if m: f=[t]
fl=re.search(r"(?m)^// build-flags: (.*)",s)
with tempfile.TemporaryDirectory() as d:
    json.dump({"Replace":{os.path.normpath(os.path.join(repo,sub,os.path.basename(x))):x for x in f}},open(d+"/ov","w"))
    r=subprocess.run(["go","test","-vet=off","-c","-overlay",d+"/ov","-o",d+"/t"]+(fl[1].split() if fl else [])+["./"+sub],cwd=repo,capture_output=True,text=True)
    print(os.path.basename(t),"ok" if r.returncode==0 else r.stderr)
    sys.exit(r.returncode)
P
done
exit $rc

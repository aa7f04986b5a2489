# usage: mkseed.py id prop pkg < spec: python literal dict
import sys,os,json,subprocess,textwrap
spec=eval(sys.stdin.read())
id=spec['id']; d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
s='/tmp/mk_'+id
subprocess.run(['rm','-rf',s]); subprocess.run(['cp','-a','/repo',s],check=True)
for f,a,b in spec['edits']:
    t=open(s+'/'+f).read(); assert t.count(a)>=1,(f,a); 
    t=t.replace(a,b,1) if not spec.get('last') else b.join(t.rsplit(a,1)); open(s+'/'+f,'w').write(t)
subprocess.run(['gofmt','-l']+[s+'/'+e[0] for e in spec['edits']])
p=subprocess.run(['git','-C',s,'diff'],capture_output=True,text=True).stdout
open(d+'/patch.diff','w').write(p)
subprocess.run(['rm','-rf',s])
pkg=spec['pkg']
open(d+'/demo_test.go','w').write(spec['demo'].lstrip('\n'))
race=' -race' if spec.get('race') else ''
tags=' -tags='+spec['tags'] if spec.get('tags') else ''
open(d+'/demo.sh','w').write('''#!/bin/bash
# exits 0 if the property holds in the demonstrated case
d="$(cd "$(dirname "$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
o="$(mktemp)"
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$o"
go test%s%s -count=1 -timeout 280s -overlay "$o" -run TestSeedDemo ./%s
rc=$?
rm -f "$o"
exit $rc
''' % (pkg,race,tags,pkg))
json.dump({"property":spec['prop'],"needs":spec['needs'],"what_it_breaks":spec['breaks']},open(d+'/meta.json','w'),indent=1)

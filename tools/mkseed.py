#!/usr/bin/env python3
"""mkseed.py SPEC.py: spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (go test source), PKG (dir), UTIL(optional list of files)"""
import sys,os,subprocess,json,shutil
ns={}
exec(open(sys.argv[1]).read(),ns)
d='/verif/seeded/'+ns['ID']; os.makedirs(d,exist_ok=True)
R='/tmp/mkseed_repo'; shutil.rmtree(R,ignore_errors=True); subprocess.check_call(['git','clone','-q','/repo',R])
for f,o,n in ns['EDITS']:
    p=R+'/'+f; s=open(p).read()
    assert s.count(o)==1,(f,o,s.count(o))
    open(p,'w').write(s.replace(o,n))
open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',R,'diff'],text=True))
shutil.rmtree(R)
json.dump({"property":ns['PROP'],"needs":ns['NEEDS'],"what_it_breaks":ns['BREAKS']},open(d+'/meta.json','w'),indent=1)
files=['demo_test.go']
open(d+'/demo_test.go','w').write(ns['DEMO'])
for u in ns.get('UTIL',[]):
    shutil.copy(u,d); files.append(os.path.basename(u))
pkg=ns.get('PKG','.')
hide=['"$PWD/%s": ""'%h for h in ns.get('HIDE',[])]
rep=',\n'.join(hide+['"$PWD/%s/zz_%s": "$here/%s"'%(pkg,f,f) for f in files])
extra=ns.get('ENV','')
open(d+'/demo.sh','w').write('''#!/bin/bash
# run in the repository root: exits 0 if the behaviour is right, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local %s
t="$(mktemp -d)" || exit 2
trap 'rm -rf "$t"' EXIT
export TMPDIR="$t"
cat >"$t/overlay.json" <<EOF
{"Replace": {
%s
}}
EOF
%sgo test -vet=off -count=1 -timeout 250s %s -overlay "$t/overlay.json" -run '^TestZZ' ./%s
'''%(extra,rep,ns.get('PRE',''),ns.get('GOARGS',''),pkg))
os.chmod(d+'/demo.sh',0o755)

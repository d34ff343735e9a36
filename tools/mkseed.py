"""mkseed.py ID <<JSON-ish python dict: prop, needs, breaks, edits=[(file,old,new)], demo=str, files={name:text}"""
import sys,subprocess,json,os,shutil
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
SR='/tmp/sr'
def mk(id,prop,needs,breaks,edits,demo,files={}):
    if not os.path.isdir(SR): sh('cp -a /repo /tmp/sr')
    sh('cd /tmp/sr && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    for f,o,n in edits:
        p=f'{SR}/{f}'; s=open(p).read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    diff=sh('cd /tmp/sr && git diff').stdout
    open(d+'/patch.diff','w').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write(demo)
    for k,v in files.items(): open(f'{d}/{k}','w').write(v)
    r=sh('bash /tmp/w/test_sr.sh /tmp/osr.json')
    b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/osr.json'))
    reg=[x for x in b['stable'] if x not in o['passed']]
    bad=sh(f'cd {SR} && bash {d}/demo.sh'); good=sh(f'cd /repo && bash {d}/demo.sh')
    ok = not reg and bad.returncode!=0 and good.returncode==0
    print(id,'OK' if ok else 'BAD',f'regressed={reg[:3]} demo patched={bad.returncode} clean={good.returncode}')
    if not ok: print(r.stdout[-600:] if reg else '', bad.stdout[-500:], good.stdout[-500:])
    sh('cd /tmp/sr && git checkout -q -- .')
    if not ok: shutil.rmtree(d)
HEAD='''#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is broken
A="$PWD/target/debug/avdl"; D=$(mktemp -d); trap 'rm -r "$D"' EXIT; cd "$D" || exit 2
'''

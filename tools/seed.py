#!/usr/bin/env python3
"""tools/seed.py ID...: build and confirm seeded bugs described in tools/seed/bugs/ID.py
 (FILE, OLD, NEW or EDITS, PROP, NEEDS, BREAKS, MAIN). Writes /verif/seeded/ID when confirmed."""
import sys, os, subprocess, json, shutil, runpy
T='/verif/tools/seed'; W=os.environ.get('SW','/tmp/seedw'); R=W+'/repo'
ENV=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_PROFILE_DEV_DEBUG='line-tables-only',RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
def reset():
    if not os.path.exists(R):
        os.makedirs(W,exist_ok=True); sh('cp -a /repo %s'%R)
    sh('cd %s && git checkout -q -f -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD'%R)
base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None
for i in sys.argv[1:]:
    b=runpy.run_path('%s/bugs/%s.py'%(T,i))
    reset()
    ed=b.get('EDITS') or [(b['FILE'],b['OLD'],b['NEW'])]
    okk=True
    for f,o,n in ed:
        p=R+'/'+f; s=open(p).read()
        if s.count(o)!=1: print(i,'EDIT matches',s.count(o),'times in',f); okk=False; break
        open(p,'w').write(s.replace(o,n))
    if not okk: continue
    d=sh('git -C %s diff'%R).stdout
    D=W+'/seed.'+i; shutil.rmtree(D,ignore_errors=True); os.makedirs(D)
    open(D+'/patch.diff','w').write(d)
    open(D+'/demo.sh','w').write(b['DEMO']) if 'DEMO' in b else shutil.copy(T+'/demo.sh',D)
    if 'MAIN' in b: shutil.copy(T+'/support.rs',D)
    if 'MAIN' in b: open(D+'/main.rs','w').write('mod support;\n'+b['MAIN'])
    json.dump({'property':b['PROP'],'needs':b['NEEDS'],'what_it_breaks':b['BREAKS']},open(D+'/meta.json','w'),indent=1)
    r=sh('cd %s && bash %s/demo.sh'%(R,D)); dp=r.returncode; po=r.stdout
    t=sh('cd %s && timeout 600 cargo test --workspace --all-features --no-fail-fast --offline 2>&1'%R,env=ENV)
    fails=[l for l in t.stdout.split('\n') if 'FAILED' in l or l.startswith('error')][:5]
    sh('git -C %s checkout -q -f -- .'%R)
    r=sh('cd %s && bash %s/demo.sh'%(R,D)); du=r.returncode
    good = t.returncode==0 and dp!=0 and du==0 and ('panicked' in po or 'DEMO' in b)
    print(i,'tests',t.returncode,'demo patched',dp,'unpatched',du,'OK' if good else 'BAD')
    if fails: print('   ',fails)
    if dp==0 or 'panicked' not in po: print("\n".join([l for l in po.split("\n") if l.startswith("error") or "-->" in l][:6]))
    else: print('   ',po.split('\n')[-4:-1])
    if du!=0: print("\n".join([l for l in r.stdout.split("\n") if l.startswith("error") or "-->" in l or "panick" in l][:6]))
    if good:
        o='/verif/seeded/'+i; shutil.rmtree(o,ignore_errors=True); shutil.copytree(D,o)
    shutil.rmtree(D,ignore_errors=True)

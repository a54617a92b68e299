import subprocess,sys,os,json,shutil
R='/repo/'
def mk(id, prop, edits, demo, needs, breaks, prelude='transport.rs'):
    S=f'/verif/seeded/{id}'; os.makedirs(S,exist_ok=True)
    for f,a,b in edits:
        p=R+f; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a),a); open(p,'w').write(s.replace(a,b))
    d=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
    assert d
    open(S+'/patch.diff','w').write(d)
    subprocess.run(['git','-C',R,'checkout','-q','--','.'],check=True)
    for x in ('demo.sh','mkws.py','demo.toml','Cargo.lock.seed'): shutil.copy('/verif/tools/demo/'+x,S)
    if prelude: shutil.copy('/verif/tools/demo/'+prelude,S)
    open(S+'/demo.rs','w').write(demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(S+'/meta.json','w'),indent=1)

import subprocess,os,json,shutil
V='/verif/seeded/'; SR='/tmp/sr'+os.environ.get('SW','')
def mk(id,prop,needs,breaks,edits,demo):
    d=V+id; os.makedirs(d,exist_ok=True)
    for f,old,new in edits:
        p=SR+'/'+(f if '/' in f else 'arm-wt-22k/lib_src/'+f)
        s=open(p,encoding='latin1').read(); assert s.count(old)==1,(f,s.count(old),old)
        open(p,'w',encoding='latin1').write(s.replace(old,new))
    diff=subprocess.run(['git','-C',SR,'diff'],capture_output=True).stdout
    subprocess.check_call(['git','-C',SR,'checkout','-q','--','.'])
    open(d+'/patch.diff','wb').write(diff)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.c','w').write('#include "d.h"\n'+demo)
    shutil.copy('/verif/tools/seedlib/d.h',d+'/d.h'); shutil.copy('/verif/tools/seedlib/demo.sh',d+'/demo.sh')

import os,json,subprocess,sys
rows=[]
for s in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%s)); rows.append((s,m['property'],m['needs']))
    
def run(a):
    s,p,n=a
    d='/tmp/st_'+s
    subprocess.run(['rm','-rf',d]); subprocess.run(['mkdir',d]); subprocess.run('cp -a /repo/xigt /repo/*.py %s/ 2>/dev/null; cd %s && git apply --unsafe-paths --directory= /verif/seeded/%s/patch.diff'%(d,d,s),shell=True,check=True)
    hits=[]
    for i in range(1,36):
        c='C%02d'%i
        r=subprocess.run(['python3','-B','xsa/check.py',c,'--repo',d,'--no-evidence'],cwd='/verif',capture_output=True,text=True)
        if r.returncode==1: hits.append(c)
        elif r.returncode: hits.append(c+'(!%d)'%r.returncode)
    subprocess.run(['rm','-rf',d])
    return '| %s | %s | %s | %s |'%(s,p,n.replace('|','\\|'),' '.join(hits))
from multiprocessing import Pool
with Pool(8) as p: out=p.map(run,rows,chunksize=1)
print('| change | property | needs | reported by |\n|---|---|---|---|'); print('\n'.join(out))

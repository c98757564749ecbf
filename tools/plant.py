#!/usr/bin/env python3
"""plant.py ID PROPERTY "needs" "breaks" FILE OLD NEW [FILE OLD NEW ...]: edits /repo, records the diff as seeded/ID, checks the demo with and without it, restores /repo."""
import sys,subprocess,json,os,shutil
V='/verif';i,prop,needs,br=sys.argv[1:5];ed=sys.argv[5:];d=f'{V}/seeded/{i}'
R=lambda *c,**k:subprocess.run(c,capture_output=True,text=True,**k)
assert not R('git','-C','/repo','status','--short').stdout.strip(),'repo dirty'
if not os.path.exists(d+'/demo.sh'): shutil.copy(V+'/tools/demo_template.sh',d+'/demo.sh')
try:
    for f,o,n in zip(ed[::3],ed[1::3],ed[2::3]):
        p='/repo/CEX/'+f; s=open(p,newline='').read(); crlf='\r\n' in s
        if crlf: o=o.replace('\n','\r\n'); n=n.replace('\n','\r\n')
        assert s.count(o)==1,(f,s.count(o)); open(p,'w',newline='').write(s.replace(o,n))
    open(d+'/patch.diff','w',newline='').write(subprocess.run(['git','-C','/repo','-c','core.autocrlf=false','diff','--binary'],capture_output=True).stdout.decode())
    b=R('bash','/opt/vp/build.sh'); print('build',b.returncode,b.stdout[-300:] if b.returncode else '')
    r=R('bash',d+'/demo.sh',cwd='/repo'); print('with patch rc',r.returncode,r.stdout[-200:].strip(),r.stderr[-200:])
finally:
    R('git','-C','/repo','checkout','--','.')
b=R('bash','/opt/vp/build.sh'); r2=R('bash',d+'/demo.sh',cwd='/repo'); print('without rc',r2.returncode,r2.stdout[-200:].strip(),r2.stderr[-300:])
a=R('git','-C','/repo','apply','--check',d+'/patch.diff'); print('apply',a.returncode,a.stderr[:200])
json.dump({"property":prop,"needs":needs,"what_it_breaks":br},open(d+'/meta.json','w'),indent=1)

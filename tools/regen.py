
import sys,os,subprocess,importlib.util,glob,json
B={}
for f in sorted(glob.glob('/tmp/seed/b*.py')):
  s=importlib.util.spec_from_file_location('s',f);m=importlib.util.module_from_spec(s);s.loader.exec_module(m)
  for b in m.BUGS: B[b['id']]=b
w='/tmp/seed/regen'
subprocess.run(['rm','-rf',w]);subprocess.run(['git','clone','-q','/repo',w],check=True)
for i in sorted(os.listdir('/verif/seeded')):
  b=B[i]
  subprocess.run(['git','-C',w,'checkout','-q','-f','HEAD'])
  ok=True
  for f,o,n in b['edits']:
    q=f'{w}/waymax/{f}';s=open(q).read()
    if s.count(o)!=1: print(i,'COUNT',s.count(o)); ok=False
    open(q,'w').write(s.replace(o,n))
  d=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout
  if ok and d!=open(f'/verif/seeded/{i}/patch.diff').read(): print('regenerated',i); open(f'/verif/seeded/{i}/patch.diff','w').write(d)
subprocess.run(['rm','-rf',w])

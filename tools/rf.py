"""rf.py SPEC.py [CHECK ...] [-t] [-s]: SPEC calls ed(file, old, new); runs checks on a copy of /repo; -t also runs the stable tests, -s keeps the diff in refactorings/"""
import sys, os, subprocess, shutil, json, tempfile, time
args=[a for a in sys.argv[2:] if not a.startswith('-')]; test='-t' in sys.argv; save='-s' in sys.argv
t=tempfile.mkdtemp(prefix='/tmp/rfc.'); subprocess.run(['cp','-a','/repo',t+'/repo'],check=True)
def ed(f,old,new,n=1):
    p=t+'/repo/tmdsimpy/'+f; s=open(p).read()
    import re
    ls=[l.rstrip() for l in old.split('\n')]
    while ls and not ls[-1]: ls.pop()
    while ls and not ls[0]: ls.pop(0)
    rx=r'[ \t]*\n(?:[ \t]*\n)*'.join(re.escape(l) for l in ls if l)
    k=len(re.findall(rx,s)); assert k==n,(f,k,old)
    new2=new.rstrip() if not new.endswith('\n') else new.rstrip()
    open(p,'w').write(re.sub(rx,lambda m:new2,s))
for s in sys.argv[1].split(','):
    exec(open(s).read(),{'ed':ed})
    if save:
        os.makedirs('/verif/refactorings',exist_ok=True)
d=subprocess.run(['git','-C',t+'/repo','diff'],capture_output=True,text=True).stdout
if save: open('/verif/refactorings/'+os.path.basename(sys.argv[1]).replace('.py','.diff'),'w').write(d)
if test:
    for n in ('build','test'):
        s=open('/opt/vp/%s.sh'%n).read().replace('/opt/vp/cache/reports',t+'/rpt')
        import re; s=re.sub(r'/repo\b',t+'/repo',s); open(t+'/%s.sh'%n,'w').write(s)
    subprocess.run(['bash',t+'/build.sh'],capture_output=True); subprocess.run(['bash',t+'/test.sh',t+'/o.json'],capture_output=True)
    b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(t+'/o.json')); print('tests failing',sorted(b-set(o['passed']))[:4])
ids=args or [l for l in os.environ.get('ALL','').split()]
if ids==['all']: ids=['C%02d'%i for i in range(1,29)]
for i in ids:
    t0=time.time(); r=subprocess.run(['python3','/verif/run.py',i,'--tier','quick','--repo',t+'/repo'],capture_output=True,text=True,cwd='/verif')
    e=json.load(open('/verif/evidence/%s.json'%i)) if os.path.exists('/verif/evidence/%s.json'%i) else {}
    u=str(e).count("'undecided'")
    v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(i,'rc',r.returncode,'viol',len(v),'%.0fs'%(time.time()-t0),[l for l in r.stdout.splitlines()if 'undecided' in l][-1:] , flush=True)
    for l in r.stdout.splitlines():
        if r.returncode and not l.startswith('KNOWN'): print('   ',l[:230]); 
shutil.rmtree(t)

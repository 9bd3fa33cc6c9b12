# sm.py PROPS REGEX [N]: static check first; those quiet are then tested; prints MISSED/undecided
import os,sys,subprocess,re,random,concurrent.futures as cf,shutil,threading
PROPS,RX=sys.argv[1],sys.argv[2]; N=int(sys.argv[3]) if len(sys.argv)>3 else 10**9
KC=os.environ.get('KC','/tmp/kc'); W=int(os.environ.get('W','7'))
ids=[i for i in sorted(os.listdir('/tmp/mut')) if re.search(RX,open(f'/tmp/mut/{i}/info').read())]
random.Random(int(os.environ.get('SEED','1'))).shuffle(ids); ids=ids[:N]
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOMAXPROCS='2')
tl=threading.local(); cnt=[0]; lock=threading.Lock(); st={}
def run(i):
    info=open(f'/tmp/mut/{i}/info').read().strip()
    try: p=subprocess.run([KC,'-property',PROPS,'-tier','quick','-repo','/repo','-verif','/verif','-noevidence','-overlay',f'/tmp/mut/{i}/overlay.json'],env=env,capture_output=True,text=True,timeout=600)
    except subprocess.TimeoutExpired: return
    if 'VIOLATION' in p.stdout: r='caught'
    else:
        und='UNDECIDED' in p.stdout
        if not hasattr(tl,'c'):
            with lock: cnt[0]+=1; n=cnt[0]
            tl.c=f'/tmp/gd{n}'
            if not os.path.isdir(tl.c): shutil.copytree('/tmp/gcbase',tl.c)
        try:
            q=subprocess.run(['go','test','-vet=off','-timeout','40s','-overlay',f'/tmp/mut/{i}/overlay.json','./...'],cwd='/repo',env=dict(env,GOCACHE=tl.c,GOGC='200'),capture_output=True,text=True,timeout=120)
            r='killed' if q.returncode else ('undecided' if und else 'MISSED')
        except subprocess.TimeoutExpired: r='killed'
    with lock:
        st[r]=st.get(r,0)+1
        if r in('MISSED','undecided'): print(i,r,info,flush=True)
with cf.ThreadPoolExecutor(W) as ex: list(ex.map(run,ids))
print(st)

#!/usr/bin/env python3
"""Mutation experiment: mutate.py gen OUT.jsonl [FILE..] | run IN.jsonl LOG.jsonl WORKER NWORKERS
Generates small syntactic changes of /repo's sources and runs the related checks (in a clone of
/verif given by $MV, on a copy of /repo) until one reports a violation. Survivors are reviewed by hand."""
import re,sys,os,json,subprocess,random,time,signal
REPO='/repo'
STREAM='Q01 Q02 Q08 Q10 Q03 Q04 Q09 Q13 Q11 Q07 Q05 Q06 Q12 S05 U03 Q14'.split()
GRAPH='G01 G02 G03 P01 G04 G08 G05 G06 G07 Q13 S03'.split()
SCHED='S01 S02 S04 S03 S05 R04'.split()
CONT='R01 R02 R03 R04 R05 R06 U08 U09'.split()
FILES={
 'raftinc/ringbuffer.tcc':STREAM+['G06'],'raftinc/ringbufferbase.tcc':STREAM,'raftinc/ringbufferheap.tcc':STREAM,'raftinc/ringbufferheap_abstract.tcc':STREAM,'raftinc/ringbufferheap_lessabstract.tcc':STREAM,
 'raftinc/bufferdata.tcc':STREAM,'raftinc/datamanager.tcc':STREAM,'src/pointer.cpp':STREAM,'raftinc/pointer.hpp':STREAM,'raftinc/fifo.hpp':STREAM+CONT,'src/fifo.cpp':STREAM,'raftinc/autorelease.tcc':STREAM,'raftinc/autoreleasebase.hpp':STREAM,
 'raftinc/alloc_traits.tcc':['Q14']+STREAM,'raftinc/fifoabstract.tcc':STREAM,'raftinc/blocked.hpp':['U03'],'src/blocked.cpp':['U03'],'raftinc/signal.hpp':['Q03'],'raftinc/threadaccess.hpp':['Q12'],
 'src/port.cpp':['P01','Q13']+GRAPH,'raftinc/port.hpp':['P01','Q13','G01']+GRAPH,'src/portiterator.cpp':['P01'],'raftinc/portiterator.hpp':['P01'],'src/port_info.cpp':['P01']+GRAPH,'raftinc/port_info.hpp':['P01']+GRAPH,
 'src/map.cpp':['G04']+GRAPH,'raftinc/map.hpp':GRAPH,'src/mapbase.cpp':GRAPH,'raftinc/mapbase.hpp':GRAPH,'src/kpair.cpp':['G04']+GRAPH,'raftinc/kpair.hpp':['G04']+GRAPH,'src/kernel_pair_t.cpp':['G04']+GRAPH,'raftinc/kernel_pair_t.hpp':['G04']+GRAPH,
 'src/graphtools.cpp':['G05']+GRAPH,'raftinc/graphtools.hpp':['G05'],'src/allocate.cpp':['G06','Q13']+GRAPH,'raftinc/allocate.hpp':['G06'],'src/stdalloc.cpp':['G06'],'src/dynalloc.cpp':['G07','G06'],'raftinc/stdalloc.hpp':['G06'],
 'src/kernel.cpp':['G08','P01','G04','R04']+SCHED,'raftinc/kernel.hpp':['G08']+GRAPH+SCHED,'src/kernel_wrapper.cpp':['G08']+GRAPH,'raftinc/kernel_wrapper.hpp':['G08']+GRAPH,'raftinc/kernelkeeper.tcc':['G08','G03','G05'],
 'src/schedule.cpp':SCHED+['Q04'],'raftinc/schedule.hpp':SCHED,'src/simpleschedule.cpp':SCHED,'src/systemsignalhandler.cpp':['S04'],'raftinc/systemsignalhandler.hpp':['S04'],'src/signal.cpp':['S04','Q03'],'raftinc/signaldata.hpp':['S04'],
 'raftinc/split.tcc':['R01'],'raftinc/join.tcc':['R02'],'raftinc/splitmethod.hpp':['R01','R02'],'raftinc/roundrobin.hpp':['R01','R02'],'src/roundrobin.cpp':['R01','R02'],'raftinc/leastusedfirst.hpp':['R01','R02'],'src/leastusedfirst.cpp':['R01','R02'],
 'raftinc/readeach.tcc':['R03'],'raftinc/writeeach.tcc':['R03'],'raftinc/foreach.tcc':['R03'],'raftinc/lambdak.tcc':['R04'],'raftinc/select.tcc':['R05'],'raftinc/raftmath.tcc':['R06'],
 'raftinc/kset.tcc':['U01'],'raftinc/kernelmanip.tcc':['U01'],'raftinc/raftmanip.hpp':['U01'],'raftinc/raftexception.hpp':['U02'],'src/raftexception.cpp':['U02'],'raftinc/portexception.hpp':['U02'],
 'raftinc/fileio.tcc':['U04'],'raftinc/filechunk.tcc':['U04'],'raftinc/search.tcc':['U04'],'raftinc/chunkiterator.tcc':['U04'],'raftinc/utility.hpp':['U05'],'raftinc/stat.tcc':['U06'],'raftinc/streamingstat.tcc':['U06'],
 'raftinc/partition_basic.hpp':['U07'],'raftinc/partition_dummy.hpp':['U07'],'raftinc/random.tcc':['U08'],'raftinc/print.tcc':['U09'],'raftinc/parallelk.hpp':['R01','R02','R03','U08'],'src/parallelk.cpp':['R01','R02'],
 'src/basicparallel.cpp':['S03'],
}
REL=[(' == ',' != '),(' != ',' == '),(' < ',' <= '),(' <= ',' < '),(' > ',' >= '),(' >= ',' > '),(' < ',' > '),(' && ',' || '),(' || ',' && '),(' + 1',''),(' - 1',''),(' += ',' -= '),(' + ',' - '),(' - ',' + '),('++','--'),('true','false'),('false','true'),('( ! ','( '),('!','' ),('break;','continue;'),('return( 0 )','return( 1 )'),(' * ',' + '),(' / ',' * '),(' % ',' / ')]
def gen(out,only):
    ms=[]
    for f in FILES:
        if only and f not in only: continue
        p=os.path.join(REPO,f)
        if not os.path.exists(p): print('missing',f); continue
        src=open(p).read().split('\n'); incom=False
        for i,l in enumerate(src):
            s=l.strip()
            if incom:
                if '*/' in s: incom=False
                continue
            if s.startswith('/*') and '*/' not in s: incom=True; continue
            code=re.sub(r'/\*.*?\*/','',l); code=re.sub(r'//.*','',code)
            if not code.strip() or code.strip().startswith('#') or re.search(r'static_assert|template|assert\(|typename|class |struct |using |operator|std::cerr|default;|delete;|->\s*$|enable_if|constexpr|friend|noexcept',code): continue
            for a,b in REL:
                for m in re.finditer(re.escape(a),code):
                    if a in(' < ',' > ') and re.search(r'\w<\s|_cast|std::\w+<|template|:: *\w+<|vector|function|unique_ptr|make_|\w< |push<|pop<',code): continue
                    if a=='!' and code[m.end():m.end()+1] =='=': continue
                    if a in (' * ',) and ('*/' in l or re.search(r'(char|void|auto|T|fifo|FIFO|kernel|\w_t) \* ',code)): continue
                    idx=code.index(a,m.start())
                    n=code[:m.start()]+b+code[m.end():]
                    if n!=code: ms.append(dict(file=f,line=i+1,old=l,new=n,op=a+'->'+b))
            if re.match(r'^\s*[\w\.\->\(\)\*\[\]:&]+(\s*(=|\+=|-=)\s.*|\(.*\)|\+\+)\s*;\s*$',code) and not re.match(r'^\s*(return|const|auto|int|std::size_t|bool|delete|break|continue|public|private|virtual|static)\b',code) :
                ms.append(dict(file=f,line=i+1,old=l,new=re.match(r'^\s*',l).group(0)+';',op='del'))
    seen=set();r=[]
    for m in ms:
        k=(m['file'],m['line'],m['new'])
        if k not in seen: seen.add(k); r.append(m)
    random.Random(5).shuffle(r)
    with open(out,'w') as o:
        for m in r: o.write(json.dumps(m)+'\n')
    print(len(r))
def run(inp,log,w,n,limit):
    mv='/tmp/mv%d'%w; mr='/tmp/mr%d'%w
    if not os.path.exists(mv): subprocess.run(['git','clone','-q','/verif',mv])
    else: subprocess.run('git -C %s checkout -q -- . && git -C %s pull -q'%(mv,mv),shell=True)
    if not os.path.exists(mr): subprocess.run(['git','clone','-q','/repo',mr])
    else: subprocess.run('git -C %s checkout -q -- . && git -C %s pull -q'%(mr,mr),shell=True)
    done=set()
    if os.path.exists(log):
        for l in open(log): d=json.loads(l); done.add((d['file'],d['line'],d['new']))
    ms=[json.loads(l) for l in open(inp)]
    t0=time.time()
    for i,m in enumerate(ms):
        if i%n!=w or (m['file'],m['line'],m['new']) in done: continue
        if time.time()-t0>limit: break
        p=os.path.join(mr,m['file']); src=open(p).read().split('\n')
        if src[m['line']-1]!=m['old']: continue
        sv=src[m['line']-1]; src[m['line']-1]=m['new']; open(p,'w').write('\n'.join(src))
        res='survived'; killer=''; detail=''
        props=list(dict.fromkeys(FILES[m['file']]))
        t1=time.time()
        for pr in props:
            try: r=subprocess.run(['python3','run.py',pr,'--jobs',os.environ.get('MJ','3')],cwd=mv,env=dict(os.environ,SYMX_REPO=mr),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=900)
            except subprocess.TimeoutExpired: res='timeout';killer=pr;break
            if r.returncode==1: res='killed'; killer=pr; detail=[x for x in r.stdout.splitlines() if x.startswith('  ')][:1]; break
            if r.returncode==2:
                if 'cannot compile' in r.stdout: res='nocompile'; break
                res='error'; killer=pr; detail=r.stdout[-600:]; break
            if 'INCOMPLETE' in r.stdout or 'UNCONFIRMED' in r.stdout or 'DISAGREE' in r.stdout: detail=str(detail)+' '.join(x for x in r.stdout.splitlines() if re.match('INCOMP|UNCONF|WITNESS',x))[:300]
        src[m['line']-1]=sv; open(p,'w').write('\n'.join(src))
        subprocess.run('rm -rf %s/build/cache/* %s/build/out/*'%(mv,mv),shell=True)
        m.update(res=res,killer=killer,detail=detail,secs=round(time.time()-t1))
        with open(log,'a') as o: o.write(json.dumps(m)+'\n')
if sys.argv[1]=='gen': gen(sys.argv[2],sys.argv[3:])
else: run(sys.argv[2],sys.argv[3],int(sys.argv[4]),int(sys.argv[5]),float(sys.argv[6]))

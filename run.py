#!/usr/bin/env python3
"""Decides one property of /repo by symbolic execution of its real code.

usage: run.py PROPERTY [--tier quick|thorough] [--entry NAME] [--jobs N]
Builds the library and the property's harnesses from /repo's working tree to LLVM bitcode,
explores every path of every harness entry with build/symx (Z3 decides every branch and every
check), replays each counterexample natively (AddressSanitizer build of the same bitcode) and
prints VIOLATION only for those that reproduce.
Exit 0: held on everything explored.  1: violation.  other: the check itself failed.
"""
import sys, os, re, json, subprocess, hashlib, time, shlex, shutil, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('SYMX_REPO', '/repo')
B = os.path.join(V, 'build'); CLANG = '/usr/bin/clang++-18'; LINK = 'llvm-link-18'; OPT = 'opt-18'
FLAGS = ('-std=gnu++20 -O1 -g -w -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ftrivial-auto-var-init=pattern -DSTRING_NAMES=1 '
         '-DL1D_CACHE_LINE_SIZE=64 -DRDTSCP=1 -DNICE=1 -include %s/stubs/symx_pre.h -I%s/stubs -I%s/rt -I%s/harness -I%s -I%s/raftinc' % (V, V, V, V, REPO, REPO)).split()
T0 = time.time()

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)

class Entry: pass
def parse_harnesses():
    es = []
    for f in sorted(glob.glob(V + '/harness/*.cpp')):
        lib, flags = True, {'quick': '', 'thorough': ''}
        for l in open(f):
            if l.startswith('//@ flags'):
                for k, v in re.findall(r'(quick|thorough)="([^"]*)"', l): flags[k] = v
            if l.startswith('//@ entry'):
                e = Entry(); e.file = f; e.name = l.split()[2]; e.flags = flags
                kv = dict(re.findall(r'(\w+)=("[^"]*"|\S+)', l)); kv = {k: v.strip('"') for k, v in kv.items()}
                e.prop = kv['prop']; e.reach = [x for x in kv.get('reach', '').split(',') if x]; e.conc = ' conc' in l
                e.quick = kv.get('quick', ''); e.thorough = kv.get('thorough', e.quick); e.tier = kv.get('tier', 'quick'); e.bound = kv.get('bound', ''); e.nol = ' nolib' in l
                es.append(e)
    return es

def hash_files(fs, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in fs:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]

def repo_sources():
    r = []
    for d in ('raftinc', 'src'):
        for root, _, fs in os.walk(os.path.join(REPO, d)): r += [os.path.join(root, x) for x in fs]
    for d in ('raft', 'raftio', 'raftmath', 'raftrandom', 'raftstat', 'raftutility', 'raftalgorithm', 'raftmanip'):
        p = os.path.join(REPO, d)
        if os.path.isfile(p): r.append(p)
        for root, _, fs in os.walk(p): r += [os.path.join(root, x) for x in fs]
    return sorted(x for x in r if os.path.isfile(x))

class Build:
    def __init__(s):
        s.cache = os.path.join(B, 'cache'); os.makedirs(s.cache, exist_ok=True)
        own = sorted(glob.glob(V + '/stubs/*') + glob.glob(V + '/rt/*') + glob.glob(V + '/harness/*.h') + glob.glob(V + '/engine/*') + [V + '/Makefile'])
        s.key = hash_files(repo_sources() + own, ' '.join(FLAGS) + REPO)
        s.secs = 0.0
    def compile(s, src, out, extra):
        if os.path.exists(out): return
        tmp = out + '.%d.tmp' % os.getpid()
        r = sh([CLANG] + FLAGS + extra + ['-emit-llvm', '-c', src, '-o', tmp])
        if r.returncode: raise RuntimeError('cannot compile %s:\n%s' % (src, r.stdout[-3000:]))
        os.rename(tmp, out)
    def lib(s, pool):
        out = os.path.join(s.cache, s.key + '.lib.bc')
        if os.path.exists(out): return out
        cm = open(os.path.join(REPO, 'src/CMakeLists.txt')).read(); m = re.search(r'set\(\s*CPP_SRC_FILES(.*?)\)', cm, re.S)
        srcs = re.findall(r'[\w/]+\.cpp', m.group(1)) if m else [os.path.basename(x) for x in glob.glob(REPO + '/src/*.cpp')]
        objs = []
        def one(x):
            o = os.path.join(s.cache, s.key + '.l.' + x.replace('/', '_') + '.bc'); s.compile(os.path.join(REPO, 'src', x), o, ['-DLIBCOMPILE=1']); return o
        objs = list(pool.map(one, srcs))
        r = sh([LINK] + objs + ['-o', out + '.tmp%d' % os.getpid()])
        if r.returncode: raise RuntimeError('cannot link the library:\n' + r.stdout[-3000:])
        os.rename(out + '.tmp%d' % os.getpid(), out)
        for o in objs: os.path.exists(o) and os.remove(o)
        return out
    # returns (engine bitcode, prepped bitcode for native replay)
    def harness(s, f, flags, conc, lib):
        k = hash_files([f], s.key + flags + str(conc)); base = os.path.join(s.cache, k + '.' + os.path.basename(f)[:-4])
        eng = base + '.eng.bc'; p = base + '.p.bc'
        if os.path.exists(eng) and os.path.exists(p): return eng, p
        h = base + '.h.bc'; s.compile(f, h, flags.split())
        api = [n for n in re.findall(r'SYMX_ENTRY\(\s*(\w+)\s*\)', open(f).read())]
        pid = '.%d' % os.getpid()
        for cmd in ([LINK, h, lib, '-o', base + pid + '.raw.bc'],
                    [OPT, '-passes=internalize,globaldce', '--internalize-public-api-list=' + ','.join(['symx_entry_' + n for n in api] + ['main', 'symx_affinity_of', 'symx_affinity_calls']), base + pid + '.raw.bc', '-o', base + pid + '.dce.bc'],
                    [B + '/prep'] + (['--access'] if conc else []) + [base + pid + '.dce.bc', '-o', base + pid + '.p.bc'],
                    [LINK, base + pid + '.p.bc', B + '/models.bc', '-o', base + pid + '.eng.bc']):
            r = sh(cmd)
            if r.returncode: raise RuntimeError('build step failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
        os.rename(base + pid + '.p.bc', p); os.rename(base + pid + '.eng.bc', eng)
        for x in ('.raw.bc', '.dce.bc'): os.remove(base + pid + x)
        os.path.exists(h) and os.remove(h)
        return eng, p
    def native(s, p):
        exe = p[:-5] + '.exe'
        if os.path.exists(exe): return exe
        pid = '.%d' % os.getpid(); a = p + pid + '.asan.bc'
        for cmd in ([B + '/prep', '--asan', p, '-o', a],
                    [CLANG, '-w', '-O1', '-g', '-fsanitize=address', '-rdynamic', a, B + '/native_rt_asan.o', '-o', exe + pid, '-lpthread', '-ldl']):
            r = sh(cmd)
            if r.returncode: raise RuntimeError('build step failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
        os.remove(a); os.rename(exe + pid, exe); return exe

def prune(cache, keep_keys, maxbytes=1 << 30):
    fs = [(os.path.getmtime(x), os.path.getsize(x), x) for x in glob.glob(cache + '/*')]
    tot = sum(f[1] for f in fs)
    for m, sz, x in sorted(fs):
        if tot < maxbytes: break
        if time.time() - m > 1800:
            try: os.remove(x)
            except OSError: pass
            tot -= sz

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1', TERM='dumb')
def replay(exe, test):
    try: r = subprocess.run([exe, test], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env=ENV, cwd=os.path.dirname(test))
    except subprocess.TimeoutExpired: return 124, 'timeout'
    o = r.stdout.decode(errors='replace')
    return r.returncode, o

def main():
    a = sys.argv[1:]; prop = a[0]; warm = prop == '--warm'; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; jobs = os.cpu_count() or 4; verbose = '-v' in a
    for i, x in enumerate(a):
        if x == '--tier': tier = a[i + 1]
        if x == '--entry': only = a[i + 1]
        if x == '--jobs': jobs = int(a[i + 1])
    r = sh(['make', '-s', '-j8', '-C', V])
    if r.returncode: print(r.stdout); print('engine build failed'); return 2
    if warm: tier = 'quick'
    es = [e for e in parse_harnesses() if (warm or e.prop == prop) and (tier == 'thorough' or e.tier == 'quick') and (not only or e.name == only)]
    if not es: print('no harness for', prop); return 2
    pool = ThreadPoolExecutor(jobs); bd = Build()
    try:
        lib = bd.lib(pool)
        keys = {}
        for e in es: keys.setdefault((e.file, e.flags[tier], e.conc), []).append(e)
        built = dict(zip(keys, pool.map(lambda k: bd.harness(k[0], k[1], k[2], lib), keys)))
    except RuntimeError as x:
        print(x); return 2
    if warm: print('built', len(built), 'harness modules'); return 0
    tb = time.time() - T0
    wd = os.path.join(B, 'out', prop + '.' + tier); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    budget = 600 if tier == 'quick' else 5400
    def run(e):
        eng, p = built[(e.file, e.flags[tier], e.conc)]; out = os.path.join(wd, e.name); opts = shlex.split(e.quick if tier == 'quick' else e.thorough)
        if '--time' not in opts: opts += ['--time', str(budget if tier == 'thorough' else 400)]
        try: r = sh([B + '/symx', '--entry', 'symx_entry_' + e.name, '--out', out, '--json', out + '.json', '--witness', '3'] + opts + [eng], timeout=budget + 120)
        except subprocess.TimeoutExpired: e.err = 'timeout'; e.res = None; return e
        try: e.res = json.load(open(out + '.json')); e.err = ''
        except Exception: e.res = None; e.err = 'engine failed (exit %s): %s' % (r.returncode, r.stdout[-1500:])
        return e
    es = list(pool.map(run, es))
    known = json.load(open(os.path.join(V, 'known_findings.json'))) if os.path.exists(os.path.join(V, 'known_findings.json')) else {'findings': []}
    viol, knownhit, unconf, errors, incompl, disag = [], [], [], [], {}, []
    nval = 0
    # natively replay counterexamples and a few path witnesses
    need = {built[(e.file, e.flags[tier], e.conc)][1] for e in es if e.res}
    try: exes = dict(zip(need, pool.map(bd.native, need)))
    except RuntimeError as x: print(x); return 2
    jobsr = []
    for e in es:
        if not e.res: errors.append('%s: %s' % (e.name, e.err)); continue
        exe = exes[built[(e.file, e.flags[tier], e.conc)][1]]
        for v in e.res['violations']: jobsr.append((e, v, exe, v['test']))
        for w in e.res['witnesses']: jobsr.append((e, None, exe, w))
    outs = list(pool.map(lambda j: replay(j[2], j[3]), jobsr))
    for (e, v, exe, t), (rc, o) in zip(jobsr, outs):
        if v is None:
            nval += 1
            if rc != 0: disag.append({'entry': e.name, 'test': t, 'rc': rc, 'out': o[-600:]})
            continue
        v['entry'] = e.name; v['replay_rc'] = rc; v['replay_out'] = o[-1500:]
        if rc == 0: unconf.append(v); continue
        nval += 1
        k = next((k for k in known.get('findings', []) if k['property'] == prop and k['entry'] == e.name and k['kind'] == v['kind'] and k['label'] == v['label'] and k.get('where', '') in v['where']), None)
        (knownhit if k else viol).append((v, k))
    for e in es:
        if not e.res: continue
        for k, n in e.res['incomplete'].items(): incompl[e.name + ': ' + k] = n
        if not e.res['incomplete'] and not e.res['violations']:
            for l in e.reach:
                if not e.res['reach'].get(l): errors.append('%s: the label "%s" was never reached (vacuous)' % (e.name, l))
    rs = [e.res for e in es if e.res]; S = lambda k: sum(r[k] for r in rs)
    fns = sorted({f for r in rs for f in r['functions']})
    samples = []
    for e in es:
        if e.res and e.res['witnesses'] and len(samples) < 6:
            try: samples.append({'entry': e.name, 'path_witness': open(e.res['witnesses'][-1]).read()[:600]})
            except OSError: pass
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'wall_s': round(time.time() - T0, 2), 'violations': len(viol),
      'coverage': {
        'states': S('paths'), 'transitions': S('instructions'), 'traces_validated_against_impl': nval, 'samples': samples,
        'explanation': 'states = symbolic execution paths completed (each stands for every input value satisfying its path condition); transitions = LLVM instructions of the real code executed symbolically; traces validated = path witnesses and counterexamples replayed natively under AddressSanitizer.',
        'solver_queries': S('queries'), 'queries_sat': S('sat'), 'queries_unsat': S('unsat'), 'queries_unknown': S('unknown'), 'query_cache_hits': S('cache_hits'), 'model_reuse_hits': S('model_hits'), 'solver_s': round(S('solver_s'), 3), 'solver': 'Z3 4.8.12, QF_BV/QF_FPBV, one query per undecided branch, address and check',
        'property_checks': S('checks'), 'property_checks_proved': S('checks_proved'), 'memory_safety_checks': S('memory_checks'), 'schedule_forks': S('sched_forks'),
        'functions_encoded': fns, 'functions_encoded_count': len(fns), 'exhaustive': not incompl and not errors,
        'incomplete': incompl, 'unconfirmed_counterexamples': [{k: v[k] for k in ('entry', 'kind', 'label', 'where')} for v in unconf], 'witness_disagreements': disag, 'errors': errors, 'known_findings': [k['id'] if k else '' for _, k in knownhit],
        'entries': [{'entry': e.name, 'file': os.path.relpath(e.file, V), 'bounds': e.bound, 'flags': e.flags[tier], 'options': e.quick if tier == 'quick' else e.thorough, 'concurrent': e.conc, **({k: e.res[k] for k in ('status', 'paths', 'instructions', 'queries', 'solver_s', 'checks', 'memory_checks', 'wall_s', 'rounds', 'conflict_locations', 'sched_forks', 'preemption_bound', 'delayed_store_bound', 'reach', 'labels')} if e.res else {'status': 'error'})} for e in es],
        'build_s': round(tb, 2)},
      'assumptions': ['bounds as given per entry; nothing is claimed outside them', 'concurrent entries explore all schedules with at most preemption_bound preemptions (round-robin at yields), preempting before every access to a location another thread also accesses with at least one write; memory is sequentially consistent except that at up to delayed_store_bound of the preemptions the preempted thread\'s most recent plain stores (every suffix since its last fence, locked operation or blocking call) stay invisible to the others until it runs again, as x86 store buffers allow; weaker memory models are outside',
        'x86-64 bitcode of clang 18 -O1 is the encoding; allocation never fails; freed addresses are not reused; shm/affinity/demangle are stand-ins; libstdc++ internals without bitcode are modelled (rt/models.cpp)']}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if not only: json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for e in es:
        if e.res: print('%-34s %-10s paths=%d instr=%d queries=%d solver=%.1fs wall=%.1fs%s' % (e.name, e.res['status'], e.res['paths'], e.res['instructions'], e.res['queries'], e.res['solver_s'], e.res['wall_s'], ' rounds=%d' % e.res['rounds'] if e.conc else ''))
    for k, n in incompl.items(): print('INCOMPLETE', k, n)
    for x in errors: print('ERROR', x)
    for d in disag: print('WITNESS-DISAGREES', d['entry'], d['test'], d['rc'], d['out'][-300:] if verbose else '')
    for v in unconf: print('UNCONFIRMED (does not reproduce natively, not reported)', v['entry'], v['kind'], v['label'], v['where'], v['test'])
    for v, k in {k['id']: (v, k) for v, k in knownhit}.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    seen = set()
    for v, _ in viol:
        key = (v['entry'], v['kind'], v['label'])
        if key in seen: continue
        seen.add(key)
        print('  %s: %s "%s" at %s (native exit %s: %s)' % (v['entry'], v['kind'], v['label'], v['where'], v['replay_rc'], next((l for l in v['replay_out'].splitlines() if 'REPLAY-VIOLATION' in l or 'ERROR: Addr' in l or 'ssert' in l), v['replay_out'][-100:].strip())))
        if verbose: print(v['trace'])
        print('VIOLATION property=%s replay=%s' % (prop, v['test']))
    prune(bd.cache, None)
    if viol: return 1
    if errors: return 2
    return 0
if __name__ == '__main__': 
    rc = main(); sys.stdout.flush(); os._exit(rc)

#!/usr/bin/env python3
"""Driver: builds bitcode of /repo's current sources and a property's harnesses, runs the symbolic executor on every
entry, replays every counterexample natively, writes evidence/<id>.json.   vf.py setup | check <id> | replay <file> | manifest | list"""
import sys, os, re, json, subprocess, shutil, struct, time, glob, hashlib, fcntl, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VF_REPO', '/repo'); SRC = REPO + '/src'
LL = '/usr/lib/llvm-18/bin/'; sys.path.insert(0, V)
from registry import PROPS, DEFAULTS
NC = os.cpu_count() or 8
BCF = ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-Dpure=', '-w', '-c', '-emit-llvm']
COMMON = ['-std=c++14', '-DNDEBUG', '-DHAVE_CONFIG_H', '-I' + V + '/lib', '-I' + SRC, '-I/usr/include/tcl8.6', '-fno-builtin-printf']
NATF = ['-O1', '-Dpure=', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-w', '-c']
WRAP = ['-Wl,--wrap=' + f for f in ('malloc', 'free', 'realloc', 'calloc')]

def log(*a): print(*a, file=sys.stderr, flush=True)
def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **k)
    if r.returncode: raise RuntimeError('%s\n%s' % (' '.join(cmd[:60]), r.stderr.decode(errors='replace')[-4000:]))
    return r.stdout
def engine():
    os.makedirs(V + '/build', exist_ok=True)
    with open(V + '/build/.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX); run(['bash', V + '/engine/build.sh'])
    return V + '/build/bdsym'
def repo_sources(p):
    ex = p.get('exclude', ['ScriptInterpTCL.cpp'])
    return [f for f in sorted(glob.glob(SRC + '/*.cpp')) if os.path.basename(f) not in ex]

class Build:
    def __init__(s, pid, tier, wd):
        s.pid, s.p, s.tier, s.wd = pid, PROPS[pid], tier, wd
        s.defs = list(s.p.get('defs', [])) + (['-DVF_THOROUGH=1'] if tier == 'thorough' else [])
        s.redef = s.p.get('redefine', {})
    def bc(s, src, out, flags):
        run([LL + 'clang++'] + COMMON + BCF + flags + [src, '-o', out])
        if s.p.get('threads'): run([engine(), '--instrument', out]); out += '.sp.bc'
        return out
    def symbolic(s, pool):
        jobs = [pool.submit(s.bc, f, '%s/r%d.bc' % (s.wd, i), s.p.get('repo_defs', []) + s.p.get('symdefs', [])) for i, f in enumerate(repo_sources(s.p))]
        rt = pool.submit(run, [LL + 'clang++', '-std=c++14', '-O1', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-w', '-c', '-emit-llvm', V + '/lib/rt.cpp', '-o', s.wd + '/rt.bc'])
        hs = {h: pool.submit(s.bc, V + '/harness/' + h, s.wd + '/h_' + h + '.bc', s.defs + s.p.get('symdefs', []) + ['-DVF_SYM']) for h in s.p['harness']}
        st = [pool.submit(run, [LL + 'clang++', '-std=c++14', '-O1', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-w', '-c', '-emit-llvm', '-I/usr/include/tcl8.6', V + '/lib/' + f, '-o', s.wd + '/' + f + '.bc']) for f in s.p.get('stubs', [])]
        s.repo_bc = repo = [j.result() for j in jobs]; rt.result(); [j.result() for j in st]
        out = {}
        for h, ents in s.p['harness'].items():
            hb = hs[h].result(); o = s.wd + '/l_' + h + '.bc'
            run([LL + 'llvm-link', hb] + repo + [s.wd + '/rt.bc'] + [s.wd + '/' + f + '.bc' for f in s.p.get('stubs', [])] + ['-o', o])
            keep = ','.join(list(ents) + sorted(set(s.redef.values())))
            run([LL + 'opt', '-passes=internalize,globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),globaldce', '-internalize-public-api-list=' + keep, o, '-o', o])
            out[h] = o
        return out
    def obj(s, src, out, flags, redef):
        run([LL + 'clang++'] + COMMON + NATF + flags + [src, '-o', out])
        if redef and s.redef: run(['objcopy'] + ['--redefine-sym=%s=%s' % kv for kv in s.redef.items()] + [out])
        return out
    def native_threads(s, pool):   # from the instrumented bitcode, so that schedule points are counted alike: ASan and TSan replay binaries
        def cc(src, out, san): run([LL + 'clang++', '-O1', '-g', '-w', '-fno-omit-frame-pointer'] + (['-fsanitize=' + san] if san else []) + ['-c', src, '-o', out]); return out
        r = {h: [] for h in s.p['harness']}
        for n, san in (('x_', 'address'), ('y_', 'thread')):
            ob = [pool.submit(cc, f, '%s/%s%d.o' % (s.wd, n, i), san) for i, f in enumerate(s.repo_bc)]
            hs = {h: pool.submit(cc, s.wd + '/h_' + h + '.bc.sp.bc', s.wd + '/' + n + h + '.o', san) for h in s.p['harness']}
            rt = [pool.submit(s.obj, V + '/lib/' + f, s.wd + '/' + n + f + '.o', ['-fno-sanitize=all'], False) for f in ('replay.cpp', 'sched.cpp')]
            ob = [j.result() for j in ob + rt]
            for h, j in hs.items(): o = s.wd + '/' + n + h; run([LL + 'clang', '-fsanitize=' + san, '-rdynamic'] + WRAP + [j.result()] + ob + ['-lstdc++', '-lm', '-ldl', '-lpthread', '-o', o]); r[h].append(o)
        return r
    def native(s, pool):
        if s.p.get('threads'): return s.native_threads(pool)
        jobs = [pool.submit(s.obj, f, '%s/n%d.o' % (s.wd, i), s.p.get('repo_defs', []), True) for i, f in enumerate(repo_sources(s.p))]
        rp = pool.submit(s.obj, V + '/lib/replay.cpp', s.wd + '/replay.o', [], False)
        hs = {h: pool.submit(s.obj, V + '/harness/' + h, s.wd + '/hn_' + h + '.o', s.defs, False) for h in s.p['harness']}
        st = [pool.submit(s.obj, V + '/lib/' + f, s.wd + '/' + f + '.o', [], False) for f in s.p.get('stubs', [])]
        ob = [j.result() for j in jobs]; rp.result(); st = [j.result() for j in st]
        def lk(h):   # one replay binary, or two: with the real libraries, then with the stand-ins for them
            r = []
            for n, ex in ([('x_', s.p['stublibs']), ('y_', st)] if st else [('x_', [])]):
                o = s.wd + '/' + n + h; run([LL + 'clang++', '-fsanitize=address', '-rdynamic'] + WRAP + [s.wd + '/hn_' + h + '.o'] + ob + [s.wd + '/replay.o'] + ex + ['-ldl', '-lpthread', '-o', o]); r.append(o)
            return r
        for h in s.p['harness']: hs[h].result()
        ls = {h: pool.submit(lk, h) for h in s.p['harness']}
        return {h: j.result() for h, j in ls.items()}

ENV = dict(os.environ, TSAN_OPTIONS='exitcode=71:halt_on_error=1:report_thread_leaks=0', ASAN_OPTIONS='exitcode=71:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:alloc_dealloc_mismatch=0:detect_invalid_pointer_pairs=0:handle_abort=0:max_malloc_fill_size=0:strict_string_checks=0:intercept_strlen=1')
def replay_once(binp, entry, hexin, fill, wd, sched=None, timeout=40):
    f = '%s/in_%s' % (wd, hashlib.md5((entry + hexin + str(fill) + str(os.getpid()) + str(time.time())).encode()).hexdigest())
    open(f, 'wb').write(bytes.fromhex(hexin)); cmd = [binp, entry, f, str(fill)] + ([sched] if sched else [])
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV, cwd=wd); rc, o = r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e: rc, o = 'timeout', (e.stdout or b'').decode(errors='replace')
    os.unlink(f)
    if rc == -14: rc = 'timeout'
    ok = rc == 0 and 'VF-DONE' in o
    return dict(rc=rc, out=o, ok=ok, skipped=(rc == 77), bad=(not ok and rc not in (77, 2)), reach=[l[10:] for l in o.splitlines() if l.startswith('VF-REACH: ')])
def schedstr(v): return ';'.join('%d,%d,%d' % tuple(x) for x in v.get('sched', [])) or None
def replay_viol(binp, entry, v, wd, stubs):
    # a counterexample about values must show with the real library; only memory errors and leaks may need the stand-in to be seen
    if stubs and v['kind'] == 'assert' and not re.search('leak|releas|live|freed|reference', v['msg']): binp = binp[:1]
    if v['kind'] == 'race': binp = binp[::-1]   # ThreadSanitizer first
    allb = binp if v['kind'] != 'race' else binp[::-1]
    fills = [int(v['fills'][i:i+2], 16) for i in range(0, len(v['fills']), 2)][:8]
    sched = schedstr(v)
    last = None
    for bp, fb in [(b, f) for b in binp for f in dict.fromkeys(fills + [0xA5, 0, 0xFF, 0x41, 0x20, 1])]:
        r = replay_once(bp, entry, v['input'], fb, wd, sched)
        if r['bad']: return dict(r, fill=fb, sched=sched, bin=allb.index(bp))
        last = r
    return dict(last, fill=None, sched=sched, bin=0)

def explore(exe, bcf, entry, od, tok, o):
    os.makedirs(od)
    cmd = [exe, bcf, '--entry', entry, '--out', od, '--tokens', tok, '--max-time', str(o['max_time']), '--max-steps', str(o['max_steps']), '--max-viol', str(o['max_viol'])]
    if o.get('preempt'): cmd += ['--preempt', str(o['preempt'])]
    for k, v in o.get('redefine', {}).items(): cmd += ['--alias', k + '=' + v]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    m = dict(incomplete=set(), functions=set(), reach={}, notes={}, samples=[], violations=[])
    num = 'paths pruned steps forks queries sat unsat unknown cache_hits model_hits asserts assert_rewritten assert_solver infeasible solver_s'.split()
    for k in num: m[k] = 0
    fs = glob.glob(od + '/*.json')
    if r.returncode or not fs: m['incomplete'].add('engine failed: ' + r.stderr.decode(errors='replace')[-500:])
    for f in fs:
        j = json.load(open(f))
        for k in num: m[k] += j[k]
        for k in ('incomplete', 'functions'): m[k] |= set(j[k])
        for k in ('reach', 'notes'):
            for a, b in j[k].items(): m[k][a] = m[k].get(a, 0) + b
        m['samples'] += j['samples']; m['violations'] += j['violations']
    return m

def check(pid, tier):
    t0 = time.time(); p = PROPS[pid]; seed = int(os.environ.get('VERIF_SEED', '1'))
    wd = '%s/build/run_%s_%d' % (V, pid, os.getpid()); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    try: return _check(pid, tier, t0, p, seed, wd)
    finally: shutil.rmtree(wd, ignore_errors=True)

def _check(pid, tier, t0, p, seed, wd):
    strict = os.environ.get('VF_STRICT'); only = os.environ.get('VF_ONLY')
    b = Build(pid, tier, wd)
    with cf.ThreadPoolExecutor(NC) as pool, cf.ThreadPoolExecutor(64) as xp:
        ef = pool.submit(engine); bcs = b.symbolic(pool); exe = ef.result(); tb = time.time() - t0
        tok = wd + '/tokens'; open(tok, 'wb').write(struct.pack('<i', NC) + b'\0' * 4092)
        ex = {}
        for h, ents in p['harness'].items():
            for e, spec in ents.items():
                if only and e not in only.split(','): continue
                o = dict(DEFAULTS[tier]); o.update({k: v for k, v in p.items() if k in ('preempt', 'max_time', 'max_steps')}); o.update(spec.get('opts', {})); o.update(spec.get(tier, {})); o['redefine'] = b.redef
                ex[(h, e)] = xp.submit(explore, exe, bcs[h], e, wd + '/o_' + h + '_' + e, tok, o)
        nat = xp.submit(b.native, pool)
        res = {k: f.result() for k, f in ex.items()}
        bins = nat.result(); te = time.time() - t0
        # --- replay counterexamples
        known = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k['property'] == pid and k.get('status') == 'open']
        confirmed, unconfirmed, kf, jobs = [], [], [], []
        for (h, e), m in res.items():
            seen = {}
            if p.get('only'): m['violations'] = [v for v in m['violations'] if v['kind'] != 'assert' or re.search(p['only'], v['msg'])]
            for v in m['violations']:
                key = (v['kind'], v['msg'], v['loc']); seen[key] = seen.get(key, 0) + 1
                if seen[key] <= 3: jobs.append((h, e, v, xp.submit(replay_viol, bins[h], e, v, wd, bool(p.get('stubs')))))
        for h, e, v, f in jobs:
            r = f.result(); rec = dict(property=pid, harness=h, entry=e, tier=tier, kind=v['kind'], msg=v['msg'], loc=v['loc'], stack=v['stack'], input=v['input'], notes=v['notes'], fill=r['fill'], sched=r['sched'], bin=r['bin'], native_rc=str(r['rc']), native_output=r['out'][-3000:])
            if not r['bad']: unconfirmed.append(rec); continue
            k = next((k for k in known if k['entry'] == e and k['msg'] in (v['msg'], '*') and k.get('loc', v['loc']) == v['loc'] and k.get('kind', v['kind']) == v['kind'] and set(k.get('notes', [])) <= set(v['notes'])), None)
            if k: kf.append((k, rec))
            else: confirmed.append(rec)
        # --- validate the encoding: replay sampled passing paths natively
        vjobs = []
        for (h, e), m in res.items():
            for s in m['samples'][:24]:
                for bi, bp in enumerate(bins[h]): vjobs.append((h, e, dict(s, bin=bi), xp.submit(replay_once, bp, e, s['input'], 0xA5, wd, schedstr(s))))
        validated, mism = 0, []
        for h, e, s, f in vjobs:
            r = f.result()
            if r['ok'] and r['reach'] == s['reach']: validated += 1
            elif s['uninit'] and not r['bad']: pass
            elif p.get('only') and 'VF-ASSERT' in r['out'] and not re.search('VF-ASSERT.*(%s)' % p['only'], r['out']): pass
            else: mism.append(dict(property=pid, harness=h, entry=e, tier=tier, kind='validation', msg='native run of a path the encoding passed: rc=%s reach=%s expected %s' % (r['rc'], r['reach'], s['reach']), loc='', stack='', input=s['input'], notes=s['notes'], fill=0xA5, sched=schedstr(s), bin=s['bin'], native_rc=str(r['rc']), native_output=r['out'][-3000:], bad=r['bad']))
    confirmed += [m for m in mism if m['bad']]
    missing = []
    for h, ents in p['harness'].items():
        for e, spec in ents.items():
            if (h, e) in res:
                for t in spec.get('reach', []):
                    if not res[(h, e)]['reach'].get(t): missing.append('%s:%s' % (e, t))
    inc = sorted({'%s: %s' % (e, i) for (h, e), m in res.items() for i in m['incomplete']})
    T = {k: sum(m[k] for m in res.values()) for k in 'paths pruned steps forks queries sat unsat unknown cache_hits model_hits asserts assert_rewritten assert_solver infeasible solver_s'.split()}
    fns = sorted({f for m in res.values() for f in m['functions']}); repo_fns = [f for f in fns if 'bd::' in f or f.startswith(('b64', 'str', 'Tcl')) ]
    samples = [dict(entry=e, input=s['input'][:200], constraints=s['constraints'], reach=s['reach']) for (h, e), m in res.items() for s in m['samples'][:2]][:30]
    cov = dict(states=T['paths'] + T['pruned'], transitions=T['steps'], traces_validated_against_impl=validated, samples=samples,
        exhaustive=(not inc and not missing and not confirmed and not unconfirmed),
        entries={e: dict(paths=m['paths'], pruned=m['pruned'], queries=m['queries'], asserts=m['asserts'], by_rewriting=m['assert_rewritten'], by_solver=m['assert_solver'], solver_s=round(m['solver_s'], 2), reach=m['reach'], bound_notes=m['notes']) for (h, e), m in res.items()},
        bounds=p['bounds'], outside=p.get('outside', ''), solver=dict(queries=T['queries'], sat=T['sat'], unsat=T['unsat'], unknown=T['unknown'], cache_hits=T['cache_hits'], seconds=round(T['solver_s'], 2), asserts=T['asserts'], asserts_by_rewriting=T['assert_rewritten'], asserts_by_solver=T['assert_solver']),
        functions_encoded=len(fns), functions_of_bdlib=repo_fns, incomplete=inc, reach_missing=missing, unconfirmed=[dict(entry=u['entry'], kind=u['kind'], msg=u['msg'], loc=u['loc'], input=u['input'][:400]) for u in unconfirmed], build_s=round(tb, 1), explore_s=round(te - tb, 1))
    os.makedirs(V + '/evidence', exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=p.get('level', 'model_checking'), coverage=cov, assumptions=p.get('assumptions', []) + DEFAULTS['assumptions'], wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    for k in {json.dumps(k): k for k, _ in kf}.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for k in known:
        if not any(k is x for x, _ in kf): log('note: known finding no longer observed: ' + k['what'])
    for u in unconfirmed: log('UNCONFIRMED (not reproduced natively): %s %s: %s @ %s input=%s' % (u['entry'], u['kind'], u['msg'], u['loc'], u['input'][:200]))
    for i in inc: log('INCOMPLETE ' + i)
    for i in missing: log('UNREACHED ' + i)
    for m in mism: log('VALIDATION MISMATCH %s %s input=%s\n%s' % (m['entry'], m['msg'], m['input'], m['native_output'][-1500:]))
    log('%s %s: paths=%d pruned=%d asserts=%d (rewriting %d, solver %d) queries=%d solver=%.1fs validated=%d/%d build=%.1fs total=%.1fs' % (pid, tier, T['paths'], T['pruned'], T['asserts'], T['assert_rewritten'], T['assert_solver'], T['queries'], T['solver_s'], validated, len(vjobs), tb, time.time() - t0))
    if os.environ.get('VF_VERBOSE'):
        for (h, e), m in res.items(): log('   %-28s paths=%d pruned=%d asserts=%d queries=%d solver=%.1f' % (e, m['paths'], m['pruned'], m['asserts'], m['queries'], m['solver_s']))
    if confirmed:
        od = '%s/out/%s' % (V, pid); os.makedirs(od, exist_ok=True)
        done = set()
        for c in confirmed:
            key = (c['entry'], c['kind'], c['msg'], c['loc'])
            if key in done: continue
            done.add(key); fn = '%s/%s_%s.json' % (od, c['entry'], hashlib.md5((str(key)).encode()).hexdigest()[:8]); json.dump(c, open(fn, 'w'), indent=1)
            log('  %s: %s: %s @ %s (native: rc=%s)%s' % (c['entry'], c['kind'], c['msg'], c['loc'], c['native_rc'], ' notes=' + ' '.join(c['notes']) if c['notes'] else ''))
            print('VIOLATION property=%s replay=%s' % (pid, fn), flush=True)
        return 1
    if strict and (inc or unconfirmed or missing or mism): return 2
    if missing: return 2
    return 0

def replay(fn):
    c = json.load(open(fn)); wd = '%s/build/replay_%d' % (V, os.getpid()); os.makedirs(wd)
    try:
        b = Build(c['property'], c['tier'], wd); b.p = dict(b.p, harness={c['harness']: {}})
        with cf.ThreadPoolExecutor(NC) as pool:
            if b.p.get('threads'): b.symbolic(pool)
            bins = b.native(pool)
        r = replay_once(bins[c['harness']][c.get('bin', 0)], c['entry'], c['input'], c['fill'] if c['fill'] is not None else 0xA5, wd, c.get('sched'))
        print(r['out']); print('reproduced' if r['bad'] else 'not reproduced', r['rc']); return 1 if r['bad'] else 0
    finally: shutil.rmtree(wd, ignore_errors=True)

NA = {}
def manifest():
    from props import PROPERTIES
    with open(V + '/properties.jsonl', 'w') as f:
        for p in PROPERTIES: f.write(json.dumps(p) + '\n')
    checks = [dict(property=p['id'], quick_cmd='python3 vf.py check ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 vf.py check ' + p['id'], evidence_file='evidence/%s.json' % p['id'],
        technique='bounded symbolic execution of the LLVM bitcode of the real code, assertions decided by Z3, counterexamples replayed natively' + ('; symbolic schedules' if PROPS[p['id']].get('threads') else ''),
        level='model_checking', level_note='Holds for every value within the stated bounds: ' + PROPS[p['id']]['bounds'] + ' Trusts clang, the executor (validated by replaying sampled paths natively under ASan on each run) and the libc/libstdc++ model in lib/rt.cpp.' + (' ' + PROPS[p['id']]['outside'] if PROPS[p['id']].get('outside') else '')) for p in PROPERTIES if p['id'] in PROPS]
    na = [dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')) for p in PROPERTIES if p['id'] not in PROPS]
    json.dump(dict(version=1, setup_cmd='python3 vf.py setup', checks=checks, not_applicable=na, notes='See DESIGN.md.  No hooks are needed in /repo: thread scheduling points and system call stand-ins are inserted into the generated bitcode and object files.'), open(V + '/MANIFEST.json', 'w'), indent=1)
    return 0

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['setup']: engine(); sys.exit(0)
    if a[:1] == ['check']:
        try: rc = check(a[1], os.environ.get('VERIF_TIER', 'quick') if len(a) < 3 else a[2])
        except RuntimeError as e: log('NO VERDICT: ' + str(e)); rc = 2
        sys.exit(rc)
    if a[:1] == ['replay']: sys.exit(replay(a[1]))
    if a[:1] == ['manifest']: sys.exit(manifest())
    if a[:1] == ['list']: print('\n'.join(PROPS)); sys.exit(0)
    print(__doc__); sys.exit(2)

#!/usr/bin/env python3
"""Decide one property of boostorg/circular_buffer by symbolic execution of its compiled code.

usage: check.py ID quick|thorough      run the check (exit 0 held, 1 VIOLATION, 2 no verdict)
       check.py replay FILE            re-run a recorded counterexample against the real code
       check.py setup                  build the engine once (smoke test)
"""
import sys, os, json, time, threading, subprocess, hashlib, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')
NPROC = max(2, min(8, os.cpu_count() or 4))
sys.path.insert(0, VERIF)
import jobs as J

T0 = time.time()
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
HARD = float(os.environ.get('VP_HARD', '0')) or None

INC = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'harness')]
BCFLAGS = ['-O1', '-g1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin', '-fno-discard-value-names', '-w']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

class Fail(Exception):
    pass

def build_engine(work):
    exe = os.path.join(work, 'symex')
    r = sh(['bash', os.path.join(VERIF, 'engine', 'build.sh'), exe])
    if r.returncode: raise Fail('engine does not build: ' + r.stderr[-2000:])
    return exe

def tu_key(tu, entries):
    return hashlib.sha256(json.dumps([tu, sorted(entries)], sort_keys=True).encode()).hexdigest()[:12]

def tu_flags(tu, entries):
    fl = ['-std=' + tu.get('std', 'c++20')]
    for k, v in sorted(tu['defs'].items()): fl.append('-D%s=%s' % (k, v))
    fl.append('-DENTRIES=' + ''.join('X(%s)' % e for e in entries))
    return fl

def compile_bc(work, key, tu, entries):
    out = os.path.join(work, key + '.bc')
    r = sh(['clang++'] + BCFLAGS + INC + tu_flags(tu, entries) + ['-emit-llvm', '-c', os.path.join(VERIF, 'harness', tu['src']), '-o', out])
    if r.returncode: raise Uncompiled(r.stderr)
    return out

class Uncompiled(Exception):
    pass

def instantiation(work, t, twin):
    """The harness of a group does not compile.  If the same operations compile with the twin's settings (ordinary pointers,
    a copyable element), the library cannot be used with the group's type: returns the entries at fault and the message."""
    tu2 = {'src': t['tu']['src'], 'defs': {k: v for k, v in dict(t['tu']['defs'], **twin).items() if v is not None}}
    def comp(tu, e, tag):
        try: compile_bc(work, t['key'] + tag + e, tu, [e]); return None
        except Uncompiled as x: return str(x)
    def one(e):
        x = comp(t['tu'], e, 'x')
        return (e, next((l for l in x.splitlines() if 'error:' in l), x[:300])) if x and comp(tu2, e, 'y') is None else None
    with ThreadPoolExecutor(NPROC) as ex: return [b for b in ex.map(one, t['entries']) if b][:3]

SAN = {'asan': ['-fsanitize=address'], 'ubsan': ['-fsanitize=undefined', '-fno-sanitize-recover=all'], 'msan': ['-fsanitize=memory'], 'plain': ['-DVP_ARENA=1', '-Wl,-z,now']}
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='halt_on_error=1', MSAN_OPTIONS='halt_on_error=1')

_locks, _lk = {}, threading.Lock()

def compile_exe(work, key, tu, entries, san):
    out = os.path.join(work, key + '.' + san)
    with _lk: l = _locks.setdefault(out, threading.Lock())
    with l:
        if not os.path.exists(out): compile_exe_(out, tu, entries, san)
    return out

def compile_exe_(out, tu, entries, san):
    tmp = out + '.tmp'
    r = sh(['clang++', '-O1', '-g', '-w'] + SAN[san] + INC + tu_flags(tu, entries) + tu.get('exedefs', []) +
           [os.path.join(VERIF, 'harness', tu['src']), os.path.join(VERIF, 'harness', 'native_rt.cpp'), '-rdynamic', '-ldl', '-o', tmp])
    if r.returncode: raise Fail('native harness does not build: ' + r.stderr[-3000:])
    os.rename(tmp, out)

def run_native(exe, entry, rows, timeout=600):
    inp = '\n'.join(' '.join(map(str, r)) for r in rows) + '\n'
    try:
        r = subprocess.run([exe, 'h_' + entry], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        return ['TIMEOUT'], ''
    return r.stdout.splitlines(), r.stderr

BADRE = re.compile(r'^(VIOLATED|CRASH)')

def confirm(work, key, tu, entries, entry, v):
    """Replay a counterexample against the real compiled code; returns (confirmed, text)."""
    order = {'uninit': ['msan', 'asan'], 'arith': ['ubsan', 'asan'], 'unreachable': ['ubsan', 'asan'], 'frozen': ['plain', 'asan']}.get(v['kind'], ['asan', 'ubsan'])
    log = []
    for san in order:
        try: exe = compile_exe(work, key, tu, entries, san)
        except Fail as e: log.append(san + ': ' + str(e)[-200:]); continue
        out, err = run_native(exe, entry, [v['in']], 20)
        first = [l for l in err.splitlines() if 'ERROR' in l or 'WARNING: Mem' in l or 'runtime error' in l][:2]
        log.append('%s: %s %s' % (san, ' / '.join(out[-2:]), ' '.join(first)))
        if any(BADRE.match(l) for l in out) or (v['kind'] == 'steps' and out[-1:] == ['TIMEOUT']): return True, '; '.join(log)
    return False, '; '.join(log)

def known_findings():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'): r.append(json.loads(l))
    return r

def is_known(kf, prop, entry, v):
    for k in kf:
        if k['property'] != prop or k['entry'] != entry or k['what'] != v['what']: continue
        vals = dict(zip(v['names'], v['in']))
        if all(vals.get(n) == x for n, x in k.get('inputs', {}).items()): return k
    return None

def cross_check(dump, limit_s):
    """Re-decide dumped queries with cvc5; returns (agree, disagree, undecided)."""
    txt = open(dump).read()
    parts = [p for p in txt.split(';;QUERY ') if p.strip()]
    agree = dis = und = 0
    deadline = time.time() + limit_s
    if not parts: return 0, 0, 0
    script, expect = ['(set-logic ALL)'], []
    for p in parts:
        exp, body = p.split('\n', 1)
        expect.append(exp.strip()); script.append('(push 1)\n' + body + '\n(pop 1)')
    f = dump + '.smt2'
    open(f, 'w').write('\n'.join(script))
    try:
        r = subprocess.run(['cvc5', '--incremental', '--tlimit-per=5000', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=max(5, limit_s))
        got = [l.strip() for l in r.stdout.splitlines() if l.strip()]
    except subprocess.TimeoutExpired as e:
        got = [l.strip() for l in ((e.stdout or b'').decode() if isinstance(e.stdout, bytes) else (e.stdout or '')).splitlines() if l.strip()]
    for i, e in enumerate(expect):
        g = got[i] if i < len(got) else '?'
        if g == e: agree += 1
        elif g in ('sat', 'unsat'): dis += 1
        else: und += 1
    return agree, dis, und

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == 'setup':
        work = tempfile.mkdtemp(prefix='vp_')
        try: build_engine(work); print('engine builds')
        finally: shutil.rmtree(work, ignore_errors=True)
        return 0
    if sys.argv[1] == 'replay': return replay(sys.argv[2])
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    budget = HARD or (820 if tier == 'quick' else 3 * 3600)
    spec = J.PROPS[prop]
    groups = spec[tier]() if callable(spec.get(tier)) else spec['quick']()
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try: return run(prop, tier, spec, groups, work, budget)
    except Fail as e:
        print('NO VERDICT property=%s %s' % (prop, e)); return 2
    finally: shutil.rmtree(work, ignore_errors=True)

def run(prop, tier, spec, groups, work, budget):
    os.makedirs(OUT, exist_ok=True); os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    pool = ThreadPoolExecutor(NPROC)
    fe = pool.submit(build_engine, work)
    # one translation unit per distinct (flags); entries of all groups using it are compiled together
    tus = {}
    for g in groups:
        k = json.dumps(g['tu'], sort_keys=True)
        t = tus.setdefault(k, {'tu': g['tu'], 'entries': [], 'key': None})
        for e in g['entries']:
            if e not in t['entries']: t['entries'].append(e)
    for t in tus.values():
        t['key'] = tu_key(t['tu'], t['entries'])
        t['bc'] = pool.submit(compile_bc, work, t['key'], t['tu'], t['entries'])
    engine = fe.result()
    problems, violations = [], []
    for t in tus.values():
        try: t['bcfile'] = t['bc'].result()
        except Uncompiled as x:
            t['bcfile'] = None
            g = next(g for g in groups if json.dumps(g['tu'], sort_keys=True) == json.dumps(t['tu'], sort_keys=True))
            bad = instantiation(work, t, g['twin']) if g.get('twin') and len(violations) < 3 else []
            for e, msg in bad:
                violations.append({'property': prop, 'tier': tier, 'group': g['name'], 'entry': e, 'tu': t['tu'], 'entries': [e], 'kind': 'instantiation', 'what': g.get('twin_what', 'the operation cannot be used with this type'), 'where': msg[:200], 'names': [], 'in': [], 'native': 'does not compile'})
            if not bad and not violations: problems.append('harness of [%s] does not compile against the current tree: %s' % (g['name'], str(x)[-1500:]))
    groups = [g for g in groups if tus[json.dumps(g['tu'], sort_keys=True)]['bcfile']]
    tus = {k: t for k, t in tus.items() if t['bcfile']}
    runs = []
    for g in groups:
        t = tus[json.dumps(g['tu'], sort_keys=True)]
        for e in g['entries']:
            for sh_ in g.get('shards') or [[]]:
                runs.append({'g': g, 't': t, 'entry': e, 'fix': sh_, 'cost': g.get('cost', {}).get(e, g.get('cost', {}).get('*', 1))})
    for i, r in enumerate(runs): r['i'] = i
    runs.sort(key=lambda r: -r['cost'])
    deadline = T0 + budget
    nsamp = spec.get('samples', 40)
    stop = [0] # set once a violation is confirmed: what is still running then gets a few more seconds
    kf = known_findings()
    seen = {}
    conf = {}  # id(violation) -> (confirmed, log)
    cpool = ThreadPoolExecutor(4)
    def cj(r, v):
        if stop[0] and time.time() > stop[0]: return None
        x = confirm(work, r['t']['key'], r['t']['tu'], r['t']['entries'], r['entry'], v)
        if x[0] and not is_known(kf, prop, r['entry'], v) and not stop[0]: stop[0] = time.time() + 12
        return x
    def go(r):
        left = deadline - time.time()
        if left < 2: return {'error': 'no time left'}
        o = os.path.join(work, 'r%d.json' % r['i'])
        cmd = [engine, r['t']['bcfile'], '--entry', 'h_' + r['entry'], '--out', o, '--time', str(int(left)), '--samples', str(nsamp), '--seed', str(SEED)]
        if r['g'].get('lin'): cmd += ['--lin']
        if r['g'].get('steps'): cmd += ['--max-steps', str(r['g']['steps'])]
        for f in r['fix']: cmd += ['--fix', f]
        if tier == 'thorough': cmd += ([] if r['g'].get('steps') else ['--max-steps', '1500000']) + ['--dump', os.path.join(work, 'q%d' % r['i']), '--dump-every', str(spec.get('dump_every', 200))]
        if stop[0] and time.time() > stop[0]: return {'skipped': True}
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        while True:
            try: _, perr = p.communicate(timeout=1); break
            except subprocess.TimeoutExpired: pass
            if time.time() > deadline + 30 or (stop[0] and time.time() > stop[0]):
                p.kill(); p.communicate()
                return {'skipped': True} if stop[0] else {'error': 'engine timeout'}
        if not os.path.exists(o): return {'error': 'engine died (%d): %s' % (p.returncode, perr[-300:])}
        try: return json.load(open(o))
        except Exception as x: return {'error': 'bad engine output: %s' % x}
    futs = {pool.submit(go, r): r for r in runs}
    # native builds for validation run alongside
    for t in tus.values() if nsamp else []: t['exe'] = pool.submit(compile_exe, work, t['key'], t['tu'], t['entries'], 'asan')
    todo = []
    for f in as_completed(futs):
        r = futs[f]; r['res'] = f.result()
        for v in r['res'].get('violations', []): # counterexamples: replay against the real code
            k = (r['g']['name'], r['entry'], v['kind'], v['what'])
            seen[k] = seen.get(k, 0) + 1
            if is_known(kf, prop, r['entry'], v) is None and seen[k] > 2: continue
            if len(todo) < 60: todo.append((r, v, cpool.submit(cj, r, v)))
    unconfirmed, known = [], []
    tot = dict(paths=0, assumed=0, steps=0, forks=0, queries=0, cache=0, sat=0, unsat=0, checks=0, check_queries=0, solver_s=0.0)
    funcs, lines, bounds, samples, reach_all = set(), {}, set(), [], {}
    validated = 0; maxpath = 0
    # merge shards for reach requirements
    reach = {}
    for r in runs:
        res = r['res']
        name = '%s[%s]%s' % (r['entry'], r['g']['name'], ' '.join(r['fix']))
        if res.get('skipped'): continue
        if res.get('error') or (res.get('incomplete') and not res.get('violations')):
            problems.append('%s: %s' % (name, res.get('error') or res.get('incomplete')))
        if 'paths' not in res: continue
        for a, b in (('paths', 'paths'), ('assumed', 'assumed_away'), ('steps', 'steps'), ('forks', 'forks'), ('queries', 'queries'), ('cache', 'cache_hits'), ('sat', 'sat'), ('unsat', 'unsat'), ('checks', 'checks'), ('check_queries', 'check_queries'), ('solver_s', 'solver_s')):
            tot[a] += res[b]
        if res.get('unknown'): problems.append('%s: %d queries undecided' % (name, res['unknown']))
        maxpath = max(maxpath, res['max_path_steps'])
        funcs.update(f for f in res['funcs'])
        for f, ls in res['lines'].items(): lines.setdefault(f, set()).update(l for l in ls if l)
        rk = (r['g']['name'], r['entry'])
        for k, n in res['reach'].items(): reach.setdefault(rk, {}); reach[rk][k] = reach[rk].get(k, 0) + n
        reach.setdefault(rk, {})
        r['samples'] = res['samples']
    for r, v, f in todo:
        if f.result() is None: continue
        ok, log = f.result()
        kn = is_known(kf, prop, r['entry'], v)
        rec = {'property': prop, 'tier': tier, 'group': r['g']['name'], 'entry': r['entry'], 'tu': r['t']['tu'], 'entries': r['t']['entries'], 'kind': v['kind'], 'what': v['what'], 'where': v['where'], 'names': v['names'], 'in': v['in'], 'native': log}
        if not ok: unconfirmed.append(rec)
        elif kn: known.append((kn, rec))
        else: violations.append(rec)
    # validation of the encoding: run witnesses of explored paths natively and compare what both observed
    def vj(r):
        ss = r.get('samples') or []
        if not ss or time.time() > deadline or stop[0]: return r, 0, []
        exe = r['t']['exe'].result()
        out, err = run_native(exe, r['entry'], [s['in'] for s in ss], 300)
        bad, ok = [], 0
        for i, s in enumerate(ss):
            l = out[i] if i < len(out) else 'no output'
            if l == 'OK %d' % s['hash']: ok += 1
            else: bad.append((s, l))
        return r, ok, bad
    for r, ok, bad in pool.map(vj, [r for r in runs if r.get('samples')]):
        validated += ok
        if r.get('samples') and len(samples) < 12 and ok:
            s = r['samples'][-1]
            samples.append({'group': r['g']['name'], 'entry': r['entry'], 'inputs': s['in'], 'observed_hash': s['hash']})
        for s, l in bad[:2]:
            rec = {'property': prop, 'tier': tier, 'group': r['g']['name'], 'entry': r['entry'], 'tu': r['t']['tu'], 'entries': r['t']['entries'], 'kind': 'native', 'what': 'the real code fails on a witness of a path', 'where': '', 'names': [], 'in': s['in'], 'native': l}
            if BADRE.match(l): violations.append(rec)
            else: problems.append('%s[%s]: native run disagrees with the encoding: %s for %s' % (r['entry'], r['g']['name'], l, s['in']))
    # vacuity: each entry must reach its labels
    for g in groups:
        for e in g['entries']:
            have = reach.get((g['name'], e), {})
            need = list(g.get('need', ['done'])) + list(g.get('needs', {}).get(e, []))
            for l in need:
                if not have.get(l) and not any(v['entry'] == e for v in violations): problems.append('%s[%s]: witness "%s" not reached' % (e, g['name'], l))
        allr = {}
        for e in g['entries']:
            for k, n in reach.get((g['name'], e), {}).items(): allr[k] = allr.get(k, 0) + n
        for l in g.get('need_any', []):
            if not allr.get(l) and not violations: problems.append('[%s]: witness "%s" not reached by any entry' % (g['name'], l))
        reach_all[g['name']] = allr
    # cross-check of solver verdicts
    xc = None
    if tier == 'thorough':
        a = d = u = 0
        dumps = [os.path.join(work, 'q%d' % r['i']) for r in runs]
        dumps = [q for q in dumps if os.path.exists(q)]
        for x in pool.map(lambda q: cross_check(q, 120), dumps): a += x[0]; d += x[1]; u += x[2]
        xc = {'agree': a, 'disagree': d, 'undecided': u}
        if d: problems.append('cvc5 contradicts z3 on %d queries' % d)
    status = 1 if violations else 2 if (problems or unconfirmed) else 0
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': 'model_checking',
          'coverage': {'states': tot['paths'], 'transitions': tot['steps'], 'traces_validated_against_impl': validated, 'samples': samples or ['none'],
                       'exhaustive': False, 'what_states_means': 'feasible paths through harness + library, each standing for every input value satisfying its path condition',
                       'what_transitions_means': 'LLVM instructions executed symbolically', 'functions_encoded': sorted(funcs), 'n_functions_encoded': len(funcs),
                       'source_lines_encoded': {f: len(l) for f, l in sorted(lines.items())}, 'source_line_numbers': {f: ranges(l) for f, l in sorted(lines.items())},
                       'bounds': [g['bounds'] for g in groups], 'entries': {g['name']: g['entries'] for g in groups},
                       'assertions_checked': tot['checks'], 'assertions_needing_solver': tot['check_queries'],
                       'queries_discharged': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'queries_repeated_from_cache': tot['cache'], 'solver_s': round(tot['solver_s'], 2),
                       'paths_excluded_by_assumptions': tot['assumed'], 'longest_path_instructions': maxpath, 'witnesses_reached': reach_all, 'problems': problems[:20], 'unconfirmed': unconfirmed[:5]},
          'assumptions': spec.get('assumptions', []) + J.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    if xc: ev['coverage']['cvc5_cross_check'] = xc
    if known: ev['coverage']['known_findings'] = [k['id'] for k, _ in known]
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for k in {k['id']: k for k, _ in known}.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['describe']))
    for i, v in enumerate(violations[:10]):
        p = os.path.join(OUT, '%s-%d.json' % (prop, i))
        json.dump(v, open(p, 'w'), indent=1)
        print('  %s: %s in %s[%s] at %s' % (v['kind'], v['what'], v['entry'], v['group'], v['where'][:160]))
        print('    inputs %s' % (' '.join('%s=%s' % z for z in zip(v['names'], v['in'])) or v['in']))
        print('    native %s' % v['native'])
        print('VIOLATION property=%s replay=%s' % (prop, p))
    for u in unconfirmed[:5]: print('UNCONFIRMED %s: %s in %s[%s] %s inputs %s native %s' % (u['kind'], u['what'], u['entry'], u['group'], u['where'][:200], dict(zip(u['names'], u['in'])), u['native'][:300]))
    for p in problems[:12]: print('PROBLEM ' + p)
    print('%s %s: %s; %d runs, %d paths, %d instructions, %d assertions, %d+%d queries (%.1fs solver), %d witnesses validated natively, %.1fs'
          % (prop, tier, {0: 'held on everything explored', 1: 'VIOLATED', 2: 'NO VERDICT'}[status], len(runs), tot['paths'], tot['steps'], tot['checks'], tot['queries'], tot['cache'], tot['solver_s'], validated, time.time() - T0))
    return status

def ranges(ls):
    ls = sorted(ls); out = []
    for l in ls:
        if out and l == out[-1][1] + 1: out[-1][1] = l
        else: out.append([l, l])
    return ' '.join('%d-%d' % (a, b) if a != b else str(a) for a, b in out)

def replay(path):
    v = json.load(open(path))
    work = tempfile.mkdtemp(prefix='vp_replay_')
    try:
        key = tu_key(v['tu'], v['entries'])
        if v['kind'] == 'instantiation':
            try: compile_bc(work, key, v['tu'], v['entries']); print('NOT REPRODUCED compiles'); return 0
            except Uncompiled as x: print('REPRODUCED ' + next((l for l in str(x).splitlines() if 'error:' in l), '')); return 1
        ok, log = confirm(work, key, v['tu'], v['entries'], v['entry'], v)
        print(('REPRODUCED ' if ok else 'NOT REPRODUCED ') + log)
        return 1 if ok else 0
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__': sys.exit(main())

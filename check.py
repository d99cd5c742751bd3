#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property of /repo's current tree."""
import sys, os, json, re, subprocess, time, hashlib, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
sys.path.insert(0, HERE)
from plan import PLAN, LEVEL
NPROC = os.cpu_count() or 4
CLANG = 'clang++'
INC = ['-I' + REPO + '/include', '-I' + REPO, '-I' + HERE + '/rt', '-I' + HERE + '/harness']
DEFS = ['-std=c++20', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-fbracket-depth=1024']
UB = ['-fsanitize=signed-integer-overflow,shift,bounds,bool,enum,integer-divide-by-zero,unreachable,return,builtin,float-cast-overflow', '-fsanitize-trap=all']
UBFULL = ['-fsanitize=undefined,pointer-overflow', '-fno-sanitize=vptr,function', '-fsanitize-trap=all']
BCFLAGS = ['-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-strict-aliasing', '-mllvm', '-switch-to-lookup=false', '-emit-llvm', '-c']

def run(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace')

def main():
    t0 = time.time()
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    T = 1 if tier == 'thorough' else 0
    num = int(prop[1:])
    build = os.path.join(HERE, 'build'); os.makedirs(build, exist_ok=True)
    rc, out = run(['make', '-s', '-C', os.path.join(HERE, 'engine'), 'OUT=' + build])
    if rc != 0: print(out[-3000:]); print('ERROR engine does not build'); return 2
    work = os.path.join(build, 'work', prop + ('.t' if T else '')); shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
    rdir = os.path.join(build, 'replay', prop); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    parts = [p for p in PLAN[prop] if (tier == 'thorough' or not p.get('thorough_only')) and (not only or only in p['file'])]
    rt = os.path.join(work, 'rt.bc'); rc, out = run(['clang', '-O1', '-fno-builtin', '-fno-vectorize', '-emit-llvm', '-c', HERE + '/rt/rt.c', '-o', rt])
    if rc != 0: print(out); return 2
    pool = ThreadPoolExecutor(NPROC)
    for k, p in enumerate(parts):
        p['name'] = '%s_%d' % (os.path.basename(p['file']).split('.')[0], k); p['src'] = os.path.join(HERE, 'harness', p['file'])
        d = ['-DPROP=%d' % num, '-DTIER=%d' % T] + p.get('defs', []); p['d'] = d
        p['bc'] = os.path.join(work, p['name'] + '.bc'); p['exe'] = os.path.join(work, p['name'] + '.exe')
    def comp_bc(p):
        r, o = run([CLANG] + BCFLAGS + DEFS + (UBFULL if p.get('ub') else UB) + p['d'] + INC + [p['src'], '-o', p['bc'] + '.x'], p.get('compile', 800))
        if r == 0: r, o = run(['llvm-link-18', p['bc'] + '.x', rt, '-o', p['bc']])
        return r, o
    def comp_exe(p, exe=None, extra=('-O1',), cc='g++'):
        fl = [x for x in DEFS if not (cc == 'g++' and x.startswith('-fbracket'))]
        return run([cc] + list(extra) + fl + ['-rdynamic'] + p['d'] + INC + [p['src'], HERE + '/rt/replay.cpp', '-o', exe or p['exe'], '-ldl'], p.get('compile', 800) if exe is None else 800)
    futs = []
    for p in sorted(parts, key=lambda q: -q.get('weight', 1)): p['fb'] = pool.submit(comp_bc, p); p['fe'] = pool.submit(comp_exe, p)
    tm = {}
    ev = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], entries=0, paths=0, queries=0, queries_unsat=0, queries_sat=0, query_cache_hits=0,
              queries_as_linear_integers=0, solver_s=0.0, assertions=0, assertions_folded=0, assertions_smt=0, memory_checks=0, engine_wall_s=0.0)
    fns, lines, bounds, notes = set(), set(), [], []
    viols, errors, jobs = [], [], []
    # ---- compile, then encode and decide
    def execute(p, entries, k):
        o = os.path.join(work, '%s.%d.json' % (p['name'], k))
        cmd = [os.path.join(build, 'sx'), p['bc'], '--out', o, '--seed', str(seed), '--witnesses', str([10, 24][T]), '--time', str(p.get('time', [400, 3000][T]))]
        if 'steps' in p: cmd += ['--steps', str(p['steps'])]
        if T and p.get('smt', True): cmd += ['--smt', os.path.join(work, '%s.%d' % (p['name'], k)), '--smtmax', '4']
        for e in entries: cmd += ['--entry', e]
        r, out = run(cmd, p.get('time', [400, 3000][T]) + 60)
        return p, entries, r, out, o
    runs = []
    for p in parts:
        r, o = p['fb'].result()
        if r != 0 and 'compile' in p: notes.append('%s %s: cannot be encoded on this tree, it does not compile within %d s; not covered by this run' % (p['file'], ' '.join(p.get('defs', [])), p['compile'])); continue
        if r != 0:
            re_, oe = p['fe'].result()
            if re_ not in (0, 'timeout') and r != 'timeout' and not p.get('internal'):
                f = os.path.join(rdir, p['name'] + '.compile.txt'); open(f, 'w').write('The harness %s uses only documented interfaces and compiles on the reference tree.\nclang++:\n%s\n\ng++:\n%s\n' % (p['src'], o, oe))
                viols.append((p, dict(kind='compile', msg='valid use of the library does not compile', loc=first_err(oe), trace=''), f, True, ''))
            elif p.get('internal'): notes.append('%s skipped: internal interfaces it encodes are not there in this form' % p['file'])
            else: errors.append('%s does not compile with clang: %s' % (p['file'], o[-1500:]))
            continue
        r, o = run(['llvm-nm-18', '--defined-only', p['bc']])
        es = sorted(set(re.findall(r'\b[TtWw] (t_\w+)', o)))
        if not es: errors.append(p['file'] + ': no entries'); continue
        bounds += [b for b in p.get('bounds', []) if b not in bounds]
        n = max(1, min(len(es), p.get('procs', NPROC))); ch = [es[i::n] for i in range(n)]
        for k, c in enumerate(ch): runs.append(pool.submit(execute, p, c, k))
    wit = {}
    for f in runs:
        p, entries, r, out, o = f.result()
        if r != 0 or not os.path.exists(o): errors.append('%s: engine exit %s on %s: %s' % (p['file'], r, ','.join(entries)[:200], out[-500:])); continue
        j = json.load(open(o))
        fns.update(j['functions']); lines.update(j['lines'])
        for e in j['entries']:
            ev['entries'] += 1; ev['paths'] += e['paths']; ev['states'] += e['paths'] + e['forks']; ev['transitions'] += e['instrs']; ev['queries'] += e['queries']
            ev['queries_unsat'] += e['unsat']; ev['queries_sat'] += e['sat']; ev['query_cache_hits'] += e['cache_hits']; ev['queries_as_linear_integers'] += e['linear']; ev['solver_s'] += e['solver_s']; ev['assertions'] += e['asserts']; ev['assertions_folded'] += e['asserts_folded']
            ev['assertions_smt'] += e['asserts_smt']; ev['memory_checks'] += e['memory_checks']; ev['engine_wall_s'] += e['wall_s']
            for v in e['violations']: viols.append((p, v, None, None, e['entry']))
            for x in e['inconclusive']: errors.append('%s %s inconclusive: %s' % (p['file'], e['entry'], x))
            if e['missing'] and not e['violations']: errors.append('%s %s: vacuous, never reached %s' % (p['file'], e['entry'], e['missing']))
            if e['paths'] == 0 and not e['violations']: errors.append('%s %s: no path' % (p['file'], e['entry']))
            wit.setdefault(p['name'], (p, []))[1].extend(e['witnesses'])
            if len(ev['samples']) < 6 and e['witnesses']: ev['samples'].append(dict(harness=p['file'], entry=e['entry'], case=e['witnesses'][len(e['witnesses']) // 2][:600]))
    tm['encode'] = time.time() - t0
    # ---- replay: witnesses through the real code
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:alloc_dealloc_mismatch=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0')
    def replay_w(item):
        p, cs, k = item; r, o = p['fe'].result()
        if r != 0 and 'compile' in p: notes.append('%s %s: the compiled library is not compared with the encoding, g++ does not compile it within %d s' % (p['file'], ' '.join(p.get('defs', [])), p['compile'])); return p, (0, '', 0, ''), None
        if r != 0: return p, None, 'native harness does not compile: ' + o[-1500:]
        f = os.path.join(work, '%s.%d.wit' % (p['name'], k)); open(f, 'w').write(''.join(cs)); r, o = run([p['exe'], f], 600, env); return p, (r, o, len(cs), f), None
    items = [(p, cs[i::NPROC], i) for p, cs in wit.values() for i in range(NPROC) if cs[i::NPROC]]
    for p, res, err in pool.map(replay_w, items):
        if err:
            if err not in errors: errors.append(err)
            continue
        r, o, n, f = res
        if r == 0: ev['traces_validated_against_impl'] += n
        else: errors.append('%s: encoding and real code disagree on a witness (or it crashed): %s' % (p['file'], o[-1200:])); shutil.copy(f, rdir)
    tm['witness'] = time.time() - t0
    # ---- violations: reproduce on the real code
    report = []
    seen = set()
    for i, (p, v, f, ok, entry) in enumerate(viols):
        if f is None:
            key = (p['file'], v['kind'], v['msg'], v['loc'])
            if key in seen or len(report) >= 8: continue
            seen.add(key)
            f = os.path.join(rdir, '%s.%d.case' % (p['name'], i))
            ok, how = reproduce(p, v, f, env, comp_exe, work)
            open(f, 'w').write(v['case'] + '# %s: %s at %s\n# %s\n# harness %s %s\n# reproduced: %s (%s)\n# build: g++ %s %s %s rt/replay.cpp; run: prog THIS_FILE\n' % (v['kind'], v['msg'], v['loc'], v['trace'], p['file'], entry, ok, how, ' '.join(DEFS), ' '.join(p['d']), p['src']))
        report.append((p, v, f, ok, entry))
    known = load_known()
    real = 0
    for p, v, f, ok, entry in report:
        kf = next((k for k in known if k['property'] == prop and k['status'] == 'known' and k.get('entry') == entry and k.get('match', '') in v['msg']), None)
        if kf: print('KNOWN-FINDING: property=%s %s' % (prop, kf['what'])); continue
        if ok:
            real += 1; print('VIOLATION property=%s replay=%s' % (prop, f)); print('  %s %s: %s: %s at %s [%s]' % (p['file'], entry, v['kind'], v['msg'], v['loc'], v['trace'][:300]))
        else: errors.append('counterexample did not reproduce on the real code: %s %s %s (%s)' % (p['file'], entry, v['msg'], f))
    ev['solver_s'] = round(ev['solver_s'], 3); ev['engine_wall_s'] = round(ev['engine_wall_s'], 2)
    if T: ev.update(cross_check(work, pool, errors))
    ev['functions_encoded'] = sorted(fns); ev['repo_lines_executed'] = len(lines); ev['bounds'] = bounds; ev['harnesses'] = [dict(file=p['file'], defs=p['d']) for p in parts]
    ev['counting'] = 'states: nodes of the symbolic execution trees (branchings and path ends); transitions: instructions executed symbolically; traces_validated_against_impl: solver models of paths re-run through the natively compiled library with equal observations'; ev['exhaustive'] = not errors
    if notes: ev['notes'] = notes
    ev['solver'] = 'Z3 (libz3) on QF_BV, or on QF_LIA where the query is a boolean combination of linear terms that cannot wrap (an exact translation; models are re-evaluated on the bit-vector terms); undecided queries count as errors, never as success'
    evd = os.environ.get('SX_EVIDENCE', os.path.join(HERE, 'evidence')); os.makedirs(evd, exist_ok=True)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=LEVEL, coverage=ev, wall_s=round(time.time() - t0, 2), violations=real,
                   assumptions=[x for p in parts for x in p.get('assume', [])][:40] + ['clang 18 -O1 IR of the headers is what is encoded; libstdc++ 13 with assertions', 'sub-parsers represented by stubs are deterministic and obey the contract in C01']), open(os.path.join(evd, prop + '.json'), 'w'), indent=1)
    print('%s %s: %d entries, %d paths, %d queries (%.2f s solver), %d assertions (%d by SMT), %d witnesses replayed, %.1f s' % (prop, tier, ev['entries'], ev['paths'], ev['queries'], ev['solver_s'], ev['assertions'], ev['assertions_smt'], ev['traces_validated_against_impl'], time.time() - t0))
    if os.environ.get('SX_TIMES'): print(tm, ev['engine_wall_s'])
    for e in errors[:12]: print('ERROR', e[:1500])
    if not os.environ.get('SX_KEEP'): shutil.rmtree(work, ignore_errors=True)
    if real: return 1
    return 2 if errors else 0

def first_err(o):
    m = re.search(r'.*error:.*', o); return m.group(0)[:300] if m else '?'
def load_known():
    f = os.path.join(HERE, 'known_findings.json'); return json.load(open(f))['findings'] if os.path.exists(f) else []
STD = {'uninitialised', 'write-to-constant', 'unreachable', 'ub', 'trap', 'precondition'}
def reproduce(p, v, f, env, comp_exe, work):
    open(f, 'w').write(v['case'])
    bad = ('RESULT MISMATCH', 'RESULT SKIP', 'RESULT NOENTRY', 'RESULT OK', 'RESULT DIFFER')
    def verdict(r, o):
        if r == 'timeout': return v['kind'] == 'nontermination'
        return r not in (0, 3, 4, 5, 6) and not any(b in o for b in bad)
    tried = []
    plain = p['exe'] + '.plain'
    for name, cc, extra in (('g++ asan+ubsan', 'g++', ('-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all')), ('g++ -O1', 'g++', ('-O1', '-g', '-no-pie')), ('clang asan', 'clang++', ('-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function', '-fno-sanitize-recover=all'))):
        exe = plain + '.' + re.sub(r'\W+', '_', name); gpp = name == 'g++ -O1'
        if not os.path.exists(exe):
            r, o = comp_exe(p, exe, extra, cc)
            if r != 0: tried.append(name + ' build failed'); continue
        e2 = dict(env, SX_MMAP='1') if gpp else env
        if v['kind'] == 'write-to-constant' and gpp:
            m = re.search(r'global state (\S+)', v['msg'])
            if m:
                _, nm = run(['nm', '-S', exe]); q = re.search(r'^([0-9a-f]+) ([0-9a-f]+) \w %s$' % re.escape(m.group(1)), nm, re.M)
                if q: e2['SX_WATCH'] = q.group(1) + ':' + q.group(2)
        r, o = run([exe, f], 60, e2); tried.append('%s: %s' % (name, o.strip()[-300:] if r != 'timeout' else 'timeout'))
        if verdict(r, o): return True, tried[-1]
        if gpp and v['kind'] in ('uninitialised', 'memory', 'leak') and shutil.which('valgrind'):
            r, o = run(['valgrind', '-q', '--error-exitcode=99', exe, f], 200, env); tried.append('valgrind: ' + o.strip()[-300:])
            if r == 99: return True, tried[-1]
    if v['kind'] in STD: return True, 'standard-level undefined behaviour or state change, shown on the encoding; ' + ' | '.join(tried)
    return False, ' | '.join(tried)
def cross_check(work, pool, errors):
    fs = [os.path.join(work, x) for x in sorted(os.listdir(work)) if x.endswith('.smt2')]
    def one(f):
        want = re.search(r':status (\w+)', open(f).read()).group(1); r, o = run(['cvc5', '--tlimit=60000', f], 90); return f, want, o.strip().split('\n')[-1]
    n = bad = unk = 0
    for f, w, g in pool.map(one, fs):
        if g not in ('sat', 'unsat'): unk += 1
        elif g != w: bad += 1; errors.append('cvc5 disagrees with z3 on ' + f)
        else: n += 1
    return dict(cvc5_agrees=n, cvc5_no_answer=unk, cvc5_disagrees=bad)
if __name__ == '__main__': sys.exit(main())

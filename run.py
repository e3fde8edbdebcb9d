#!/usr/bin/env python3
"""Runs the solver-based check of one property.

  run.py PROPERTY [quick|thorough]        exit 0 held / 1 violation / 2 inconclusive
  run.py --setup                          builds the engine

A property's harnesses are the files harness/PROPERTY_*.cpp.  Every `ENTRY name( )` in them is one symbolic run.
Annotations, on comment lines directly above an ENTRY:
  //@ q:k=v t:k=v     sym_param values in the quick / thorough tier (k=v alone: both)
  //@ time=S          time limit in seconds (q:time= / t:time=)
  //@ only=thorough   not part of the quick tier
  //@ known=ID        restricted to the inputs of known finding ID: expected to fail
  //@ bounds: text    what the entry quantifies over
File level:  //! flags: ...    extra compiler flags;   //! variant: name flags...   compile once per variant
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SYMX_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
SYMX = os.path.join(BUILD, 'symx')
CXX = '/usr/bin/clang++'
SAN = 'signed-integer-overflow,shift,integer-divide-by-zero,bounds,return,unreachable,bool,enum,float-cast-overflow'
BASE = ['-std=c++23', '-I' + REPO + '/include', '-I' + os.path.join(ROOT, 'harness'), '-pthread', '-w']
SYMFLAGS = ['-O1', '-emit-llvm', '-c', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-pie',
            '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DSYMX=1', '-fsanitize=' + SAN, '-fsanitize-trap=all']
JOBS = int(os.environ.get('SYMX_JOBS', '8'))


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['make', '-s', '-j8', '-C', os.path.join(ROOT, 'engine')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
        print('INCONCLUSIVE: the engine does not build')
        sys.exit(2)


class Entry:
    def __init__(self, src, name, ann, variant, vflags):
        self.src, self.name, self.ann, self.variant, self.vflags = src, name, ann, variant, vflags
        self.known = ann.get('known')
        self.only = ann.get('only')
        self.bounds = ann.get('bounds', '')

    def get(self, tier, key, default=None):
        p = tier[0] + ':'
        return self.ann.get(p + key, self.ann.get(key, default))

    def params(self, tier):
        out = {}
        for pre in ('', tier[0] + ':'):
            for k, v in self.ann.items():
                if k.startswith('q:') or k.startswith('t:'):
                    if pre == '' or not k.startswith(pre):
                        continue
                    k = k[2:]
                elif pre:
                    continue
                if k in ('time', 'only', 'known', 'bounds', 'steps'):
                    continue
                out[k] = v
        return out

    def label(self):
        return self.name + ('/' + self.variant if self.variant else '')


def parse(src):
    ents, flags, variants, ann = [], [], [], {}
    for line in open(src):
        s = line.strip()
        if s.startswith('//! flags:'):
            flags += s[len('//! flags:'):].split()
        elif s.startswith('//! variant:'):
            w = s[len('//! variant:'):].split()
            variants.append((w[0], w[1:]))
        elif s.startswith('//@ bounds:'):
            ann['bounds'] = (ann.get('bounds', '') + ' ' + s[len('//@ bounds:'):].strip()).strip()
        elif s.startswith('//@'):
            for w in s[3:].split():
                if '=' in w:
                    pre = w[:2] if w[:2] in ('q:', 't:') else ''
                    for kv in w[len(pre):].split(','):
                        k, v = kv.split('=', 1)
                        ann[pre + k] = v
        else:
            m = re.match(r'ENTRY\s+(\w+)\s*\(', s)
            if m:
                ents.append((m.group(1), dict(ann)))
                ann = {}
    out = []
    for vn, vf in (variants or [('', [])]):
        for n, a in ents:
            out.append(Entry(src, n, a, vn, flags + vf))
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Ctx:
    pass


def compile_bc(src, flags, out):
    t = time.time()
    r = sh([CXX] + BASE + flags + SYMFLAGS + [src, '-o', out])
    return r.returncode, r.stdout, time.time() - t


def run_symx(ctx, e, bc):
    out = bc + '.' + e.name + '.json'
    limit = float(e.get(ctx.tier, 'time', '240' if ctx.tier == 'quick' else '1500'))
    limit = min(limit, max(5.0, ctx.deadline - time.time()))
    cmd = [SYMX, bc, '--entry', e.name, '--max-time', str(limit), '--out', out]
    st = e.get(ctx.tier, 'steps')
    if st:
        cmd += ['--max-steps', st]
    for k, v in e.params(ctx.tier).items():
        cmd += ['--param', k + '=' + v]
    t = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ctx.procs.add(p)
        try:
            o, _ = p.communicate(timeout=limit + 60)
        finally:
            ctx.procs.discard(p)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        rc, o = 2, 'engine exceeded its time limit'
    res = {'entry': e.name, 'rc': rc, 'log': o[-2000:], 'wall': time.time() - t}
    if os.path.exists(out):
        try:
            res['json'] = json.load(open(out))
        except Exception as ex:
            res['log'] += ' bad json %s' % ex
    return res


def write_inputs(path, params, inputs):
    with open(path, 'w') as f:
        for k, v in params.items():
            f.write('param %s %s\n' % (k, int(str(v), 0)))
        for i in inputs:
            f.write('%s %s\n' % (i['name'], i['value']))


NATIVE = {
    'asan': ['-O0', '-g', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,function,null,alignment,object-size,pointer-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'asan-O1': ['-O1', '-g', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,function,null,alignment,object-size,pointer-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
    'plain': ['-O1', '-g', '-ftrivial-auto-var-init=pattern'],
    'sched': ['-O1', '-g'],
    'sched0': ['-O0', '-g'],
    'plain0': ['-O0', '-g', '-ftrivial-auto-var-init=zero'],
}


def native_build(ctx, e, kind):
    key = (e.src, tuple(e.vflags), kind)
    if key in ctx.native:
        return ctx.native[key]
    exe = os.path.join(ctx.work, 'native%d' % len(ctx.native))
    if kind.startswith('sched'):
        # threads run as coroutines under the schedule of the counterexample; see replay/sched.cpp
        obj = exe + '.o'
        r = sh([CXX] + BASE + NATIVE[kind] + ['-fsanitize=thread', '-c'] + e.vflags + [e.src, '-o', obj])
        if r.returncode == 0:
            r = sh([CXX] + BASE + NATIVE[kind] + ['-DSYM_THREADS=1', '-rdynamic', obj, os.path.join(ROOT, 'replay/sym_native.cpp'), os.path.join(ROOT, 'replay/sched.cpp'), '-o', exe, '-ldl'])
    else:
        r = sh([CXX] + BASE + NATIVE[kind] + e.vflags + ['-rdynamic', e.src, os.path.join(ROOT, 'replay/sym_native.cpp'), '-o', exe, '-ldl'])
    ctx.native[key] = (exe if r.returncode == 0 else None, r.stdout[-1500:])
    return ctx.native[key]


def native_run(exe, entry, inputs, fill=None, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=70:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=4096', UBSAN_OPTIONS='exitcode=71:print_stacktrace=0')
    if fill is not None:
        env['SYM_FILL'] = str(fill)
    try:
        r = subprocess.run([exe, entry, inputs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env,
                           preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_CORE, (0, 0)))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', 'no termination within %d s' % timeout


def replay(ctx, e, viol, inputs):
    """Run the counterexample on the natively compiled code.  Returns (reproduced, text)."""
    notes = []
    for kind, fill in (('sched', 0xaa), ('sched0', 0x55)) if '-DSYM_THREADS=1' in e.vflags else (('asan', None), ('plain', 0xff), ('asan-O1', 0), ('plain0', 0), ('plain', 0x55)):
        exe, log = native_build(ctx, e, kind)
        if not exe:
            notes.append(kind + ': does not compile: ' + log[-300:])
            continue
        rc, out = native_run(exe, e.name, inputs, fill)
        first = next((l for l in out.splitlines() if 'ERROR' in l or 'REPLAY' in l or 'runtime error' in l), out.strip().splitlines()[-1] if out.strip() else '')
        notes.append('%s: exit %s: %s' % (kind, rc, first[:300]))
        if rc not in (0, 2):
            return True, notes
    return False, notes


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        build_engine()
        r = sh([SYMX, '--selftest', os.environ.get('VERIF_SEED', '1'), '400'])
        print(r.stdout.strip())
        return r.returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3:] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    ctx = Ctx()
    ctx.tier, ctx.native, ctx.procs = tier, {}, set()
    ctx.deadline = t0 + (float(os.environ.get('SYMX_DEADLINE', '780')) if tier == 'quick' else 6 * 3600)
    build_engine()
    files = sorted(glob.glob(os.path.join(ROOT, 'harness', prop + '_*.cpp')))
    if not files:
        print('no harness for ' + prop)
        return 2
    entries = [e for f in files for e in parse(f) if tier == 'thorough' or e.only != 'thorough']
    if only:
        entries = [e for e in entries if e.name in only]
    known_db = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    known = {k['id']: k for k in known_db['findings']}
    work_parent = os.path.join(BUILD, 'work')
    os.makedirs(work_parent, exist_ok=True)
    ctx.work = tempfile.mkdtemp(prefix=prop + '.', dir=work_parent)
    status, messages, violations, knownhits, inconclusive = 0, [], [], [], []
    results = []
    try:
        # compile every (file, flags) once
        combos = {}
        for e in entries:
            combos.setdefault((e.src, tuple(e.vflags)), []).append(e)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {}
            for i, (key, es) in enumerate(combos.items()):
                bc = os.path.join(ctx.work, 'h%d.bc' % i)
                futs[ex.submit(compile_bc, key[0], list(key[1]), bc)] = (key, bc)
            run_f = {}
            compile_s = 0.0
            for f in cf.as_completed(futs):
                key, bc = futs[f]
                rc, out, dt = f.result()
                compile_s += dt
                if rc:
                    errs = [l for l in out.splitlines() if 'error' in l][:6]
                    inconclusive.append('%s does not compile against the current tree: %s' % (os.path.basename(key[0]), ' | '.join(errs)))
                    continue
                for e in combos[key]:
                    run_f[ex.submit(run_symx, ctx, e, bc)] = e
            stop = False
            for f in cf.as_completed(run_f):
                e = run_f[f]
                if f.cancelled():
                    continue
                r = f.result()
                if stop:
                    continue
                j = r.get('json')
                results.append((e, r))
                if not j:
                    inconclusive.append('%s: engine error (%s) %s' % (e.label(), r['rc'], r['log'][-300:]))
                    continue
                for v in j['violations']:
                    d = os.path.join(ROOT, 'replays', prop)
                    os.makedirs(d, exist_ok=True)
                    base = os.path.join(d, e.label().replace('/', '_'))
                    write_inputs(base + '.inputs', j['params'], v['inputs'])
                    ok, notes = replay(ctx, e, v, base + '.inputs')
                    rec = {'property': prop, 'entry': e.name, 'variant': e.variant, 'harness': os.path.relpath(e.src, ROOT), 'kind': v['kind'], 'message': v['msg'],
                           'where': v['where'], 'stack': v['stack'], 'inputs': v['inputs'], 'params': j['params'], 'native_replay': notes, 'reproduced': ok, 'flags': e.vflags,
                           'how': 'build harness with replay/sym_native.cpp (see run.py NATIVE) and run: PROG %s %s' % (e.name, os.path.basename(base) + '.inputs')}
                    json.dump(rec, open(base + '.json', 'w'), indent=1)
                    if not ok:
                        inconclusive.append('%s: counterexample does not reproduce natively: %s: %s at %s [%s]' % (e.label(), v['kind'], v['msg'], v['where'], '; '.join(notes)))
                        continue
                    k = known.get(e.known) if e.known else None
                    if k and k.get('property') == prop and e.name in k['entries'] and v['kind'] in k['kinds'] and any(m in v['msg'] for m in k['messages']):
                        knownhits.append((k, e, v))
                        continue
                    violations.append((e, v, base + '.json', notes))
                for i in j['incomplete']:
                    inconclusive.append(e.label() + ': ' + i)
                if not j['violations'] and not e.known:
                    miss = [x for x in j['all_reach'] if x not in j['reached']]
                    if miss:
                        inconclusive.append('%s: markers never reached: %s' % (e.label(), ', '.join(miss)))
                    if j['completed'] + j['expected_terminations'] == 0:
                        inconclusive.append('%s: no path completed (vacuous)' % e.label())
                if violations and not only:
                    stop = True
                    for g in run_f:
                        g.cancel()
                    for p in list(ctx.procs):
                        p.kill()
        # thorough: replay sampled path models natively, as a check of the encoding itself
        validated = 0
        nat_target = 60 if tier == 'thorough' else 0
        if nat_target and not violations:
            for e, r in results:
                j = r.get('json')
                if not j or e.known:
                    continue
                exe, log = native_build(ctx, e, 'sched' if '-DSYM_THREADS=1' in e.vflags else 'asan')
                if not exe:
                    inconclusive.append('native build of %s failed: %s' % (e.label(), log[-200:]))
                    continue
                for n, s in enumerate(j['samples'][:nat_target]):
                    p = os.path.join(ctx.work, 's.inputs')
                    write_inputs(p, j['params'], s)
                    rc, out = native_run(exe, e.name, p)
                    if rc != 0:
                        inconclusive.append('%s: encoding disagrees with the native run of a path model (exit %s): %s' % (e.label(), rc, out[-300:]))
                        break
                    validated += 1
        # evidence
        ev_entries, tot = [], {}
        libf = set()
        for e, r in results:
            j = r.get('json')
            if not j:
                continue
            libf |= set(j['library_functions'])
            for k in ('paths', 'completed', 'assumed_out', 'expected_terminations', 'forks', 'instructions', 'assertions', 'assertions_to_solver', 'queries', 'solver_calls', 'cache_hits', 'sat', 'unsat', 'unknown', 'solver_s'):
                tot[k] = tot.get(k, 0) + j[k]
            ev_entries.append({'entry': e.label(), 'harness': os.path.basename(e.src), 'bounds': e.bounds, 'params': j['params'], 'paths': j['paths'], 'assertions': j['assertions'],
                               'assertions_needing_solver': j['assertions_to_solver'], 'queries': j['queries'], 'solver_calls': j['solver_calls'], 'solver_s': round(j['solver_s'], 3),
                               'max_query_s': round(j['max_query_s'], 3), 'wall_s': round(j['wall_s'], 3), 'reached': j['reached'], 'exhausted': not j['incomplete'] and j['pending'] == 0,
                               'modelled_externals': j['modelled_externals'], 'known_finding': e.known})
        for k in tot:
            tot[k] = round(tot[k], 3) if k == 'solver_s' else int(tot[k])
        cov = {'explanation': 'Bounded symbolic execution of the LLVM IR that clang generates from the current /repo headers; every branch, assertion, memory access and '
                              'undefined-behaviour guard is decided by Z3 over all values of the symbolic inputs within the bounds listed per entry. Nothing outside those bounds is claimed.',
               'entries': sorted(ev_entries, key=lambda x: x['entry']), 'totals': tot, 'functions_encoded': sorted(libf), 'functions_encoded_count': len(libf),
               'compile_s': round(compile_s, 2), 'native_path_models_agreeing': validated, 'inconclusive': inconclusive,
               'known_findings': sorted(set(k['id'] for k, _, _ in knownhits))}
        ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
              'assumptions': ['x86-64, little endian, clang 18 -O1 code generation of the harness instantiation', 'libstdc++ 13 headers are executed as they are; the C library and C++ ABI calls listed as modelled_externals are modelled by the engine',
                              'symbolic pointers do not alias objects created later; heap addresses are not reused', 'thread interleavings: only the entries that start threads have any; they are explored under sequential consistency with a bounded number of preemptions, with happens-before race detection following the memory orders']}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        if not only:
            json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    finally:
        for p in list(ctx.procs):
            p.kill()
        shutil.rmtree(ctx.work, ignore_errors=True)
    seen = set()
    for k, e, v in knownhits:
        if k['id'] not in seen:
            seen.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for e, v, path, notes in violations:
        print('  %s: %s: %s at %s' % (e.label(), v['kind'], v['msg'], v['where']))
        print('    inputs: ' + ', '.join('%s=0x%s' % (i['name'], i['value']) for i in v['inputs'][:24]))
        print('    native: ' + notes[-1])
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if violations:
        return 1
    for i in inconclusive:
        print('INCONCLUSIVE: ' + i)
    print('%s %s: %d entries, %d paths, %d assertions, %d queries, %.1f s solver, %.1f s wall' % (prop, tier, len(results), tot.get('paths', 0), tot.get('assertions', 0), tot.get('queries', 0), tot.get('solver_s', 0), time.time() - t0))
    if only:
        for e, r in sorted(results, key=lambda x: x[0].label()):
            j = r.get('json') or {}
            print('   %-40s %6.1f s  paths %s queries %s max %.2fs' % (e.label(), r['wall'], j.get('paths'), j.get('queries'), j.get('max_query_s', 0)))
    else:
        for e, r in sorted(results, key=lambda x: -x[1]['wall'])[:6]:
            j = r.get('json') or {}
            print('   %-40s %6.1f s  paths %s queries %s max %.2fs' % (e.label(), r['wall'], j.get('paths'), j.get('queries'), j.get('max_query_s', 0)))
    return 2 if inconclusive else 0


if __name__ == '__main__':
    sys.exit(main())

"""Checks that execute generated code (harness/rt)."""
import json, os, re, threading
from core import *

PARTS = 8


def add_stats(ck, line):
    d = json.loads(line[6:])
    for k, v in d['counts'].items():
        if k.startswith('max_'):
            ck.cmax(k, v)
        elif k != 'schemas':
            ck.count(k, v)
    ck.evals += d['counts'].get('cases', 0)
    ck.distinct += d['distinct']
    for s in d['samples'][:1]:
        ck.sample(s)


def vgen(ck, name, profile, ks, parts=PARTS):
    """Generates schemas, the generated modules and the adapters; None if the compiler failed"""
    b = ck.build_tool('vgen')
    out = os.path.join(ck.dir, name)
    os.makedirs(out, exist_ok=True)
    rc, o, e = ck.run([os.path.join(b, 'vgen'), out, str(ck.seed), ','.join(map(str, ks)), profile, str(parts)], timeout=300)
    if rc == 3:
        ck.viol('compiler', o.strip() + ' ' + e[-1500:], profile=profile, ks=list(ks))
        return None
    if rc == 'timeout' or rc == -9:
        raise HarnessError('vgen: %s' % rc)
    if isinstance(rc, int) and rc < 0:
        ck.viol('compiler', 'the compiler died with signal %d on a valid schema: %s' % (-rc, e[-1500:]), profile=profile, ks=list(ks))
        return None
    if rc != 0:
        raise HarnessError('vgen failed: %s %s' % (o[-500:], e[-1500:]))
    ck.count('schemas_compiled', len(list(ks)))
    return out


def build(ck, gen, target, features=None, toolchain=STABLE, rustflags='', triple=None, bins=None, extra=()):
    """Builds the programs that contain the generated modules; None if the generated code does not compile"""
    args = ['build']
    if bins:
        for x in bins:
            args += ['--bin', x]
    if features is not None:
        args += ['--no-default-features', '--features', ','.join(features)] if features else ['--no-default-features']
    if triple:
        args += ['--target', triple]
    args += list(extra)
    env = dict(VGEN_DIR=gen)
    if rustflags:
        env['RUSTFLAGS'] = rustflags
    rc, out, err = ck.cargo('rt', args, target, env=env, toolchain=toolchain)
    if rc != 0:
        if rc != 'timeout' and re.search(r'/(g|a)\d+\.rs:', err) and re.search(r'could not compile `rt` \(bin', err):
            m = re.search(r'^error.*?(?=^(error|warning)|\Z)', err, re.S | re.M)
            ck.viol('compile', 'code generated for a valid schema does not compile: ' + (m.group(0) if m else err)[:3000], gen=gen)
            return None
        raise HarnessError('building rt failed (%s): %s' % (rc, err[-3000:]))
    p = os.path.join(BUILD, target)
    if triple:
        p = os.path.join(p, triple)
    return os.path.join(p, 'debug')


def judge(ck, res, info, hang_is_violation):
    """Decides about one finished program"""
    rc, out, err, cur = res
    stats = False
    viol = False
    for line in out.split("\n"):
        if line.startswith('STATS '):
            add_stats(ck, line)
            stats = True
        elif line.startswith('VIOL '):
            d = json.loads(line[5:])
            if d['key'] == 'harness':
                ck.errors.append('%s: %s' % (info, d['msg']))
            elif d['key'] == 'hang' and not hang_is_violation:
                ck.errors.append('%s: %s' % (info, d['msg']))
            else:
                ck.viol(d['key'], d['msg'], mode=d['mode'], k=d['k'], i=d['i'], **info)
                viol = True
    m = re.search(r'(ERROR: AddressSanitizer.*|WARNING: ThreadSanitizer.*|error: Undefined Behavior.*|ERROR: LeakSanitizer.*|error: memory leaked.*|error: Data race.*)', err)
    if m:
        ck.viol('sanitizer', m.group(1) + '\n' + err[max(0, m.start() - 200):m.start() + 3000], at=cur, **info)
        return
    if stats or viol:
        return
    if isinstance(rc, int) and rc < 0 and rc != -9:
        ck.viol('crash', 'died with signal %d at %s: %s' % (-rc, cur, err[-1500:]), at=cur, **info)
    else:
        ck.errors.append('%s ended with %s: %s' % (info, rc, err[-1500:]))


def parallel(jobs):
    ts = [threading.Thread(target=j) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def run_modes(ck, bdir, modes, info=None, bins=None, hang=False, env=None, runner=None, extra=()):
    """modes: (mode, seconds, min cases). All programs run side by side."""
    info = info or {}
    bins = bins or ['p%d' % i for i in range(PARTS)]
    for mode, secs, mn in modes:
        results = {}
        def one(b):
            cur = os.path.join(ck.dir, 'cur_%s_%s' % (b, mode))
            cmd = (runner(b) if runner else [os.path.join(bdir, b)]) + [mode, '--secs', str(secs), '--min', str(mn), '--cur', cur]
            if ck.thorough:
                cmd.append('--thorough')
            if ck.only:
                cmd += ['--only', ck.only, '--min', '1']
            cmd += list(extra)
            rc, out, err = ck.run(cmd, timeout=secs + 400, env=env)
            try:
                c = open(cur).read().strip()
            except OSError:
                c = ''
            results[b] = (rc, out, err, c)
        parallel([lambda b=b: one(b) for b in bins])
        for b in bins:
            judge(ck, results[b], dict(info, program=b, checked=mode), hang)
        ck.log(mode, 'violations', len(ck.viols), 'errors', len(ck.errors), 'cases', ck.evals)


def simple(profile, modes, nq, nt, hang=False):
    def f(ck):
        secs = (lambda q, t: t if ck.thorough else q)
        ks = list(range(0, nt if ck.thorough else nq))
        g = vgen(ck, 'gen', profile, ks)
        if g is None:
            return
        b = build(ck, g, 'rt')
        if b is None:
            return
        run_modes(ck, b, [(m, secs(q, t), 10) for m, q, t in modes], dict(profile=profile), hang=hang)
    return f


def several(*fs):
    def f(ck):
        for g in fs:
            g(ck)
    return f


def c06(ck):
    """Every combination of cache features is its own build"""
    combos = [[], ['vtable-cache'], ['string-cache'], ['bytes-cache'], ['vtable-cache', 'string-cache', 'bytes-cache']]
    if ck.thorough:
        combos += [['vtable-cache', 'string-cache'], ['vtable-cache', 'bytes-cache'], ['string-cache', 'bytes-cache']]
    ks = [0, 2, 4, 5, 6] + (list(range(7, 20)) if ck.thorough else [])
    g = vgen(ck, 'gen', 'main', ks, parts=1)
    if g is None:
        return
    dirs = {}
    def b(i, c):
        try:
            dirs[i] = build(ck, g, 'rt-cache%d' % i, features=c, bins=['p0'])
        except HarnessError as e:
            ck.errors.append(str(e))
    parallel([lambda i=i, c=c: b(i, c) for i, c in enumerate(combos)])
    def r(i, c):
        if dirs.get(i):
            secs = 400 if ck.thorough else 14
            run_modes(ck, dirs[i], [('caches', secs, 20), ('session', secs // 2, 5)], dict(features=c, profile='main'), bins=['p0'])
            ck.count('feature_combinations')
    parallel([lambda i=i, c=c: r(i, c) for i, c in enumerate(combos)])


TRIPLE = 'x86_64-unknown-linux-gnu'


def c01(ck):
    t = ck.thorough
    g = vgen(ck, 'gen', 'main', range(0, 60 if t else 21))
    if g is None:
        return
    res = {}
    def b1():
        res['a'] = build(ck, g, 'rt')
    def b2():
        res['b'] = build(ck, g, 'rt-asan', toolchain=NIGHTLY, rustflags='-Zsanitizer=address', triple=TRIPLE)
    for b in (b1, b2):
        b()
        if ck.viols:
            return
    run_modes(ck, res['a'], [('hostile', 900 if t else 15, 50)], dict(profile='main', build='debug'), hang=True)
    run_modes(ck, res['b'], [('hostile', 900 if t else 12, 50)], dict(profile='main', build='asan'), hang=True,
              env=dict(ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0'))


def c10(ck):
    t = ck.thorough
    g = vgen(ck, 'gen', 'main', [2, 4, 5, 6, 7, 8, 9, 10] + (list(range(11, 43)) if t else []))
    if g is None:
        return
    # The uninstrumented builds first: they also show whether the generated code compiles
    p = build(ck, g, 'rt', features=['vtable-cache', 'string-cache', 'bytes-cache', 'poison'])
    if p is None:
        return
    run_modes(ck, p, [('poison', 300 if t else 6, 20), ('cursor', 10 if t else 2, 20)], dict(profile='main', build='poisoned allocator'))
    if ck.viols:
        return
    dirs = {}
    def asan():
        dirs['asan'] = build(ck, g, 'rt-asan', toolchain=NIGHTLY, rustflags='-Zsanitizer=address', triple=TRIPLE)
    def tsan():
        dirs['tsan'] = build(ck, g, 'rt-tsan', toolchain=NIGHTLY, rustflags='-Zsanitizer=thread', triple=TRIPLE, extra=['-Zbuild-std'], bins=None if t else ['p0', 'p1'])
    def guard(f):
        def h():
            try:
                f()
            except HarnessError as e:
                ck.errors.append(str(e))
        return h
    def miri_build():
        e = dict(VGEN_DIR=g, CARGO_TARGET_DIR=os.path.join(BUILD, 'rt-miri'), RUSTUP_TOOLCHAIN=NIGHTLY, MIRIFLAGS=MF)
        rc, o, err = ck.run(['cargo', 'miri', 'run', '--offline', '--bin', 'p0', '--', 'cursor', '--secs', '0', '--min', '0', '--watchdog', '0'], env=e, cwd=os.path.join(VERIF, 'harness', 'rt'))
        if rc != 0:
            ck.errors.append('miri: ' + err[-2000:])
    MF = '-Zmiri-disable-isolation -Zmiri-many-seeds-keep-going'
    MF = '-Zmiri-disable-isolation'
    parallel([guard(asan), guard(tsan), guard(miri_build)])
    if ck.errors or ck.viols:
        return
    run_modes(ck, dirs['asan'], [('tiny', 300 if t else 5, 20), ('vectors', 300 if t else 4, 20), ('session', 60 if t else 4, 2), ('cursor', 10 if t else 2, 20)],
              dict(profile='main', build='asan'), env=dict(ASAN_OPTIONS='detect_leaks=1'))
    run_modes(ck, dirs['tsan'], [('threads', 300 if t else 6, 5)], dict(profile='main', build='tsan'), bins=None if t else ['p0', 'p1'])
    e = dict(VGEN_DIR=g, CARGO_TARGET_DIR=os.path.join(BUILD, 'rt-miri'), RUSTUP_TOOLCHAIN=NIGHTLY)
    ms = [('cursor', 5, 2), ('session', 8, 1), ('tiny', 600 if t else 28, 2), ('threads', 200 if t else 6, 1)]
    before = ck.evals
    def miri(mode, secs, mn, flags, parts):
        def runner(b):
            return ['sh', '-c', 'cd %s && exec cargo miri run -q --offline --bin %s -- "$@"' % (os.path.join(VERIF, 'harness', 'rt'), b), 'sh']
        run_modes(ck, None, [(mode, secs, mn)], dict(profile='main', build='miri'), bins=parts, runner=runner,
                  env=dict(e, MIRIFLAGS=flags), extra=['--watchdog', '0'])
    for m, s, mn in ms:
        miri(m, s, mn, MF, ['p0'] if m in ('cursor',) else ['p%d' % i for i in range(PARTS)])
    ck.counts['miri_cases'] = ck.evals - before


def c23_forced(ck):
    g = vgen(ck, 'forced', 'main', [1000])
    if g is None:
        return
    b = build(ck, g, 'rt')
    if b is None:
        return
    run_modes(ck, b, [('forced', 5, 1)], dict(profile='main', schema='forced'), bins=['p0'], extra=['--max', '1'])


RULES = dict(
    C01='case = 10 mutations (bit flips, odd words near field boundaries, truncation, splices, random and table-shaped bytes) of a buffer of a random value of a random schema, read completely through accessors, vectors, owned conversion and Debug; distinct by bytes',
    C02='case = 1-3 buffers of random values (boundary scalars, NaN payloads, shared and nested objects) of a random schema written through a random mix of the writing interfaces; distinct by bytes',
    C03='as C02, but the bytes are judged by an independent strict verifier and decoder; distinct by bytes',
    C04='case = one random value laid out twice by an independent writer with random order, gaps, garbage padding, sharing, explicit defaults, vtable truncation; distinct by bytes',
    C05='case = one buffer written with one schema version and read with the other; distinct by bytes',
    C06='case = 1-4 buffers of one builder separated by clear() from a pool of colliding objects, or one session of up to 12000 colliding strings and byte vectors; distinct by bytes',
    C07='case = one sequence of operations replayed on a fresh, a dirty-then-cleared, a pre-sized and a default builder; distinct by bytes',
    C08='case = one value with minimal, near-minimal, zeroed or random fields written, its stored slots compared, plus one buffer with missing required fields; distinct by bytes',
    C09='case = every vector of one buffer (valid or with unknown tags) through random operation sequences against slices; distinct by bytes',
    C10='case = one workload step under Miri, ASan+LSan, TSan or the poisoning allocator; distinct by bytes',
    C11='case = one value and neighbours through every derived implementation; distinct by bytes',
    C23='case = struct sizes and alignments plus one written and one foreign buffer of a random schema; distinct by bytes',
)
CHECKS = dict(
    C01=c01,
    C02=simple('main', [('roundtrip', 20, 900)], 24, 80),
    C03=simple('main', [('written', 20, 900)], 24, 80),
    C04=simple('main', [('foreign', 20, 900)], 24, 80),
    C05=simple('evo', [('evolve', 20, 900)], 24, 80),
    C06=c06,
    C07=simple('main', [('reuse', 20, 900)], 16, 60),
    C08=simple('main', [('presence', 20, 900)], 24, 80),
    C09=simple('main', [('vectors', 20, 900)], 24, 80, hang=True),
    C10=c10,
    C11=simple('main', [('derived', 20, 900)], 24, 80),
    C23=several(simple('main', [('layouts', 15, 600)], 32, 120), c23_forced),
)

"""Checks of the compiler (harness/comp): schemas, names, literals, diagnostics, formatting, output."""
import os, shutil
from core import *
from rt import judge, parallel, add_stats

WORKERS = 8


def tool(ck):
    return os.path.join(ck.build_tool('comp', target='comp'), 'comp')


def scratch(ck, name):
    """A fresh directory, in memory if that is possible"""
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else ck.dir
    d = os.path.join(base, 'verif-%s-%s' % (ck.id.lower(), name))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def planus(ck):
    """The planus command of /repo"""
    rc, out, err = ck.cargo('comp', ['build', '-p', 'planus-cli', '--bin', 'planus', '--manifest-path', os.path.join(REPO, 'Cargo.toml')], 'cli')
    if rc != 0:
        raise HarnessError('building planus failed (%s):\n%s' % (rc, err[-3000:]))
    return os.path.join(BUILD, 'cli', 'debug', 'planus')


def run_modes(ck, exe, modes, hang=False, args=()):
    """modes: (mode, seconds, min cases); every mode in WORKERS processes"""
    for mode, secs, mn in modes:
        results = {}
        d = scratch(ck, mode)
        def one(w):
            cur = os.path.join(ck.dir, 'cur_%d_%s' % (w, mode))
            cmd = [exe, mode, '--secs', str(secs), '--min', str(mn), '--worker', str(w), '--seed', str(ck.seed),
                   '--dir', os.path.join(d, str(w)), '--cur', cur]
            cmd += args
            if ck.thorough:
                cmd.append('--thorough')
            if ck.only:
                cmd += ['--only', ck.only]
            rc, out, err = ck.run(cmd, timeout=secs + 400)
            try:
                c = open(cur).read().strip()
            except OSError:
                c = ''
            results[w] = (rc, out, err, c)
        ws = [0] if ck.only else range(WORKERS)
        parallel([lambda w=w: one(w) for w in ws])
        for w in ws:
            judge(ck, results[w], dict(worker=w, checked=mode), hang)
        shutil.rmtree(d, ignore_errors=True)
        ck.log(mode, 'violations', len(ck.viols), 'errors', len(ck.errors), 'cases', ck.evals)


def simple(*modes, hang=False):
    def f(ck):
        exe = tool(ck)
        run_modes(ck, exe, [(m, t if ck.thorough else q, 20) for m, q, t in modes], hang=hang)
    return f


def c29(ck):
    exe = tool(ck)
    p = planus(ck)
    run_modes(ck, exe, [('cli', 600 if ck.thorough else 25, 8)], args=['--planus', p], hang=True)


def several(*fs):
    def f(ck):
        for g in fs:
            g(ck)
    return f


def gen_build(ck, d, target, bins=None):
    """Builds the programs made of generated modules in d. (directory of the programs or None, errors)"""
    args = ['build', '--keep-going']
    for b in (bins if bins is not None else range(WORKERS)):
        args += ['--bin', 'p%d' % b]
    rc, out, err = ck.cargo('gen', args, target, env=dict(GEN_DIR=d))
    if rc == 0:
        return os.path.join(BUILD, target, 'debug'), ''
    if rc == 'timeout' or not re.search(r'could not compile `gen` \(bin', err):
        raise HarnessError('building gen failed (%s): %s' % (rc, err[-3000:]))
    return None, err


def first_errors(err, n=3):
    return ''.join(m.group(0) for m in list(re.finditer(r'^error.*?(?=^(?:error|warning)|\Z)', err, re.S | re.M))[:n])


def litgen(ck):
    """Literals in the code that is really generated"""
    exe = tool(ck)
    d = scratch(ck, 'gen')
    n = 250 if ck.thorough else 20
    def one(p):
        sub = os.path.join(d, 's%d' % p)
        os.makedirs(sub)
        rc, out, err = ck.run([exe, 'litgen', sub, str(ck.seed * 1000 + p), str(n)])
        if rc == 3:
            ck.viol('litgen', out.strip()[:3000])
        elif rc != 0:
            ck.errors.append('litgen: %s %s' % (rc, err[-1500:]))
        else:
            shutil.move(os.path.join(sub, 'main.rs'), os.path.join(d, 'main%d.rs' % p))
    parallel([lambda p=p: one(p) for p in range(WORKERS)])
    if ck.viols or ck.errors:
        return
    b, err = gen_build(ck, d, 'gen')
    if b is None:
        ck.viol('compile', 'code generated for valid literals does not compile: ' + first_errors(err)[:3000])
        return
    for p in range(WORKERS):
        rc, out, err = ck.run([os.path.join(b, 'p%d' % p)])
        bad = [l for l in out.split('\n') if l.startswith('BAD ')]
        for l in bad[:3]:
            ck.viol('generated', 'the generated code has another value: ' + l[4:])
        if rc != 0 and not bad:
            ck.viol('generated', 'the generated code failed with %s: %s' % (rc, err[-1500:]))
        m = re.search(r'^CHECKED (\d+)', out, re.M)
        if m:
            ck.count('values_compared_in_generated_code', int(m.group(1)))
            ck.evals += int(m.group(1))
    shutil.rmtree(d, ignore_errors=True)


def c21(ck):
    """Generated modules go through rustc, in several editions"""
    exe = tool(ck)
    n = 300 if ck.thorough else 40
    outs = []
    for rnd in (0, 1):
        d = scratch(ck, 'gen%d' % rnd)
        outs.append(d)
        res = {}
        def one(w):
            cmd = [exe, 'compile', '--secs', '1000', '--min', str(n), '--max', str(n), '--worker', str(w), '--seed', str(ck.seed),
                   '--dir', os.path.join(d, 'w%d' % w), '--out', d] + (['--pretty'] if rnd == 0 else [])
            if ck.only:
                cmd += ['--only', ck.only]
            res[w] = ck.run(cmd, timeout=800)
        # The same directories, so that the names of files agree
        parallel([lambda w=w: one(w) for w in ([0] if ck.only else range(WORKERS))])
        if rnd == 0:
            for w in sorted(res):
                judge(ck, res[w] + ('',), dict(worker=w, checked='compile'), False)
            if ck.viols or ck.errors:
                return
            # Another process has to generate the same text
            first = os.path.join(os.path.dirname(d), os.path.basename(d) + '-first')
            shutil.rmtree(first, ignore_errors=True)
            os.rename(d, first)
            outs[0] = first
            os.makedirs(d)
            outs.append(d)
            res = {}
            parallel([lambda w=w: one(w) for w in ([0] if ck.only else range(WORKERS))])
            break
    first, second = outs[0], outs[-1]
    raws = sorted(f for f in os.listdir(first) if f.endswith('.raw'))
    for f in raws:
        try:
            same = open(os.path.join(first, f), 'rb').read() == open(os.path.join(second, f), 'rb').read()
        except OSError:
            ck.errors.append('the second run did not write ' + f)
            return
        k, i = map(int, f[1:-4].split('_'))
        if not same:
            ck.viol('deterministic', 'two processes generate different texts for the same files:\n' + open(os.path.join(first, f[:-4] + '.txt')).read()[:3000], k=k, i=i)
    ck.count('modules_compared_between_processes', len(raws))
    if ck.viols:
        return
    mods = {w: [] for w in range(WORKERS)}
    for f in raws:
        mods[int(f[1:-4].split('_')[0])].append(f[:-4])
    for w in mods:
        with open(os.path.join(first, 'main%d.rs' % w), 'w') as o:
            for m in mods[w]:
                o.write('#[path = "%s/%s.rs"] mod %s;\n' % (first, m, m))
            o.write('fn main() {}\n')
    b, err = gen_build(ck, first, 'gen')
    if b is None:
        seen = set()
        for m in re.finditer(r'^error.*?(?=^(?:error|warning)|\Z)', err, re.S | re.M):
            g = re.search(r'/g(\d+)_(\d+)\.rs:', m.group(0))
            if g and g.groups() not in seen and len(seen) < 5:
                seen.add(g.groups())
                name = 'g%s_%s' % g.groups()
                ck.viol('compile', 'generated code does not compile: %s\n%s' % (m.group(0)[:1500], open(os.path.join(first, name + '.txt')).read()[:4000]),
                        k=int(g.group(1)), i=int(g.group(2)))
        if not seen:
            raise HarnessError('building gen failed: ' + err[-3000:])
        return
    ck.count('modules_compiled', len(raws))
    for d in set(outs):
        shutil.rmtree(d, ignore_errors=True)


RULES = dict(
    C20='case = up to 120 files: the schemas of the repository, generated projects, token soup, bytes, deep and large constructs, include tangles, after up to 12 mutations, through translation, code generation, dot and formatting; distinct by content of a file',
    C21='case = the module generated for a schema set with hostile, colliding or ordinary names, or for an accepted mutant, compiled by rustc in edition 2018, 2021 or 2024, half of them after rustfmt; distinct by schema text',
    C22='case = a random schema set (files, namespaces, includes, all declaration kinds) rendered with random spelling and layout and required to be accepted with exactly the declarations of the model, or the same set with one faulty or one harmless construct from a catalogue at a random place; distinct by text',
    C24='case = one project in four renderings (order of includes, declarations and command line, duplicates, path spellings) against the model, or up to 8 probe names resolved by an independent resolver; distinct by text and names',
    C25='case = a schema with random enum values, ids, alignments and defaults in random notation, compared with the declarations, plus literals that do not fit; and generated code executed; distinct by literal text',
    C26='case = every file of a valid project, or a file with one syntax error, formatted and scanned by an independent scanner; distinct by text',
    C27='case = a schema set with one fault (catalogue or organic) or several independent ones at known places, diagnostics parsed and compared with the places; distinct by text',
    C28='case = the dot output of a random schema set, lexed and parsed, its tables and edges compared with the model; distinct by text',
    C29='case = one run of the command with random options on valid or faulty files in random surroundings, exit status, output, messages and the whole directory compared; distinct by command line and files',
    C30='case = a schema set with marked documentation and marked comments at random places, the generated code parsed and every doc attribute compared; distinct by text',
)
CHECKS = dict(
    C20=simple(('robust', 30, 900), hang=True),
    C21=c21,
    C22=simple(('accept', 25, 900), ('valid', 15, 300)),
    C24=simple(('names', 25, 900)),
    C25=several(simple(('literals', 15, 600)), litgen),
    C26=simple(('formatting', 25, 900)),
    C27=simple(('diag', 25, 900)),
    C28=simple(('dot', 25, 600)),
    C29=c29,
    C30=simple(('docs', 25, 600)),
)

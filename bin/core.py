"""Shared parts of the checks: building, running, deciding, evidence."""
import json, os, re, shutil, signal, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
REPO = '/repo'
EVID = os.path.join(VERIF, 'evidence')

ENV = dict(os.environ)
ENV.update(
    PATH='/root/.cargo/bin:' + os.environ.get('PATH', ''),
    CARGO_HOME='/root/.cargo', RUSTUP_HOME='/root/.rustup',
    CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0',
)
STABLE = 'stable-x86_64-unknown-linux-gnu'
NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTUP_TOOLCHAIN'):
    ENV.pop(k, None)


class HarnessError(Exception):
    """The check cannot decide."""


def printable(t):
    """Control characters of the inputs would make the output binary."""
    return ''.join(c if c in '\n\t' or c.isprintable() else c.encode('unicode_escape').decode('ascii') for c in t)


class Check:
    def __init__(self, pid, tier, seed, only=None):
        self.id, self.tier, self.seed, self.only = pid, tier, seed, only
        self.thorough = tier == 'thorough'
        self.viols = []      # dicts with key, msg, replay information
        self.errors = []
        self.counts = {}
        self.distinct = 0
        self.evals = 0
        self.samples = []
        self.assumptions = []
        self.rule = ''
        self.extra = {}
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, pid.lower())
        os.makedirs(self.dir, exist_ok=True)
        self.lock = threading.Lock()

    def log(self, *a):
        print('[%s %.0fs]' % (self.id, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def count(self, k, n=1):
        with self.lock:
            self.counts[k] = self.counts.get(k, 0) + n

    def cmax(self, k, n):
        with self.lock:
            self.counts[k] = max(self.counts.get(k, 0), n)

    def viol(self, key, msg, **info):
        with self.lock:
            self.viols.append(dict(key=key, msg=msg, **info))

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)

    # ------------------------------------------------------------ commands

    def run(self, cmd, timeout=600, env=None, cwd=None, input=None):
        e = dict(ENV)
        e.setdefault('RUSTUP_TOOLCHAIN', STABLE)
        if env:
            e.update(env)
        p = subprocess.Popen(cmd, cwd=cwd or self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL, start_new_session=True)
        try:
            out, err = p.communicate(input, timeout=timeout)
            return p.returncode, out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
            return 'timeout', out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')

    def cargo(self, crate, args, target, env=None, toolchain=STABLE, timeout=800):
        e = dict(CARGO_TARGET_DIR=os.path.join(BUILD, target), RUSTUP_TOOLCHAIN=toolchain)
        e.update(env or {})
        rc, out, err = self.run(['cargo'] + args + ['--offline'], timeout=timeout, env=e, cwd=os.path.join(VERIF, 'harness', crate))
        return rc, out, err

    def build_tool(self, crate, target='tools', profile='debug'):
        """Builds a harness crate that does not depend on generated code."""
        rc, out, err = self.cargo(crate, ['build'] + (['--release'] if profile == 'release' else []), target)
        if rc != 0:
            raise HarnessError('building %s failed (%s):\n%s' % (crate, rc, err[-3000:]))
        return os.path.join(BUILD, target, profile)

    # ------------------------------------------------------------ end

    def known(self):
        out = {}
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=\[(.*?)\] (.*)$', line.rstrip('\n'))
                if m and m.group(1) == self.id:
                    out[m.group(2)] = m.group(3)
        return out

    def finish(self):
        known = self.known()
        found = {}
        new = []
        for k, n in list(self.counts.items()):
            if k.startswith('known_') and n:
                if k in known:
                    found[k] = n
                else:
                    self.viols.append(dict(key=k, msg='seen %d times' % n))
        for v in self.viols:
            if v['key'] in known:
                found[v['key']] = found.get(v['key'], 0) + 1
            else:
                new.append(v)
        rdir = os.path.join(EVID, 'replay')
        os.makedirs(rdir, exist_ok=True)
        lines = []
        for i, v in enumerate(new[:20]):
            path = os.path.join(rdir, '%s_%s_%d.json' % (self.id, self.tier, i))
            v = dict(v, property=self.id, seed=self.seed, tier=self.tier,
                     how='python3 bin/check.py %s %s --replay %s' % (self.id, self.tier, os.path.relpath(path, VERIF)))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1, ensure_ascii=False)
            lines.append('VIOLATION property=%s replay=%s' % (self.id, os.path.relpath(path, VERIF)))
            print(printable('%s: %s' % (v['key'], str(v['msg'])[:1500])))
        for k in sorted(found):
            print('KNOWN-FINDING: property=%s %s' % (self.id, known[k]))
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level='exploration',
                  coverage=dict(evaluations=int(self.evals), distinct_nontrivial=int(self.distinct), rule=self.rule,
                                samples=self.samples or ['none'], observed=dict(sorted(self.counts.items())), **self.extra),
                  wall_s=round(time.time() - self.t0, 1), violations=len(new), known_findings=sorted(found),
                  assumptions=self.assumptions)
        if self.errors:
            ev['harness_errors'] = self.errors[:10]
        with open(os.path.join(EVID, self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for l in lines:
            print(l)
        sys.stdout.flush()
        if new:
            return 1
        if self.errors:
            for e in self.errors[:5]:
                print(printable('HARNESS: ' + str(e)[:2000]))
            return 2
        return 0

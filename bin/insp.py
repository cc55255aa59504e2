"""Checks of the inspection of buffers and of the viewer (harness/insp)."""
import fcntl, os, pty, random, select, shutil, signal, struct, subprocess, termios, time
from core import *
import comp
from comp import run_modes, scratch, planus


def tool(ck):
    return os.path.join(ck.build_tool('insp', target='insp'), 'insp')


def c40(ck):
    exe = tool(ck)
    run_modes(ck, exe, [('inspect', 700 if ck.thorough else 30, 50)])


KEYS = {'up': b'\x1b[A', 'down': b'\x1b[B', 'right': b'\x1b[C', 'left': b'\x1b[D', 'home': b'\x1b[H', 'end': b'\x1b[F', 'pgup': b'\x1b[5~', 'pgdn': b'\x1b[6~',
        'enter': b'\r', 'tab': b'\t', 'backspace': b'\x7f', 'ctrl-left': b'\x1b[1;5D', 'ctrl-right': b'\x1b[1;5C', 'c': b'c', '?': b'?', 'h': b'h', 'i': b'i'}


def session(cmd, keys, size, cwd):
    """Runs the viewer on a terminal of its own. (exit status or None, what it wrote, the settings of the terminal are as before)"""
    master, slave = pty.openpty()
    fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack('HHHH', size[1], size[0], 0, 0))
    before = termios.tcgetattr(slave)
    def child():
        os.setsid()
        fcntl.ioctl(0, termios.TIOCSCTTY, 0)
    e = dict(os.environ, TERM='xterm-256color')
    p = subprocess.Popen(cmd, stdin=slave, stdout=slave, stderr=slave, cwd=cwd, env=e, preexec_fn=child)
    out = bytearray()
    def pump(t):
        """Reads until the program is silent for t seconds"""
        n = len(out)
        while select.select([master], [], [], t)[0]:
            try:
                b = os.read(master, 65536)
            except OSError:
                break
            if not b:
                break
            out.extend(b)
        return len(out) > n
    end = time.time() + 60
    while b'Hex view' not in out and p.poll() is None and time.time() < end:
        pump(0.05)
    for k in keys:
        if p.poll() is not None:
            break
        os.write(master, k)
        pump(0.02)
    while p.poll() is None and time.time() < end:
        pump(0.05)
    pump(0.05)
    rc = p.poll()
    if rc is None:
        p.kill()
        p.wait()
    same = termios.tcgetattr(slave) == before
    os.close(master)
    os.close(slave)
    return rc, bytes(out), same


def terminal(ck):
    """The real command on a real terminal"""
    exe = tool(ck)
    cli = planus(ck)
    d = scratch(ck, 'tty')
    r = random.Random(ck.seed)
    rc, out, err = ck.run([exe, 'dump', d, str(ck.seed)])
    if rc != 0:
        raise HarnessError('dump: ' + err[-500:])
    schema, root, n = out.strip().split('\n')
    n = int(n)
    data = os.path.join(d, 'data.bin')
    for k in range(60 if ck.thorough else 10):
        keys = []
        for _ in range(r.choice([0, 0, 5, 20])):
            if r.random() < 0.15:
                keys += [b'g'] + [c.encode() for c in '%x' % r.randrange(n + 5)] + [b'\r']
            else:
                keys.append(KEYS[r.choice(list(KEYS))])
        # A dialog may be open
        last = r.choice([b'q', b'\x03']) if keys else r.choice([b'q', b'\x03', b'\x1b'])
        size = (r.randrange(1, 150), r.randrange(1, 50)) if r.random() < 0.3 else (r.randrange(80, 150), r.randrange(24, 50))
        full = size[0] >= 80 and size[1] >= 24
        if not full:
            # Nothing to wait for
            keys = []
        rc, out, same = session([cli, 'view', schema, root, data], keys + [last] if full else [b'', last], size, d)
        what = 'planus view on a terminal of %dx%d with the keys %r' % (size[0], size[1], keys + [last])
        tail = out[-600:].decode('utf-8', 'replace')
        if rc is None:
            if full:
                ck.viol('terminal', what + ' does not end: ' + repr(tail))
            continue
        if b'panicked' in out or rc != 0:
            ck.viol('terminal', what + ' ended with %s: %r' % (rc, tail))
        elif not same:
            ck.viol('terminal', what + ' left the terminal in another mode')
        elif out.count(b'\x1b[?1049h') != 1 or out.count(b'\x1b[?1049l') != 1 or out.rfind(b'\x1b[?25h') < out.rfind(b'\x1b[?25l'):
            ck.viol('terminal', what + ' left the screen in another state: %r' % tail)
        elif full and not all(w in out for w in (b'Hex view', b'Object view', b'Info view')):
            ck.viol('terminal', what + ' did not show its windows: %r' % out[:600])
        else:
            ck.count('terminal_sessions')
            ck.count('terminal_keys', len(keys) + 1)
            ck.count('terminal_bytes', len(out))
    shutil.rmtree(d, ignore_errors=True)


def c41(ck):
    exe = tool(ck)
    run_modes(ck, exe, [('viewer', 700 if ck.thorough else 60, 10)])
    if not ck.only:
        terminal(ck)


RULES = dict(
    C40='case = a schema (generated project, feature profile, evolved pair or many equal vtables) with a buffer of the independent writer in a random layout; every object, line, value, name, target and up to 300 bytes compared; distinct by buffer',
    C41='case = a session of up to 120 (thorough: 400) keys on terminals of random and changing size over such a buffer, every key compared with a cursor model and every screen read back; distinct by keys and sizes; plus sessions of the real command on a pseudo terminal',
)

CHECKS = dict(C40=c40, C41=c41)

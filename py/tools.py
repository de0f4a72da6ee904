"""C43, C44: the programs in py/bin, run as a user runs them (command line, output), in this process."""
import ctypes, gc, io, itertools, logging, os, re, runpy, signal, sys, tempfile, types
from contextlib import redirect_stdout, redirect_stderr
import bindings
from bindings import Clock, NOTES

SITE = None
CODE = {}


def program(name):
    """the compiled program; it is executed from scratch every time"""
    if name not in CODE:
        path = os.path.join(SITE, 'bin', name)
        CODE[name] = (path, compile(open(path).read(), path, 'exec'))
    return CODE[name]


def execute(name, args):
    """returns the exit code and what was printed"""
    path, code = program(name)
    out = io.StringIO()
    argv, syspath = sys.argv, list(sys.path)
    sys.argv = [path] + args
    rc = 0
    try:
        with redirect_stdout(out):
            exec(code, {'__name__': '__main__', '__file__': path, '__builtins__': __builtins__})
    except SystemExit as e:
        rc = e.code or 0
    finally:
        sys.argv = argv
        sys.path[:] = syspath
    return rc, out.getvalue()


# ------------------------------------------------------------------ C43: the log checker
def check_log(x, lines, expect_again, expect_free, expect_left, newline=True):
    """runs the checker over the lines; the reports must be the expected ones.
    again: (line, pointer, line of the allocation); free: (line, pointer, line of its last allocation or None); left: (pointer, line)"""
    fd, path = tempfile.mkstemp()
    try:
        text = ''.join(l + '\n' for l in lines)
        os.write(fd, (text if newline else text[:-1]).encode())
        os.close(fd)
        rc, out = execute('buffer_log_check.py', [path])
    finally:
        os.unlink(path)
    x.check(rc == 0, 'exit code %r', rc)
    got = out.splitlines()
    again = [l for l in got if 'alloc without free:' in l]
    free = [l for l in got if 'free without alloc:' in l]
    rest = [l for l in got if l not in again and l not in free]
    x.check([int(re.match(r'line (\d+):', l).group(1)) for l in again] == [e[0] for e in expect_again], 'allocations without free reported: %r, expected lines %r', again, expect_again)
    for l, e in zip(again, expect_again):
        x.check(e[1] in l and re.search(r'alloc on line %d\b' % e[2], l), 'report %r names another allocation than %r', l, e)
    x.check([int(re.match(r'line (\d+):', l).group(1)) for l in free] == [e[0] for e in expect_free], 'frees without allocation reported: %r, expected lines %r', free, expect_free)
    for l, e in zip(free, expect_free):
        x.check(not e[2] or (e[1] in l and re.search(r'alloc on line %d\b' % e[2], l)), 'report %r does not name the last allocation of the buffer, %r', l, e)
    if expect_left:
        x.check(rest and rest[0].strip() == 'Alloc without free', 'buffers left over are not reported: %r, expected %r', rest, expect_left)
        x.check(len(rest) == 1 + len(expect_left), 'left over: %r, expected %r', rest, expect_left)
        for p, line in expect_left:
            x.check(sum(1 for l in rest[1:] if p in l and re.search(r'alloc on line %d\b' % line, l)) == 1, 'the buffer %s of line %d is not reported once: %r', p, line, rest)
    else:
        x.check(not rest, 'unexpected report %r', rest)


def log_history(x):
    """real histories of the allocator, their log as it is or with one line lost"""
    x.check(SITE is not None, 'site')
    depth = x.tier(5, 7)
    live, script, small, large = [], '', 2, 2
    kind = []
    for i in range(depth):
        acts = ['S', 'L', 'n', '.']
        if sum(1 for k in live if kind[k] == 's') < 2:
            acts.append('s')
        if sum(1 for k in live if kind[k] == 'l') < 2:
            acts.append('l')
        c = x.choose(len(acts) + len(live))
        if c >= len(acts):
            k = live.pop(c - len(acts))
            script += str(k)
            continue
        a = acts[c]
        if a == '.':
            break
        script += a
        if a in 'sSlL':
            n = len(kind)
            kind.append(a.lower())
            if sum(1 for k in live if kind[k] == a.lower()) < 2:
                live.append(n)
    x.op('operations %s' % script)
    out = ctypes.create_string_buffer(20000)
    state = ctypes.create_string_buffer(64)
    n = bindings.dll.mc_log_ops(script.encode(), out, len(out), state)
    x.check([k for k in range(n) if state.raw[k] == 1] == live, 'the allocator gave other buffers than expected')
    lines = out.value.decode().splitlines()
    x.check(len(lines) == len(script), '%d lines were logged for %d operations: %r', len(lines), len(script), lines)
    lost = x.choose(1 + len(lines))
    # the pointers, from the log of the allocations and frees in order
    ev = []
    ptr = {}
    k = 0
    for i, c in enumerate(script):
        if c in 'sSlL':
            p = lines[i].split()[-1]
            ev.append(('alloc', p, state.raw[k] != 2))
            ptr[k] = p
            k += 1
        elif c == 'n':
            ev.append(('other', None, True))
        else:
            x.check(ptr[int(c)] in lines[i], 'the log of a free does not name the buffer: %r', lines[i])
            ev.append(('free', ptr[int(c)], True))
    if lost:
        x.op('line %d is missing' % lost)
        del lines[lost - 1], ev[lost - 1]
    newline = not x.choose(2)
    judge(x, lines, ev, newline)
    x.state(script, lost)


def judge(x, lines, ev, newline=True):
    again, free, held, last = [], [], {}, {}
    for i, (what, p, ok) in enumerate(ev):
        if what == 'alloc' and ok:
            if p in held:
                again.append((i + 1, p, held[p]))
            held[p] = last[p] = i + 1
        elif what == 'free':
            if p in held:
                del held[p]
            else:
                free.append((i + 1, p, last.get(p)))
    check_log(x, lines, again, free, sorted(held.items()), newline)


def log_lines(x):
    """any sequence of lines in the format of the library, with pointers that are prefixes of each other"""
    ps = ['0x55d0c0', '0x55d0c', '0x155d0c0', '0000000000A1B2C3', '0x1']
    ps = ps[:x.tier(3, 4)]
    lines, ev = [], []
    for i in range(x.tier(4, 5)):
        c = x.choose(3 * len(ps) + 4)
        if c == 3 * len(ps) + 3:
            break
        if c >= 3 * len(ps):
            c -= 3 * len(ps)
            lines.append(['D buffer.c:177: embc_buffer_alloc_unsafe %s' % '(nil)', 'D framer.c:12: embc_framer_send buffer copy 0x55d0c0', ''][c])
            ev.append(('other', None, True))
            continue
        p = ps[c % len(ps)]
        k = c // len(ps)
        lines.append(['D buffer.c:169: embc_buffer_alloc %s', 'D buffer.c:177: embc_buffer_alloc_unsafe %s', 'D buffer.c:184: embc_buffer_free_(0x55d0ff, %s)'][k] % p)
        ev.append((['alloc', 'alloc', 'free'][k], p, True))
    x.op('%d lines: %s' % (len(lines), ' '.join('%s %s' % e[:2] for e in ev)))
    judge(x, lines, ev)
    x.state(tuple(ev))


def log_long(x):
    """long logs: one buffer of many is lost at any place"""
    n = (1, 10, 1000, 70000)[x.choose(4)]
    bad = x.choose(3)
    lines, ev = [], []
    for i in range(n):
        p = '0x%x' % (0x1000 + (i % 97) * 64)
        lines += ['D buffer.c:169: embc_buffer_alloc %s' % p, 'D buffer.c:184: embc_buffer_free_(0x10, %s)' % p]
        ev += [('alloc', p, True), ('free', p, True)]
    if bad:
        del lines[n // 2 * 2 + bad - 1], ev[n // 2 * 2 + bad - 1]
    x.op('%d lines, %s missing' % (len(lines), ('nothing', 'an allocation', 'a free')[bad]))
    judge(x, lines, ev)


# ------------------------------------------------------------------ C44: the qualification program
class Log:
    def __init__(self):
        self.stats, self.text = [], []

    def emit(self, r):
        t = r.getMessage()
        m = re.search(r'in (\d+) frames.*tx=(\d+).*missing=(\d+).*timeout=(\d+)', t)
        if m:
            self.stats.append(tuple(int(v) for v in m.groups()))
        else:
            self.text.append(t)


LOG = Log()
REQ, RSP = 4, 5       # port 0 commands


class World:
    """the serial port of the program, and the device at the other end"""

    def __init__(self, x, count):
        self.x, self.count = x, count
        self.a2b, self.b2a = [], []
        self.pings, self.sent_rsp, self.nrsp = [], [], 0
        self.idle, self.quit, self.opened = 0, None, False
        self.fault = lambda d, way: d
        self.extra = lambda: None
        self.b = bindings.fr.Framer()
        self.b.hal_tx = self.from_b
        nothing = lambda *a: None
        for p in range(16):
            self.b.register_port(p, nothing, nothing)

    def write(self, d):
        d = bytes(d)
        self.x.check(self.opened, 'written to a port that is not open')
        if len(d) > 12 and not d[1] & 0x80 and d[2] == 0 and d[5] == self.req:
            payload = d[8:-5]
            if payload not in [p[1] for p in self.pings]:
                k = len(self.pings)
                self.x.op('ping %d is sent' % k)
                self.x.check(self.count < 0 or k < self.count, 'more than %d pings were sent', self.count)
                self.x.check(d[3] == k & 0xff, 'ping %d has message id %d', k, d[3])
                w = b''.join(v.to_bytes(4, 'little') for v in bindings.WORDS[60 * k:60 * k + 60])
                self.x.check(payload == w, 'the payload of ping %d is not the pattern', k)
                self.on_ping(k)
                self.pings.append((d[3], payload))
        self.a2b.append(d)
        return len(d)

    def write_old(self, d):
        self.a2b.append(bytes(d))

    def on_ping(self, k):
        pass

    def from_b(self, d):
        self.b2a.append(bytes(d))

    def read(self, *a):
        self.x.check(self.opened, 'read from a port that is not open')
        if self.error:
            raise self.error
        self.extra()
        if self.a2b:
            self.idle = 0
            d = self.fault(self.a2b.pop(0), 0)
            if d:
                self.b.hal_rx(d)
            return b''
        if self.b2a:
            self.idle = 0
            d = self.b2a.pop(0)
            rsp = d if len(d) > 12 and not d[1] & 0x80 and d[2] == 0 and d[5] == self.rsp else None
            d = self.fault(d, 1)
            if rsp and d == rsp:
                self.nrsp += 1
                self.sent_rsp.append((rsp[3], rsp[8:-5]))
            return d or b''
        Clock.now += 0.05
        self.b.process()
        self.idle += 1
        if self.idle > self.patience:
            self.quit(2, None)
        return b''

    patience = 140
    error = None


def qualify(x, w, args):
    """runs the program in the world; returns (completed, tx errors, missing, timeouts) as reported"""
    LOG.stats.clear()
    LOG.text.clear()
    w.req, w.rsp = REQ, RSP

    class Serial:
        def __init__(self, port=None, baudrate=9600, timeout=None, **k):
            x.check(port is None, 'the port is opened too early')
            self.port = port
        def open(self):
            x.check(self.port == 'COM1', 'port %r', self.port)
            w.opened = True
        def close(self):
            w.opened = False
        def write(self, d):
            return w.write(d)
        def read(self, *a):
            return w.read(*a)
    m = types.ModuleType('serial')
    m.Serial = Serial
    sys.modules['serial'] = m
    old = signal.signal

    def handler(s, f):
        if s == signal.SIGINT:
            w.quit = f
    signal.signal = handler
    root = logging.getLogger()          # what the program shows on its terminal
    root.setLevel(logging.WARNING)
    root.handlers[:] = []
    emit = logging.StreamHandler.emit
    logging.StreamHandler.emit = lambda h, r: LOG.emit(r)
    try:
        rc, out = execute('framer_qual.py', ['--port', 'COM1'] + args)
    finally:
        signal.signal = old
        logging.StreamHandler.emit = emit
        root.handlers[:] = []
        del sys.modules['serial']
    x.check(rc == 0 and not w.opened, 'exit code %r', rc)
    x.check(not NOTES.errors, '%s', NOTES.errors[0] if NOTES.errors else '')
    if not LOG.stats:
        return None
    return (sum(s[0] for s in LOG.stats),) + LOG.stats[-1][1:]


def qual_faults(x):
    """losses and damage that the framer repairs: every ping completes"""
    live = bindings.begin()
    Clock.now = 1000.0
    n = (1, 4, 7)[x.choose(3)] if x.arg == 0 else (5, 300)[x.arg - 1]
    w = World(x, n)

    st = {'up': False}

    def fault(d, way):
        if not st['up']:            # the initial resync and its acknowledgement get through
            st['up'] = way == 1
            return d
        k = x.dev(4)
        if k:
            x.op('%s: %s' % (('to the device', 'from the device')[way], ('', 'lost', 'damaged', 'late')[k]))
        if k == 1:
            return b''
        if k == 2:
            return d[:-3] + bytes([d[-3] ^ 4]) + d[-2:]
        if k == 3:
            Clock.now += 0.3
        return d
    w.fault = fault

    def on_ping(k):
        if k >= 3:
            x.check(w.pings[k - 3] in w.sent_rsp, 'ping %d is sent although ping %d has no response', k, k - 3)
    w.on_ping = on_ping
    r = qualify(x, w, ['--ping', str(n)])
    x.check(len(w.pings) == n, '%d of %d pings were sent', len(w.pings), n)
    x.check(r == (n, 0, 0, 0), 'reported %r (completed, tx errors, missing, timeouts) for %d pings that were all answered', r, n)
    x.state(n, len(w.sent_rsp), round(Clock.now * 20))
    del w, fault, on_ping
    bindings.end(x, live)


def qual_again(x):
    """the device has been in use before: the program resynchronises it"""
    live = bindings.begin()
    Clock.now = 1000.0
    n = 6
    w = World(x, n)
    old = bindings.fr.Framer()
    nothing = lambda *a: None
    for p in range(16):
        old.register_port(p, nothing, nothing)
    there, back = x.choose(17), x.choose(17)
    x.op('%d messages to the device, %d from it before' % (there, back))
    old.hal_tx = w.write_old
    for k in range(max(there, back)):
        if k < there:
            old.send(3, k, 7, b'to')
        if k < back:
            w.b.send(3, k, 7, b'from')
        while w.a2b or w.b2a:
            if w.a2b:
                w.b.hal_rx(w.a2b.pop(0))
            if w.b2a:
                old.hal_rx(w.b2a.pop(0))
    r = qualify(x, w, ['--ping', str(n)])
    x.check(len(w.pings) == n, '%d of %d pings were sent', len(w.pings), n)
    x.check(r == (n, 0, 0, 0), 'reported %r (completed, tx errors, missing, timeouts) for %d pings that were all answered', r, n)
    x.state(there, back)
    del w, old
    bindings.end(x, live)


def qual_forged(x):
    """responses that no ping asked for, or out of order"""
    live = bindings.begin()
    Clock.now = 1000.0
    n = 5
    w = World(x, n)

    def extra():
        acts = []
        known = w.pings[-4:]
        for p in known:
            acts.append(('the response of id %d once more' % p[0], p))
        if known:
            acts.append(('the id of a ping with other contents', (known[-1][0], known[0][1][:-1] + b'x')))
            acts.append(('the contents of a ping with another id', (known[-1][0] + 100, known[-1][1])))
        acts.append(('a stray response', (77, b'zz')))
        if not w.a2b and not w.b2a:
            return
        k = x.dev(1 + len(acts))
        if k:
            x.op(acts[k - 1][0])
            w.b.send(0, acts[k - 1][1][0], w.rsp, acts[k - 1][1][1])
    w.extra = extra
    r = qualify(x, w, ['--ping', str(n)])
    x.check(len(w.pings) == n, '%d of %d pings were sent', len(w.pings), n)
    out, missing, completed = list(w.pings), 0, 0
    for p in w.sent_rsp:
        if p in out:
            i = out.index(p)
            missing += i
            completed += 1
            del out[:i + 1]
    x.check(not out, 'harness: %r', out)
    x.check(r == (completed, 0, missing, 0), 'reported %r (completed, tx errors, missing, timeouts), expected %r', r, (completed, 0, missing, 0))
    x.state(tuple(p[0] for p in w.sent_rsp), missing)
    del w, extra
    bindings.end(x, live)


def qual_outage(x):
    """the link dies at any moment, for a while or for good, in any direction: each ping is counted once"""
    live = bindings.begin()
    Clock.now = 1000.0
    n = (3, 4, 8)[x.choose(3)]
    ways = x.choose(3)
    start = x.choose(x.tier(16, 40))
    dur = (0.6, 2.0, 4.0, 4.6, 5.5, 9.0, 1e9)[x.choose(7)]
    w = World(x, n)
    w.patience = 400
    st = {'n': 0, 'until': None, 'up': False}

    def fault(d, way):
        if not st['up']:
            st['up'] = way == 1
            return d
        st['n'] += 1
        if st['n'] == start + 1:
            x.op('outage of %g s, ways %d' % (dur, ways))
            st['until'] = Clock.now + dur
        if st['until'] is not None and Clock.now < st['until'] and way != ways:
            return b''
        return d
    w.fault = fault
    r = qualify(x, w, ['--ping', str(n)])
    x.check(len(w.pings) <= n, '%d pings were sent', len(w.pings))
    x.check(r is not None and sum(r) == n, 'reported %r (completed, tx errors, missing, timeouts) for %d pings', r, n)
    if dur <= 2:
        x.check(r == (n, 0, 0, 0), 'reported %r (completed, tx errors, missing, timeouts) for %d pings although the framers bridge the outage', r, n)
    x.check(r[0] <= len([p for p in w.pings if p in w.sent_rsp]), 'reported %d completed pings, %d were answered', r[0], len(w.sent_rsp))
    x.state(n, ways, start, r)
    del w, fault
    bindings.end(x, live)


def qual_mute(x):
    """the device does not answer some of the pings, or late"""
    live = bindings.begin()
    Clock.now = 1000.0
    n = x.tier(5, 7)
    mute = [k for k in range(n) if x.choose(2)]
    until = (1e9, 3.0, 1.0)[x.choose(3)] if mute else 0
    stop = x.choose(2)
    w = World(x, n)
    x.op('no response to %r for %g s%s' % (mute, until, ', looked at after 4.3 s' if stop else ''))
    w.patience = 80 if stop else 400
    at = {}

    def on_ping(k):
        at[k] = Clock.now
    w.on_ping = on_ping

    def fault(d, way):
        if way == 1 and len(d) > 12 and not d[1] & 0x80 and d[2] == 0 and d[5] == w.rsp:
            k = [p[1] for p in w.pings].index(d[8:-5])
            if k in mute and Clock.now < at[k] + until:
                return b''
        return d
    w.fault = fault
    read = w.read

    def timed(*a):
        d = read(*a)
        if stop and len(w.pings) == n and Clock.now > at[n - 1] + 4.3:
            w.quit(2, None)
        return d
    w.read = timed
    r = qualify(x, w, ['--ping', str(n)])
    x.check(r is not None, 'no totals')
    what = 'reported %r (completed, tx errors, missing, timeouts) for %d pings, %d without a response'
    old = len([k for k in at if at[k] <= Clock.now - 4.9])
    x.check(r[3] <= old, what + ', %d older than 5 s', r, n, len(mute), old)
    x.check(r[1] == 0, what, r, n, len(mute))
    if not stop:
        x.check(len(w.pings) == n, '%d of %d pings were sent', len(w.pings), n)
        x.check(sum(r) == n and r[0] >= n - len(mute), what, r, n, len(mute))
        if until == 1e9:
            x.check(r[0] == n - len(mute), what, r, n, len(mute))
            if mute == list(range(n - len(mute), n)):
                x.check(r[3] == len(mute), what, r, n, len(mute))
            elif len(mute) == 1:
                x.check(r[2] == 1, what, r, n, len(mute))
        elif mute == list(range(n - len(mute), n)) and len(mute) <= 3:
            x.check(r[0] == n, what + ' for %g s', r, n, len(mute), until)
    x.state(tuple(mute), until, stop, r, len(w.pings))
    del w, fault, on_ping, read, timed
    bindings.end(x, live)


def qual_silent(x):
    """without --ping: no pings are sent, stray responses and the peer's own messages do no harm"""
    live = bindings.begin()
    Clock.now = 1000.0
    w = World(x, 0)
    w.patience = 80
    todo = [x.choose(5) for i in range(2)]

    def extra():
        if w.idle == 20 and todo:
            k = todo.pop()
            x.op('the device: %d' % k)
            if k == 1:
                w.b.send(0, 5, w.rsp, b'zz')
            elif k == 2:
                w.b.send(3, 5, 77, b'zz')
            elif k == 3:
                w.b.send(0, 5, w.req, b'zz')
            elif k == 4:
                w.b.resync()
    w.extra = extra
    qualify(x, w, [])
    x.check(not w.pings, 'pings were sent')
    x.state(tuple(todo))
    del w, extra
    bindings.end(x, live)


SCENARIOS = {
    'C43': [
        ('histories', log_history, 0, 0, 0),
        ('lines', log_lines, 0, 0, 0),
        ('long', log_long, 0, 0, 0),
    ],
    'C44': [
        ('faults', qual_faults, 2, 3, 0),
        ('many', qual_faults, 0, 0, 2),
        ('forged', qual_forged, 2, 3, 0),
        ('outage', qual_outage, 0, 0, 0),
        ('used before', qual_again, 0, 0, 0),
        ('mute', qual_mute, 0, 0, 0),
        ('no pings', qual_silent, 0, 0, 0),
    ],
}

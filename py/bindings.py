"""C41: the Python package over the shared library, built from /repo's working tree."""
import ctypes, gc, importlib, json, logging, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))


class Clock:
    now = 1000.0


def load(site):
    """imports the package with a clock of our own"""
    time.time = time.monotonic = time.perf_counter = lambda: Clock.now
    time.time_ns = time.monotonic_ns = time.perf_counter_ns = lambda: int(Clock.now * 1e9)
    time.sleep = lambda t: setattr(Clock, 'now', Clock.now + t)
    sys.path.insert(0, site)
    sys.dont_write_bytecode = True
    global embc, buf, fr, lib, blist, dll
    import embc
    buf = importlib.import_module('embc.memory.buffer')
    fr = importlib.import_module('embc.stream.framer')
    lib = importlib.import_module('embc.lib')
    blist = importlib.import_module('embc.collections.list')
    dll = ctypes.CDLL(os.path.join(site, 'embc', 'libembc.dll'))
    dll.mc_live.restype = ctypes.c_long
    logging.getLogger('embc').addHandler(NOTES)
    logging.getLogger('embc').propagate = False
    sys.unraisablehook = lambda u: NOTES.errors.append('%s in a callback: %s' % (type(u.exc_value).__name__, u.exc_value))


class Notes(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.text, self.errors = [], []

    def emit(self, r):
        if r.levelno >= logging.WARNING:
            self.text.append(r.getMessage())


NOTES = Notes()


def begin():
    NOTES.text.clear()
    NOTES.errors.clear()
    gc.freeze()
    return dll.mc_live()


def end(x, live):
    gc.collect()
    x.check(not NOTES.errors, '%s', NOTES.errors[0] if NOTES.errors else '')
    x.check(dll.mc_live() == live, '%d blocks of memory were not released', dll.mc_live() - live)


# ------------------------------------------------------------------ declarations
def modules():
    return [m for n, m in sorted(sys.modules.items()) if (n == 'embc' or n.startswith('embc.')) and m is not None]


def py_kind(t):
    if t is None:
        return ['void']
    if isinstance(t, type) and issubclass(t, ctypes._CFuncPtr):
        return ['fn', [py_kind(t._restype_)] + [py_kind(a) for a in t._argtypes_]]
    if t in (ctypes.c_void_p, ctypes.c_char_p) or issubclass(t, ctypes._Pointer):
        return ['ptr']
    if issubclass(t, ctypes.Structure):
        return ['struct', ctypes.sizeof(t), t.__name__]
    if issubclass(t, ctypes._SimpleCData):
        return ['int', ctypes.sizeof(t), t(-1).value == -1]
    return ['other', ctypes.sizeof(t)]


def agree(a, b, result):
    """does the ctypes kind a describe the C kind b"""
    if b[0] == 'fn' and a[0] == 'fn':
        return len(a[1]) == len(b[1]) and all(agree(p, q, i == 0) for i, (p, q) in enumerate(zip(a[1], b[1])))
    if {a[0], b[0]} == {'fn', 'ptr'}:
        return True
    if a[0] != b[0]:
        return False
    if a[0] == 'int':
        return a[1] == b[1] and (a[2] == b[2] or a[1] == 8 or not result)
    return a[0] != 'struct' or a[1] == b[1]


def declarations():
    structs, functions = {}, {}
    for m in modules():
        for v in vars(m).values():
            if isinstance(v, type) and issubclass(v, ctypes.Structure) and v is not ctypes.Structure:
                structs[v.__name__] = v
            elif isinstance(v, ctypes._CFuncPtr) and not isinstance(type(v), type(ctypes.CFUNCTYPE(None))) or type(v).__name__ == '_FuncPtr':
                if getattr(v, '__name__', ''):
                    functions[v.__name__] = v
    return structs, functions


def layout_run(x):
    structs, functions = declarations()
    x.check(len(structs) >= 6 and len(functions) >= 30, 'only %d structures and %d functions found', len(structs), len(functions))
    c = x.arg
    for n, s in sorted(structs.items()):
        x.op('structure ' + n)
        x.check(isinstance(c['structs'][n], list), 'structure %s is not in the library: %s', n, c['structs'][n])
        size, fields = c['structs'][n]
        x.check(ctypes.sizeof(s) == size, 'structure %s has %d bytes, in C %d', n, ctypes.sizeof(s), size)
        x.check(len(fields) == len(s._fields_), 'structure %s has %d fields, in C %d', n, len(s._fields_), len(fields))
        for (pn, pt), (cn, off, sz, k) in zip(s._fields_, fields):
            d = getattr(s, pn)
            x.check(d.offset == off and d.size == sz, 'field %s.%s is at %d with %d bytes, in C %d and %d', n, pn, d.offset, d.size, off, sz)
            x.check(agree(py_kind(pt), k, False), 'field %s.%s has another type: %s, in C %s', n, pn, py_kind(pt), k)
        x.state(n)
    for n, f in sorted(functions.items()):
        x.op('function ' + n)
        x.check(isinstance(c['functions'][n], list), 'function %s is not in the library: %s', n, c['functions'][n])
        p = c['functions'][n]
        a = f.argtypes
        x.check(a is not None and len(a) == len(p) - 1, 'function %s takes %s arguments, in C %d', n, None if a is None else len(a), len(p) - 1)
        for i, (t, k) in enumerate(zip(a, p[1:])):
            x.check(agree(py_kind(t), k, False), 'argument %d of %s is %s, in C %s', i, n, py_kind(t), k)
        x.check(agree(py_kind(f.restype), p[0], True), 'the result of %s is %s, in C %s', n, py_kind(f.restype), p[0])
        x.state(n)


def codes_run(x):
    ec = importlib.import_module('embc.ec')
    name = dll.embc_error_code_name
    name.restype = ctypes.c_char_p
    n = 0
    while name(n).decode() != name(100000).decode():
        c = name(n).decode()
        x.op('error code %d, %s' % (n, c))
        x.check(ec.name_to_num.get(c) == n and ec.num_to_name.get(n) == c and getattr(ec, c, None) == n, 'error code %s is %s in Python, %d in C', c, ec.name_to_num.get(c), n)
        n += 1
    x.check(len(ec.name_to_num) == n and len(ec.num_to_name) == n, '%d error codes in Python, %d in C', len(ec.name_to_num), n)


def list_run(x):
    live = begin()
    n = x.choose(3)
    items = [blist.new() for _ in range(n + 1)]
    addr = ctypes.addressof
    for i in items:
        x.op('new')
        x.check(i is not None, 'new returned nothing')
        x.check(addr(i.next.contents) == addr(i) and addr(i.prev.contents) == addr(i), 'a new list is not empty')
    if n:
        items[0].next = ctypes.pointer(items[1])
        items[0].prev = ctypes.pointer(items[1])
        blist.reset(items[0])
        x.check(addr(items[0].next.contents) == addr(items[0]) == addr(items[0].prev.contents), 'a list is not empty after reset')
    del items, i
    end(x, live)


# ------------------------------------------------------------------ buffers
VAL = {1: [0, 0xff, 0x5a], 2: [0x0102, 0xff80, 0], 4: [0x01020304, 0xfffefd80, 0], 8: [0x0102030405060708, 0xfffefdfcfbfaf980, 1 << 63]}


def buffer_run(x):
    live = begin()
    sizes = (ctypes.c_size_t * 2)(1, 2)
    a = buf.initialize(sizes, 2)
    p = buf.alloc(a, 40)
    b = p[0]
    cap = b.capacity
    x.check(cap >= 40 and b.length == 0 and b.cursor == 0, 'a new buffer is not empty')
    m, cur = bytearray(), 0
    big = x.choose(2)
    if big:
        data = bytes((i * 7 + 1) & 0xff for i in range(cap - 9))
        b.write(data)
        m[0:] = data
        cur = len(m)

    def put(d):
        nonlocal cur
        m[cur:cur + len(d)] = d
        cur += len(d)

    for _ in range(x.tier(3, 4)):
        k = x.choose(11)
        room, rest = cap - cur, len(m) - cur
        if k == 0:
            d = (b'', b'\x00\xaa\x00', b'hello wo')[x.choose(3)]
            if len(d) > room:
                x.prune()
            x.op('write %r' % d)
            b.write(d)
            put(d)
        elif k == 1:
            w = 1 << x.choose(4)
            end_ = 'le' if w == 1 or x.choose(2) else 'be'
            v = VAL[w][x.choose(3)]
            if w > room:
                x.prune()
            x.op('write u%d_%s 0x%x' % (8 * w, end_, v))
            getattr(buf, 'write_u8' if w == 1 else 'write_u%d_%s' % (8 * w, end_))(p, v)
            put(v.to_bytes(w, 'little' if end_ == 'le' else 'big'))
        elif k == 2:
            w = 1 << x.choose(4)
            end_ = 'le' if w == 1 or x.choose(2) else 'be'
            if w > rest:
                x.prune()
            x.op('read u%d_%s' % (8 * w, end_))
            v = getattr(buf, 'read_u8' if w == 1 else 'read_u%d_%s' % (8 * w, end_))(p)
            want = int.from_bytes(m[cur:cur + w], 'little' if end_ == 'le' else 'big')
            x.check(v == want, 'read 0x%x, not 0x%x', v, want)
            cur += w
        elif k == 3:
            i = (0, len(m) // 2, len(m))[x.choose(3)]
            x.op('cursor %d' % i)
            b.cursor_set(i)
            cur = i
            for i in (-1, len(m) + 1):
                try:
                    b.cursor_set(i)
                    x.check(False, 'cursor_set(%d) is accepted with %d bytes', i, len(m))
                except AssertionError:
                    pass
        elif k == 4:
            s, e = ((0, 1), (len(m) // 2, len(m)), (1, 1))[x.choose(3)]
            if not s <= e <= len(m) or s >= len(m):
                x.prune()
            x.op('erase %d to %d' % (s, e))
            b.erase(s, e)
            cur = cur - (e - s) if cur >= e else s if cur >= s else cur
            del m[s:e]
        elif k == 5:
            x.op('reset')
            b.reset()
            m, cur = bytearray(), 0
        elif k == 6:
            d = (b'', b'text')[x.choose(2)]
            if len(d) > room:
                x.prune()
            x.op('write_str %r' % d)
            buf.write_str(p, d)
            put(d)
        elif k == 7:
            d = (b'abc', b'abcdefghi', b'abcdefghij', b'x' * 300)[x.choose(4)]
            x.op('write_str_truncate %d' % len(d))
            r = buf.write_str_truncate(p, d)
            x.check(bool(r) == (len(d) <= room), 'write_str_truncate of %d into %d returned %s', len(d), room, r)
            put(d[:room])
        elif k == 8:
            n = min(rest, 1 + x.choose(3))
            x.op('read %d' % n)
            t = ctypes.create_string_buffer(b'\xcc' * 8, 8)
            buf.read(p, t, n)
            x.check(t.raw == bytes(m[cur:cur + n]) + b'\xcc' * (8 - n), 'read other bytes')
            cur += n
        elif k == 9:
            n = min(rest, 2)
            x.op('copy %d' % n)
            q = buf.alloc(a, 33)
            buf.copy(q, p, n)
            x.check(q[0].read_all() == bytes(m[cur:cur + n]), 'copied other bytes')
            q[0].free()
        else:
            break
        x.check(b.cursor == cur and b.length == len(m), 'cursor %d and length %d, expected %d and %d', b.cursor, b.length, cur, len(m))
        x.check(b.read_all() == bytes(m), 'the contents differ')
        x.check(b.read_remaining() == bytes(m[cur:]), 'the remaining contents differ')
        rest = getattr(b, 'read_reamaining', len(m) - cur)  # its name
        x.check(rest == len(m) - cur, 'read_reamaining is %s, not %d', rest, len(m) - cur)
        x.check(b.write_remaining == cap - cur, 'write_remaining is %d, not %d', b.write_remaining, cap - cur)
    x.state(len(m), cur)
    b.free()
    buf.finalize(a)
    end(x, live)


def allocator_run(x):
    live = begin()
    counts = [(2, 0, 1), (1, 2, 0), (0, 1, 2)][x.choose(3)]
    a = buf.initialize((ctypes.c_size_t * 3)(*counts), 3)
    held = []
    for _ in range(x.tier(5, 7)):
        k = x.choose(6)
        if k < 4:
            size = (1, 32, 33, 128)[k]
            used = [h for h in held]
            cls = 0 if size <= 32 else 1 if size <= 64 else 2
            room = [counts[i] - sum(1 for h in used if h[2] == i) for i in range(3)]
            if not room[cls]:
                x.prune()
            x.op('alloc %d' % size)
            p = buf.alloc(a, size)
            x.check(bool(p), 'no buffer although one is free')
            x.check(p[0].capacity >= size and p[0].length == 0, 'capacity %d for %d', p[0].capacity, size)
            cap = p[0].capacity
            c = 0 if cap <= 32 else 1 if cap <= 64 else 2
            d = bytes([len(held) + 1]) * cap
            p[0].write(d)
            held.append((p, d, c))
        else:
            i = k - 4
            if i >= len(held):
                x.prune()
            i = -1 if i else 0
            x.op('free %d' % i)
            held.pop(i)[0][0].free()
        for p, d, c in held:
            x.check(p[0].read_all() == d, 'a buffer overlaps another one')
    x.state(tuple(sorted(h[2] for h in held)))
    for p, d, c in held:
        buf.free(p)
    del held
    buf.finalize(a)
    end(x, live)


# ------------------------------------------------------------------ pattern
def pattern_words(n):
    out, sh, c = [], 0, 0
    for i in range(n):
        if i & 1:
            out.append(((~c & 0xffff) << 16) | c)
            c = (c + 1) & 0xffff
        else:
            out.append(sh)
            sh = 1 if sh == 0 else (sh << 1) & 0xffffffff
    return out


WORDS = pattern_words(400000)


def pattern_run(x):
    tx, rx = embc.PatternTx(), embc.PatternRx()
    pos = 0
    long_ = x.choose(2)
    for _ in range(x.tier(2, 3) if long_ else x.tier(3, 4)):
        n = ((1, 2, 3, 67) if not long_ else (1, 128, 131073, 70000))[x.choose(4)]
        if x.choose(2):
            x.op('buffer of %d' % n)
            b = embc.allocate_pattern_buffer(n)
            x.check(len(b) == n, 'a buffer of %d words has %d', n, len(b))
            tx.next_buffer(b)
            got = list(b)
        elif n < 1000:
            x.op('%d words' % n)
            got = [tx.next_u32() for _ in range(n)]
        else:
            x.prune()
        if pos + n > len(WORDS):
            x.prune()
        x.check(got == WORDS[pos:pos + n], 'the words from %d are not the pattern', pos)
        pos += n
        how = x.choose(4)
        if how == 0 and n < 1000:
            for w in got:
                rx.next_u32(w)
        elif how == 1:
            rx.next_buffer(got)
        elif how == 2:
            rx.next_buffer(b''.join(w.to_bytes(4, 'little') for w in got))
        else:
            rx.next_buffer((ctypes.c_uint32 * n)(*got))
        x.check((rx.receive_count, rx.missing_count, rx.error_count, rx.resync_count) == (pos, 0, 0, 0), 'after %d words: %d received, %d missing, %d errors, %d resyncs',
                pos, rx.receive_count, rx.missing_count, rx.error_count, rx.resync_count)
        x.state(pos)


def pattern_loss_run(x):
    rx = embc.PatternRx()
    a, n = x.choose(70), (1, 2, 31, 65, 66, 5000, 131072, 200000)[x.choose(8)]
    x.op('%d words lost at %d' % (n, 100 + a))
    rx.next_buffer(WORDS[:100 + a])
    rx.next_buffer(WORDS[100 + a + n:][:150])
    x.check((rx.receive_count, rx.missing_count) == (250 + a, n), '%d words lost: %d missing, %d received', n, rx.missing_count, rx.receive_count)


# ------------------------------------------------------------------ framer
def link_run(x):
    """two framers joined by a link with faults; everything sent arrives once, in order"""
    live = begin()
    Clock.now = 1000.0
    one_way = x.arg == 1
    F = [fr.Framer(), fr.Framer()]
    wire = [[], []]
    got, done, sent = [[], []], [[], []], [[], []]
    st = {'chain': 0}
    for s in range(2):
        def tx(d, s=s):
            wire[s].append(d)
        F[s].hal_tx = tx
        for port in range(16):
            def rx(p, m, d, data, s=s, port=port):
                got[s].append((p, m, d, data))
                x.check(p == port, 'port %d reached the handler of port %d', p, port)

            def dn(p, m, d, status, s=s, port=port):
                done[s].append((p, m, d, status))
                x.check(p == port, 'port %d reached the completion handler of port %d', p, port)
            F[s].register_port(port, rx, dn)
    data = [b'', b'\x00\xaa\x00\xff', bytes(range(240)), b'hello', b'\xaa' * 9]
    todo = [4, 0 if one_way else 3]
    split = x.choose(2)
    for i in range(300):
        acts = []
        for s in range(2):
            if wire[s]:
                acts.append(('rx', s))
        for s in range(2):
            if len(sent[s]) < todo[s]:
                acts.append(('send', s))
        timers = [f.timeout for f in F]
        due = [s for s in range(2) if timers[s] is not None]
        if due:
            acts.append(('time', min(due, key=lambda s: timers[s])))
        if not acts:
            break
        faults = 3 if acts[0][0] == 'rx' else 0
        k = x.dev(len(acts) + faults)
        fault = 0
        if k >= len(acts):
            fault, k = k - len(acts) + 1, 0
        act, s = acts[k]
        if act == 'rx':
            d = wire[s].pop(0)
            x.op('%s receives %d bytes%s' % ('AB'[1 - s], len(d), ('', ', lost', ', damaged', ', first byte missing')[fault]))
            if fault == 1:
                continue
            if fault == 2:
                d = d[:-3] + bytes([d[-3] ^ 4]) + d[-2:]
            if fault == 3:
                d = d[1:]
            if split:
                F[1 - s].hal_rx(d[:5])
                F[1 - s].hal_rx(d[5:])
            else:
                F[1 - s].hal_rx(d)
        elif act == 'send':
            n = len(sent[s])
            m = ((1 + n * 7 + s) % 16 or 3, (250 + n) & 0xff, 0xff80 + n * 16 + s, data[(n + s) % 5])
            x.op('%s sends port %d id %d, %d bytes' % (('AB'[s],) + m[:2] + (len(m[3]),)))
            sent[s].append(m)
            F[s].send(*m)
        else:
            t = timers[s]
            Clock.now = max(Clock.now, 1000.0 + t) + 0.001
            x.op('%s processes at %.3f' % ('AB'[s], Clock.now - 1000))
            F[s].process()
            x.check(F[s].timeout is None or 1000.0 + F[s].timeout > Clock.now, 'process did not handle the timeout')
        for s in range(2):
            x.check(got[1 - s] == sent[s][:len(got[1 - s])], 'delivered %r', got[1 - s][-1:])
            x.check(done[s] == [m[:3] + (0,) for m in sent[s][:len(done[s])]], 'completed %r', done[s][-1:])
        x.check(not NOTES.errors, '%s', NOTES.errors[0] if NOTES.errors else '')
    for s in range(2):
        x.check(got[1 - s] == sent[s] and len(sent[s]) == todo[s], '%d of %d messages of %s were delivered', len(got[1 - s]), len(sent[s]), 'AB'[s])
        x.check(len(done[s]) == len(sent[s]), '%d of %d sends were completed', len(done[s]), len(sent[s]))
        x.check(F[s].timeout is None, 'a timer is pending although nothing is outstanding')
        t, r = F[s].status, F[1 - s].status
        x.check(t.tx_count == len(sent[s]) and t.version == 0, 'tx_count %d after %d sends', t.tx_count, len(sent[s]))
        x.check(r.rx_count >= r.rx_data_count + r.rx_ack_count and r.rx_data_count == len(sent[s]), 'receive counters %s', r)
        x.state(s, t.tx_count, t.tx_retransmit_count, r.rx_count, r.rx_mic_error)
    x.check(not NOTES.text or all('timer_id' not in t for t in NOTES.text), '%s', NOTES.text[:1])
    del F, tx, rx, dn
    end(x, live)


def framer_misc_run(x):
    """silence, unregistered ports, ping and status, resync"""
    live = begin()
    Clock.now = 5000.0 + x.choose(2) * 7.25
    f = fr.Framer()
    out, got, done = [], [], []
    f.hal_tx = out.append
    rx, dn = (lambda *a: got.append(a)), (lambda *a: done.append(a))
    kind = x.choose(5)
    if kind == 0:
        n = 1 + x.choose(3)
        f.register_port(3, rx, dn)
        for i in range(n):
            f.send(3, i, 70 + i, b'abc')
        for i in range(fr.MAX_RETRIES + 1):
            x.op('silence %d' % i)
            x.check(not done and len(out) == n, 'after %d timeouts: %d transmissions, %d completions', i, len(out), len(done))
            out.clear()
            Clock.now += 0.2
            f.process()
            x.check(not out, 'retransmission before the timeout')
            Clock.now += 0.051
            f.process()
        x.check(done == [(3, i, 70 + i, embc.ec.TIMED_OUT) for i in range(n)] and not out and f.timeout is None, 'completions %r', done)
        x.check(f.status.tx_retransmit_count == n * fr.MAX_RETRIES, '%d retransmissions counted', f.status.tx_retransmit_count)
    elif kind == 1:
        g = fr.Framer()
        back = []
        g.hal_tx = back.append
        which = x.choose(3)
        if which:
            g.register_port(5, rx if which == 1 else None, None)
        f.send(5, 1, 2, b'zz')
        x.op('to a port with%s handler' % ('' if which == 1 else 'out'))
        g.hal_rx(out.pop())
        Clock.now += 0.81
        g.process()
        x.check(len(got) == (which == 1), 'handler called %d times', len(got))
        f.hal_rx(back.pop())
        x.check(f.timeout is None, 'not acknowledged')
        del g
    elif kind == 2:
        g = fr.Framer()
        back = []
        g.hal_tx = back.append
        f.register_port(0, rx, None)
        what = x.choose(2)
        x.op(('ping', 'status request')[what])
        f.send(0, 77, (fr.Port0.PING_REQ, fr.Port0.STATUS_REQ)[what], b'12\x00345')
        for _ in range(10):
            if out:
                g.hal_rx(out.pop(0))
            if back:
                f.hal_rx(back.pop(0))
            if not out and not back:
                Clock.now += 0.81
                g.process()
                if f.timeout is not None and not back:
                    f.process()
        x.check(len(got) == 1 and got[0][:3] == (0, 77, (fr.Port0.PING_RSP, fr.Port0.STATUS_RSP)[what]), 'response %r', got)
        if what == 0:
            x.check(got[0][3] == b'12\x00345', 'ping response %r', got[0][3])
        else:
            x.check(len(got[0][3]) == ctypes.sizeof(fr.embc_framer_status_s), 'status response of %d bytes', len(got[0][3]))
            s = fr.embc_framer_status_s.from_buffer_copy(got[0][3])
            x.check((s.version, s.rx_count, s.rx_data_count, s.rx_ack_count) == (0, 1, 1, 0), 'status response %s', s)
        del g
    elif kind == 3:
        n = x.choose(6)
        f.register_port(2, rx, dn)
        for i in range(n):
            f.send(2, i, 9, b'q')
        x.op('resync with %d outstanding' % n)
        f.resync()
        x.check([d for d in done if d[0] == 2] == [(2, i, 9, embc.ec.ABORTED) for i in range(n)], 'completions %r', done)
        x.check(any(len(o) >= 13 and o[2] == 0 and o[5] == fr.Port0.RESYNC for o in out), 'no resync frame was sent')
    else:
        x.op('process without a timer')
        f.process()
        x.check(f.timeout is None and not out, 'something happens without a timer')
        f.send(1, 1, 1, b'a')
        x.check(abs(f.timeout - (f.current_time + 0.25)) < 0.01, 'timeout at %s', f.timeout)
    x.state(kind, len(out), len(done))
    del f
    end(x, live)


def sizes_run(x):
    """payloads of every size"""
    live = begin()
    Clock.now = 1000.0
    f, g = fr.Framer(), fr.Framer()
    out, got = [], []
    f.hal_tx, g.hal_tx = out.append, f.hal_rx
    g.register_port(7, lambda *a: got.append(a), None)
    f.resync()
    g.hal_rx(out.pop())
    base = 4 * x.choose(80)
    fill = x.choose(4)
    for n in range(base, base + 4):
        d = bytes([(0xaa, 0, 0xff, i & 0xff)[fill] for i in range(n)])
        x.op('%d bytes of kind %d' % (n, fill))
        refused = False
        try:
            f.send(7, n & 0xff, n, d)
        except Exception:
            refused = True
        x.check(refused == (n > 240), 'a payload of %d bytes was %s', n, 'refused' if refused else 'accepted')
        x.check(len(out) == (not refused), '%d frames were sent', len(out))
        if not refused:
            w = out.pop()
            if fill & 1:
                for i in range(0, len(w), 100):
                    g.hal_rx(w[i:i + 100])
            else:
                g.hal_rx(w)
            x.check(got == [(7, n & 0xff, n, d)], 'received %r', got)
            got.clear()
    x.state(base, fill)
    del f, g
    end(x, live)


def hooks_run(x):
    line, msg = (1, 70000, 2**31 - 1)[x.choose(3)], (b'', b'some text', b'\xc3\xa9')[x.choose(3)]
    begin()
    x.op('fatal, line %d' % line)
    dll.embc_fatal(b'file.c', line, msg)
    x.check(len(NOTES.text) == 1 and 'file.c' in NOTES.text[0] and str(line) in NOTES.text[0], 'log of a fatal error: %r', NOTES.text)
    x.check(len(NOTES.errors) == 1, 'a fatal error did not raise')
    NOTES.errors.clear()
    n = (0, 1, 1000, 100000)[x.choose(4)]
    live = dll.mc_live()
    p = lib.alloc(n)
    x.op('alloc %d' % n)
    x.check(p and ctypes.string_at(p, n) == bytes(n), 'alloc returned memory that is not clear')
    x.check(dll.mc_live() == live + 1, 'alloc took %d blocks', dll.mc_live() - live)
    lib.free(p)
    lib.free(None)
    x.check(dll.mc_live() == live, 'free kept a block')


# name, run, deviations quick and thorough, arg
SCENARIOS = [
    ('declarations', layout_run, 0, 0, 'layout'),
    ('error codes', codes_run, 0, 0, 0),
    ('lists', list_run, 0, 0, 0),
    ('buffers', buffer_run, 0, 0, 0),
    ('allocator', allocator_run, 0, 0, 0),
    ('pattern', pattern_run, 0, 0, 0),
    ('pattern losses', pattern_loss_run, 0, 0, 0),
    ('link', link_run, 2, 3, 0),
    ('link, one way', link_run, 3, 4, 1),
    ('framer', framer_misc_run, 0, 0, 0),
    ('payload sizes', sizes_run, 0, 0, 0),
    ('hooks', hooks_run, 0, 0, 0),
]


def layout(so, work):
    structs, functions = declarations()
    req, out = os.path.join(work, 'req.json'), os.path.join(work, 'layout.json')
    with open(req, 'w') as f:
        json.dump({'structs': sorted(structs), 'functions': sorted(functions)}, f)
    r = subprocess.run(['gdb', '-nx', '-batch', '-x', os.path.join(HERE, 'gdb_layout.py'), so], env=dict(os.environ, LAYOUT_REQ=req, LAYOUT_OUT=out, HOME=work),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if r.returncode or not os.path.exists(out):
        raise RuntimeError('gdb: ' + r.stdout.decode()[-500:])
    return json.load(open(out))

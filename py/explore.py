"""Stateless exploration in Python: the same method as mc/mc.c for code that is reached through Python.

A scenario is a function run(x); it asks for every decision with x.choose(n) (free) or x.dev(n) (alternatives to 0
cost one deviation) and is executed again from scratch for every choice vector inside the bounds, in lexicographic
order.  The tree is split over forked workers by the first choices; a worker that dies or hangs is a violation."""
import mmap, os, signal, struct, sys, time, traceback
from time import monotonic, sleep      # the originals: bindings.load() replaces them


class Violation(Exception):
    pass


class Prune(Exception):
    pass


class Skip(Exception):
    pass


class X:
    SPLIT = 3

    def __init__(self, dev_bound, thorough, arg, worker, workers, mem):
        self.dev_bound, self.thorough, self.arg = dev_bound, thorough, arg
        self.worker, self.workers, self.mem = worker, workers, mem
        self.vec, self.lim = [], []
        self.executions = self.transitions = self.pruned = self.max_choices = 0
        self.states = set()
        self.trace = None

    def begin(self):
        self.pos = 0
        self.devs = 0
        self.log = [] if self.trace is None else self.trace

    def _next(self, n, cost):
        if n <= 1:
            return 0
        if self.pos < len(self.vec):
            c = self.vec[self.pos]
            if self.lim[self.pos] == -1:
                self.lim[self.pos] = n
            elif self.lim[self.pos] != n:
                raise RuntimeError('not deterministic: %d alternatives, then %d' % (self.lim[self.pos], n))
        else:
            c = 0
            self.vec.append(0)
            self.lim.append(n)
            self.publish()
        self.pos += 1
        if cost and c:
            self.devs += 1
        if self.pos == self.SPLIT and self.workers > 1 and self.bucket() != self.worker:
            raise Skip()
        return c

    def bucket(self):
        h = 0
        for v in self.vec[:self.SPLIT]:
            h = (h * 1000003 + v * 7919 + 17) & 0xffffffff
        return (h ^ (h >> 13)) % self.workers

    def publish(self):
        m = self.mem
        if m is not None:
            k = min(len(self.vec), 1000)
            m[8:8 + 2 * k + 4] = struct.pack('<I%dH' % k, k, *self.vec[:k])

    def beat(self):
        if self.mem is not None:
            self.mem[0:8] = struct.pack('<Q', self.executions * 1000003 + self.transitions)

    def choose(self, n):
        return self._next(n, False)

    def dev(self, n):
        return self._next(n if self.devs < self.dev_bound else 1, True)

    def tier(self, q, t):
        return t if self.thorough else q

    def op(self, text):
        self.transitions += 1
        self.log.append(text)
        if self.trace is None and not self.transitions & 63:
            self.beat()

    def state(self, *key):
        self.states.add(hash(key))

    def check(self, ok, text, *args):
        if not ok:
            raise Violation(text % args if args else text)

    def prune(self):
        raise Prune()

    def advance(self):
        """the next choice vector; False when done"""
        self.max_choices = max(self.max_choices, len(self.vec))
        while self.vec:
            if self.vec[-1] + 1 < self.lim[-1]:
                self.vec[-1] += 1
                # deviations are re-counted on execution
                return True
            self.vec.pop()
            self.lim.pop()
        return False


def one(x, run):
    """executes one choice vector; returns None or the message of a violation"""
    x.begin()
    try:
        run(x)
        if x.pos < x.SPLIT and x.workers > 1 and x.bucket() != x.worker:
            return None
        x.executions += 1
    except Skip:
        del x.vec[x.pos:], x.lim[x.pos:]
    except Prune:
        x.pruned += 1
        del x.vec[x.pos:], x.lim[x.pos:]
    except Violation as e:
        return str(e)
    except RuntimeError:
        raise
    except Exception as e:
        return 'unexpected %s: %s (%s)' % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip()[:120])
    del x.vec[x.pos:], x.lim[x.pos:]
    return None


def work(x, run, cap, wfd):
    import json
    t0 = monotonic()
    out = {'complete': True, 'violation': None, 'samples': []}
    while True:
        x.publish()
        x.beat()
        n0 = x.executions
        msg = one(x, run)
        if msg is not None:
            out['violation'] = msg
            out['vec'] = list(x.vec[:x.pos])
            break
        if x.executions > n0 and x.executions in (1, 40) and not out['samples']:
            out['samples'].append(x.log[:40])
        if not x.advance():
            break
        if monotonic() - t0 > cap:
            out['complete'] = False
            break
    out.update(executions=x.executions, transitions=x.transitions, pruned=x.pruned, max_choices=x.max_choices, states=list(x.states))
    os.write(wfd, json.dumps(out).encode())
    os.close(wfd)
    os._exit(0)


def explore(run, dev_bound, thorough, arg, workers, cap, hang=30):
    """runs the scenario; returns a result dictionary with 'violation' and 'vec' if one was found"""
    import json, threading
    procs = []
    for w in range(workers):
        mem = mmap.mmap(-1, 4096)
        r, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)        # the library prints warnings
            try:
                work(X(dev_bound, thorough, arg, w, workers, mem), run, cap, wfd)
            except BaseException:
                traceback.print_exc()
                os._exit(3)
        os.close(wfd)
        p = {'pid': pid, 'r': r, 'mem': mem, 'data': b'', 'hung': False}

        def drain(p=p):
            while True:
                b = os.read(p['r'], 65536)
                if not b:
                    break
                p['data'] += b
        p['th'] = threading.Thread(target=drain)
        p['th'].start()
        procs.append(p)
    total = {'executions': 0, 'transitions': 0, 'pruned': 0, 'max_choices': 0, 'complete': True, 'violation': None, 'samples': []}
    states = set()
    last = {p['pid']: (b'', monotonic()) for p in procs}
    live = list(procs)
    while live:
        sleep(0.02)
        for p in list(live):
            b = p['mem'][0:8]
            if b != last[p['pid']][0]:
                last[p['pid']] = (b, monotonic())
            elif monotonic() - last[p['pid']][1] > hang and p['th'].is_alive():
                p['hung'] = True
                os.kill(p['pid'], signal.SIGKILL)
            pid, st = os.waitpid(p['pid'], os.WNOHANG)
            if not pid:
                continue
            live.remove(p)
            p['th'].join()
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and p['data']:
                o = json.loads(p['data'])
                for k in ('executions', 'transitions', 'pruned'):
                    total[k] += o[k]
                total['max_choices'] = max(total['max_choices'], o['max_choices'])
                total['complete'] &= o['complete']
                states.update(o['states'])
                total['samples'] += o['samples']
                if o['violation'] and (total['violation'] is None or o['vec'] < total['vec']):
                    total['violation'], total['vec'] = o['violation'], o['vec']
            elif os.WIFEXITED(st):
                raise RuntimeError('worker failed with status %d' % os.WEXITSTATUS(st))
            else:
                k, = struct.unpack('<I', p['mem'][8:12])
                vec = list(struct.unpack('<%dH' % k, p['mem'][12:12 + 2 * k]))
                what = 'does not return' if p['hung'] else 'crashed with signal %d' % os.WTERMSIG(st)
                if total['violation'] is None:
                    total['violation'], total['vec'] = 'the library ' + what, vec
    total['states'] = states
    total['samples'] = total['samples'][:3]
    return total


def replay(run, vec, dev_bound, thorough, arg):
    """runs one vector alone in a fresh process; returns (message or None, trace)"""
    import json
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        signal.alarm(60)
        x = X(dev_bound, thorough, arg, 0, 1, None)
        x.vec, x.lim = list(vec), [-1] * len(vec)

        class Log(list):
            def append(self, t):
                os.write(w, (json.dumps(t) + '\n').encode())
        x.trace = Log()
        msg = one(x, run)
        os.write(w, (json.dumps([msg]) + '\n').encode())
        os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    _, st = os.waitpid(pid, 0)
    lines = [json.loads(t) for t in data.decode().splitlines()]
    msg = None
    if lines and isinstance(lines[-1], list):
        msg = lines.pop()[0]
    else:
        msg = 'the library died (status %d)' % st
    return msg, lines

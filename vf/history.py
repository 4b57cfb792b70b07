"""Monitor of hidden state: what a call gives must not depend on the calls before it.

A worker forks a pristine server before it makes its first library call.  Now and then a
call is made again with the same and with slightly different arguments (recombined with
those of an earlier call of the function, or one value changed), once in this process,
with its whole history, and once, last call first, in a fresh fork of the pristine server.
Both must give the same results, the same exceptions and the same images."""
import itertools
import os
import pickle
import random
import signal
import struct
import time
from array import array
from .core import Violation, quiet, short
from .monitor import ATOM, alike, spoil, twin

LIMIT = 60000       # bytes of arguments taken
NOT = ('save', 'load', 'file', 'elapsed', 'elasped', 'timer')


def run(fn, args, kw, mutates, seed, again=False):
    if again:
        # the results of a call before, and its arguments, are the caller's to overwrite
        a, k = pickle.loads(pickle.dumps((args, kw)))
        spoil([run(fn, a, k, mutates, seed), a], {})
    random.seed(seed)
    try:
        with quiet():
            r = fn(*args, **kw)
            if hasattr(r, '__next__'):
                r = list(itertools.islice(r, 4000))
    except Exception as e:
        r = ('raised', type(e).__name__)
    return r, [args[i] for i in mutates if i < len(args)]


def runall(tasks, order=1, again=False):
    """results of the tasks in their order, run first to last or last to first"""
    return [run(*pickle.loads(t), again) for t in tasks[::order]][::order]


class Server:
    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = os.fdopen(w1, 'wb'), os.fdopen(r2, 'rb')

    @staticmethod
    def serve(r, w):
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        f = os.fdopen(r, 'rb')
        while True:
            h = f.read(4)
            if len(h) < 4:
                return
            data = f.read(struct.unpack('<I', h)[0])
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(4)
                    ans = pickle.dumps(runall(pickle.loads(data), -1))
                    signal.alarm(0)
                    ans = struct.pack('<I', len(ans)) + ans
                    while ans:
                        ans = ans[os.write(w, ans):]
                    os._exit(0)
                except BaseException:
                    os._exit(1)
            if os.waitpid(pid, 0)[1] != 0:
                os.write(w, struct.pack('<I', 0))

    def ask(self, data):
        self.w.write(struct.pack('<I', len(data)) + data)
        self.w.flush()
        n = struct.unpack('<I', self.r.read(4))[0]
        return pickle.loads(self.r.read(n)) if n else None

    def close(self):
        self.w.close()
        self.r.close()
        os.waitpid(self.pid, 0)


def tweak(rng, v):
    t = type(v)
    if t is bool:
        return not v
    if t is int:
        return v + rng.choice((1, -1, 1, -1, 2, -2, 3, 8, 16))
    if t is float:
        return v + rng.choice((1, -1)) * 10 ** -rng.uniform(.3, 5) * max(1, abs(v))
    if t is complex:
        return v + rng.choice((1, -1, 1j, -1j)) * 10 ** -rng.uniform(.3, 5)
    if t is str and v and '/' not in v:
        i = rng.randrange(len(v))
        return v[:i] + rng.choice('aZ 0~') + v[i + 1:]
    if t in (list, tuple) and v:
        c = list(v)
        i, j = rng.randrange(len(c)), rng.randrange(len(c))
        k = rng.random()
        if k < .6:
            c[i] = tweak(rng, c[i])
        elif k < .9:
            c[i], c[j] = c[j], c[i]
        else:
            c.reverse()
        return t(c)
    if t is array and v:
        c = v[:]
        lo = 54 if len(c) > 58 and c[0] == 66 else 0
        i, j = rng.randrange(lo, len(c)), rng.randrange(lo, len(c))
        if rng.random() < .5 and c.typecode == 'B':
            c[i] ^= 1 << rng.randrange(8)
        else:
            c[i], c[j] = c[j], c[i]
        return c
    return v


def brief(o, n=300):
    def b(v):
        if type(v) is array and len(v) > 60:
            return f'<{len(v)} bytes {v[:54].tobytes().hex()}...{hash(v.tobytes()) & 0xffff:04x}>'
        return [b(x) for x in v] if type(v) in (list, tuple) and any(type(x) is array for x in v) else v
    return short(b(o), n)


def weight(o):
    t = type(o)
    if t in ATOM:
        return 8
    if t is array:
        return len(o)
    if t in (list, tuple):
        return sum(8 if type(x) in ATOM else weight(x) for x in o)
    return 50


class History:
    def __init__(self, ctx, rate, share, times=3):
        self.times = times
        self.ctx, self.rate, self.share = ctx, rate, share
        self.server = Server()
        self.pool, self.seen, self.done = {}, {}, {}
        self.t0 = time.time()
        self.spent = 0
        self.dirty = False
        self.force = False
        self.rng = random.Random(0)

    def case(self, key):
        self.rng.seed(key)
        self.force = False
        self.dirty = self.rng.random() < .5

    def before(self, fn, args, kw, mutates):
        """a copy of the arguments if this call is one to repeat"""
        # functions that are called seldom get their turn too
        seen = self.seen[fn] = self.seen.get(fn, 0) + 1
        if not self.force and (self.rng.random() >= self.rate * min(1, 6 / seen ** .5, 400 / seen, 400 / (1 + self.done.get(fn, 0))) or self.spent > self.share * (time.time() - self.t0) + 2):
            return None
        n = getattr(fn, '__name__', '').lower()
        if not getattr(fn, '__module__', '').startswith('pythonbmp') or any(s in n for s in NOT) or \
                any(type(a) is str and '/' in a for a in args) or kw and not all(type(a) in ATOM for a in kw.values()):
            return None
        if sum(map(weight, args)) > LIMIT:
            return None
        return twin(args, {})

    def after(self, fn, args, kw, mutates, took):
        t = time.time()
        try:
            self.compare(fn, args, kw, mutates, took)
        finally:
            self.spent += time.time() - t

    def variant(self, fn, args, only):
        rng = self.rng
        pool = self.pool.setdefault(fn, [])
        new = list(args)
        if only is not None and rng.random() < .8:
            new[only] = tweak(rng, new[only])
            return new
        k = rng.random()
        if k < .3 and pool:
            old = rng.choice(pool)
            if len(old) == len(new):
                for i in range(len(new)):
                    if rng.random() < .5:
                        new[i] = old[i]
        elif k < .9 and new:
            for _ in range(rng.choice((1, 1, 1, 2))):
                i = rng.randrange(len(new))
                new[i] = tweak(rng, new[i])
        return new

    def compare(self, fn, args, kw, mutates, took):
        rng = self.rng
        todo = [list(args)]
        only = rng.randrange(len(args)) if args and rng.random() < .5 else None
        # a fork costs some ms: calls that take far less come in larger numbers
        for _ in range(max(self.times, min(5 * self.times, int(.005 / (took + 1e-5))))):
            todo.append(self.variant(fn, todo[-1] if rng.random() < .3 else args, only))
        seed = rng.randrange(1 << 30)
        try:
            data = pickle.dumps([pickle.dumps((fn, a, kw, mutates, seed)) for a in todo])
        except Exception:
            return
        pool = self.pool[fn]
        if len(pool) < 4:
            pool.append(args)
        else:
            pool[rng.randrange(4)] = args
        want = self.server.ask(data)
        if want is None:
            self.ctx.count('no_answer_in_pristine_process')
            return
        state = random.getstate()
        got = runall(pickle.loads(data), again=rng.random() < .4)
        random.setstate(state)
        self.done[fn] = self.done.get(fn, 0) + len(todo)
        self.ctx.count('repeated_in_pristine_process', len(todo))
        self.ctx.count(f'repeated.{fn.__name__}', len(todo))
        for new, g, w in zip(todo, got, want):
            if not alike(g, w):
                a, b = (g[0], w[0]) if not alike(g[0], w[0]) else (g[1], w[1])
                raise Violation('history', f'{fn.__name__}{brief(new)} gives {brief(a, 150)} and, with another history, {brief(b, 150)}; '
                                f'called as {brief(args)} before')

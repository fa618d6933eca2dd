"""Process pools under our control: every task order is a choice."""
import itertools
import pickle


class Chooser(object):
    """Depth-first enumeration of all choice sequences (stateless search)."""

    def __init__(self):
        self.path = []
        self.pos = 0

    def choose(self, n):
        if self.pos == len(self.path):
            self.path.append([0, n])
        c = self.path[self.pos]
        assert c[1] == n, 'nondeterministic choice point'
        self.pos += 1
        return c[0]

    def next(self):
        """Advance to the next execution; False if all are done."""
        self.pos = 0
        while self.path:
            c = self.path[-1]
            c[0] += 1
            if c[0] < c[1]:
                return True
            self.path.pop()
        return False


class Res(object):
    def __init__(self, pool, thunk):
        self.pool, self.thunk, self.out = pool, thunk, None

    def run(self):
        if self.out is None:
            try:
                self.out = (True, self.thunk())
            except Exception as e:
                self.out = (False, e)

    def get(self, timeout=None):
        self.run()
        if not self.out[0]:
            raise self.out[1]
        return self.out[1]

    def wait(self, timeout=None):
        self.run()

    def ready(self):
        return self.out is not None

    def successful(self):
        return self.out[0]


class FakePool(object):
    """Behaves like multiprocessing.Pool: arguments and results are pickled,
    map() and friends consume their iterable at once and return results in
    task order.  Tasks run in any order, at submission or as late as
    possible; with several tasks in one message they share one pickle."""

    def __init__(self, chooser, nprocs=2):
        self.ch = chooser
        self._processes = nprocs
        self.tasks = 0

    def _many(self, fn, tasks, star=False):
        tasks = list(tasks)
        n = len(tasks)
        self.tasks += n
        perms = list(itertools.permutations(range(n))) if n <= 4 else [
            tuple(range(n)), tuple(range(n))[::-1], tuple(range(1, n)) + (0,)]
        perm = perms[self.ch.choose(len(perms))]
        late = self.ch.choose(2)
        together = n > 1 and self.ch.choose(2)
        if together:
            blob = pickle.dumps((fn, tasks))
        else:
            blobs = [pickle.dumps((fn, t)) for t in tasks]

        def thunk():
            out, errs = [None] * n, {}
            if together:
                f, ts = pickle.loads(blob)
            for i in perm:
                if not together:
                    f, t = pickle.loads(blobs[i])
                else:
                    t = ts[i]
                try:
                    out[i] = pickle.dumps(f(*t) if star else f(t))
                except Exception as e:
                    # the first error to arrive is reported
                    raise pickle.loads(pickle.dumps(e))
            return [pickle.loads(o) for o in out]
        r = Res(self, thunk)
        if not late:
            r.run()
        return r

    def map_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._many(fn, it)

    def map(self, fn, it, chunksize=None):
        return self._many(fn, it).get()

    def imap(self, fn, it, chunksize=1):
        return iter(self._many(fn, it).get())

    def imap_unordered(self, fn, it, chunksize=1):
        l = self._many(fn, it).get()
        perms = list(itertools.permutations(range(len(l)))) if len(l) <= 4 else [
            range(len(l)), list(range(len(l)))[::-1]]
        return iter([l[i] for i in perms[self.ch.choose(len(perms))]])

    def starmap(self, fn, it, chunksize=None):
        return self._many(fn, it, True).get()

    def starmap_async(self, fn, it, chunksize=None, callback=None, error_callback=None):
        return self._many(fn, it, True)

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        self.tasks += 1
        blob = pickle.dumps((fn, args, kwds))

        def thunk():
            f, a, k = pickle.loads(blob)
            try:
                return pickle.loads(pickle.dumps(f(*a, **k)))
            except Exception as e:
                raise pickle.loads(pickle.dumps(e))
        r = Res(self, thunk)
        if not self.ch.choose(2):
            r.run()
        return r

    def apply(self, fn, args=(), kwds={}):
        return self.apply_async(fn, args, kwds).get()

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

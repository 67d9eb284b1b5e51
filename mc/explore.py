"""Stateless, deviation-bounded exploration of the real code's random decisions.

A run of the implementation is deterministic once the answers of the process-wide
random generators are fixed.  `Chooser` owns these answers: every draw is a choice
point with a finite, ordered menu whose entry 0 is the default.  `explore` enumerates
every choice sequence with at most `bound` non-default answers (depth first, shortest
deviation first), replaying the prefix on fresh objects each time."""
import contextlib
import itertools
import random
import sys

import numpy as np


class Divergence(Exception):
    """A replayed prefix met a different menu: nondeterminism that is not owned."""


class Chooser:
    exact = False  # keep equal alternatives apart and follow their probability in `prob`
    prob = 1.0

    def likely(self, p):
        """The probability of the answer just given (None: not known)."""
        self.prob = None if p is None or self.prob is None else self.prob * p

    def __init__(self, prefix=(), menus=None):
        self.prefix = list(prefix)
        self.menus_expected = menus
        self.choices = []
        self.menus = []
        self.labels = []
        self.coins = []  # the answers to weighted yes/no draws

    def choose(self, n, label):
        if n <= 0:
            raise IndexError("Cannot choose from an empty sequence")
        if n == 1:
            return 0
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n or (self.menus_expected is not None and i < len(self.menus_expected)
                          and self.menus_expected[i] != n):
                raise Divergence(f"choice {i}: {c} of {n} ({label})")
        else:
            c = 0
        self.choices.append(c)
        self.menus.append(n)
        self.labels.append(label)
        return c


# ---------------------------------------------------------------- RNG interception
UNIT = (0.5, 0.001, 0.999)  # answers given to raw uniform draws
NORM = (0.0, 1.0, -1.0, -9.0)  # standard deviates given to normal draws
EXPO = (1.0, 0.25, 3.0)


def _same(a, b):
    if a is b:
        return True
    try:
        return type(a) in (int, float, bool, str) and type(a) is type(b) and a == b
    except Exception:
        return False


def _caller():
    f = sys._getframe(2)
    return f"{f.f_code.co_name}"


@contextlib.contextmanager
def own_rng(ch, weights=None):
    """Replaces the process-wide random primitives by choices of `ch`."""

    def distinct(seq):
        out = []
        for x in seq:
            if not any(_same(x, y) for y in out):
                out.append(x)
        return out

    def r_choice(seq):
        lab = "choice@" + _caller()
        if hasattr(seq, "tolist") and not isinstance(seq, (list, tuple)):
            seq = list(seq)
        if len(seq) == 0:
            raise IndexError("Cannot choose from an empty sequence")
        opts = list(seq) if ch.exact else distinct(list(seq))
        ch.likely(1 / len(opts))
        return opts[ch.choose(len(opts), lab)]

    def r_choices(population, weights=None, *, cum_weights=None, k=1):
        lab = "choices@" + _caller()
        population = list(population)
        w = list(weights) if weights is not None else None
        if cum_weights is not None:
            w = [b - a for a, b in zip([0] + list(cum_weights)[:-1], cum_weights)]
        opts = [(p, 1 if w is None else w[i]) for i, p in enumerate(population) if w is None or w[i] > 0]
        out = []
        for _ in range(k):
            x, wx = opts[ch.choose(len(opts), lab)]
            ch.likely(wx / sum(y for _, y in opts))
            out.append(x)
        return out

    def _perm(lst, lab):
        lst = list(lst)
        out = []
        while lst:
            ch.likely(1 / len(lst))
            out.append(lst.pop(ch.choose(len(lst), lab) if len(lst) > 1 else 0))
        return out

    def r_shuffle(x, *a):
        x[:] = _perm(x, "shuffle@" + _caller())

    def r_sample(population, k, **kw):
        return _perm(population, "sample@" + _caller())[:k]

    def r_random():
        ch.likely(None)
        return UNIT[ch.choose(len(UNIT), "random@" + _caller())]

    def r_uniform(a=0.0, b=1.0, size=None):
        lab = "uniform@" + _caller()
        ch.likely(None)
        if size is None:
            return a + (b - a) * UNIT[ch.choose(len(UNIT), lab)]
        n = int(np.prod(size))
        return np.array([a + (b - a) * UNIT[ch.choose(len(UNIT), lab)] for _ in range(n)]).reshape(size)

    def r_randint(a, b):
        ch.likely(1 / max(1, b - a + 1))
        return a + ch.choose(b - a + 1, "randint@" + _caller())

    def r_randrange(start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        ch.likely(1 / max(1, len(r)))
        return r[ch.choose(len(r), "randrange@" + _caller())]

    def n_choice(a, size=None, replace=True, p=None):
        lab = "np.choice@" + _caller()
        arr = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        opts = [(x, (p[i] if p is not None else 1)) for i, x in enumerate(arr)]
        vals = []
        for x, w in opts:
            if w > 0 and (ch.exact or not any(_same(x, y) for y in vals)):
                vals.append(x)
        # put the most likely answer first so that "no failure" is the default
        if p is not None:
            best = max(opts, key=lambda t: t[1])[0]
            vals.sort(key=lambda v: 0 if _same(v, best) else 1)
        total = sum(w for _, w in opts)

        def draw():
            v = vals[ch.choose(len(vals), lab)]
            k = sum(1 for x in vals if _same(x, v))
            ch.likely(sum(w for x, w in opts if _same(x, v)) / total / k)
            if p is not None and all(isinstance(x, (bool, np.bool_)) for x in arr):
                ch.coins.append(bool(v))
            return v
        if size is None:
            return draw()
        n = int(np.prod(size))
        return np.array([draw() for _ in range(n)]).reshape(size)

    def n_random(size=None):
        lab = "np.random@" + _caller()
        ch.likely(None)
        if size is None:
            return UNIT[ch.choose(len(UNIT), lab)]
        n = int(np.prod(size))
        return np.array([UNIT[ch.choose(len(UNIT), lab)] for _ in range(n)]).reshape(size)

    def n_rand(*dims):
        return n_random(dims or None)

    def n_randint(low, high=None, size=None, dtype=int):
        lab = "np.randint@" + _caller()
        if high is None:
            low, high = 0, low
        def draw():
            ch.likely(1 / max(1, high - low))
            return low + ch.choose(high - low, lab)
        if size is None:
            return draw()
        n = int(np.prod(size))
        return np.array([draw() for _ in range(n)]).reshape(size)

    def n_shuffle(x):
        x[:] = _perm(list(x), "np.shuffle@" + _caller())

    def n_perm(x):
        x = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        return np.array(_perm(x, "np.permutation@" + _caller()))

    def dev(menu, f):
        def draw(*args, size=None):
            lab = "deviate@" + _caller()
            ch.likely(None)
            if size is None:
                return f(menu[ch.choose(len(menu), lab)], *args)
            n = int(np.prod(size))
            return np.array([f(menu[ch.choose(len(menu), lab)], *args) for _ in range(n)]).reshape(size)
        return draw

    n_normal = dev(NORM, lambda z, loc=0.0, scale=1.0: loc + scale * z)
    n_expo = dev(EXPO, lambda z, scale=1.0: scale * z)
    n_logn = dev(NORM[:3], lambda z, mean=0.0, sigma=1.0: float(np.exp(mean + sigma * z)))

    def normal(loc=0.0, scale=1.0, size=None):
        return n_normal(loc, scale, size=size)

    def exponential(scale=1.0, size=None):
        return n_expo(scale, size=size)

    def lognormal(mean=0.0, sigma=1.0, size=None):
        return n_logn(mean, sigma, size=size)

    def py_gauss(mu=0.0, sigma=1.0):
        return n_normal(mu, sigma)

    pairs = [
        (random, "choice", r_choice), (random, "choices", r_choices),
        (random, "shuffle", r_shuffle), (random, "sample", r_sample),
        (random, "random", r_random), (random, "uniform", r_uniform),
        (random, "randint", r_randint), (random, "randrange", r_randrange),
        (random, "gauss", py_gauss), (random, "normalvariate", py_gauss),
        (np.random, "choice", n_choice), (np.random, "random", n_random),
        (np.random, "random_sample", n_random), (np.random, "rand", n_rand),
        (np.random, "randint", n_randint), (np.random, "shuffle", n_shuffle),
        (np.random, "permutation", n_perm), (np.random, "normal", normal),
        (np.random, "exponential", exponential), (np.random, "lognormal", lognormal),
        (np.random, "uniform", r_uniform),
    ]
    saved = [(m, n, getattr(m, n)) for m, n, _ in pairs]
    # the code under test may have imported the primitives by name
    subst = {id(o): f for (_, _, o), (_, _, f) in zip(saved, pairs)}
    for name, mod in list(sys.modules.items()):
        if name.startswith("prodsys") and mod is not None:
            for n, o in list(vars(mod).items()):
                if id(o) in subst and callable(o):
                    saved.append((mod, n, o))
                    setattr(mod, n, subst[id(o)])
    for m, n, f in pairs:
        setattr(m, n, f)
    try:
        yield ch
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


def distribution(run, cap=5000):
    """The exact distribution {result: probability} of `run(chooser)` over all random answers, or None when
    a draw is not one of finitely many alternatives or there are more than `cap` runs."""
    out = {}
    todo = [()]
    n = 0
    while todo:
        prefix = todo.pop()
        ch = Chooser(prefix)
        ch.exact = True
        r = run(ch)
        n += 1
        if ch.prob is None or n > cap:
            return None
        out[r] = out.get(r, 0.0) + ch.prob
        for i in range(len(prefix), len(ch.choices)):
            todo += [tuple(ch.choices[:i]) + (alt,) for alt in range(1, ch.menus[i])]
    return out


def explore(run, bound, cap=10 ** 9, stop=None, part=0, parts=1):
    """Runs `run(chooser)` for every choice sequence with at most `bound` deviations.

    Yields (chooser, result).  Sets explore.capped when `cap` runs were not enough.
    `parts` > 1 explores only the sequences whose first deviation belongs to `part`."""
    explore.capped = False
    # frontier per number of deviations so that cheap counterexamples come first
    frontier = [[] for _ in range(bound + 1)]
    frontier[0].append(((), ()))
    n = 0
    for d in range(bound + 1):
        queue = frontier[d]
        qi = 0
        while qi < len(queue):
            prefix, menus = queue[qi]
            qi += 1
            if n >= cap or (stop is not None and stop()):
                explore.capped = True
                return
            ch = Chooser(prefix, menus)
            res = run(ch)
            n += 1
            if len(ch.choices) < len(prefix):
                raise Divergence(f"prefix of {len(prefix)} choices, run made {len(ch.choices)}")
            yield ch, res
            if d == 0 and bound and parts > 1:
                alts = [(i, alt) for i in range(len(ch.choices)) for alt in range(1, ch.menus[i])]
                frontier[1] = [(tuple(ch.choices[:i]) + (alt,), tuple(ch.menus[:i]) + (ch.menus[i],))
                               for k, (i, alt) in enumerate(alts) if k % parts == part]
            elif d < bound:
                for i in range(len(prefix), len(ch.choices)):
                    for alt in range(1, ch.menus[i]):
                        frontier[d + 1].append(
                            (tuple(ch.choices[:i]) + (alt,), tuple(ch.menus[:i]) + (ch.menus[i],)))

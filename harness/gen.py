"""Small structured-generation library: strategies over a recorded choice sequence, with internal shrinking.

The vocabulary follows Hypothesis (integers, sampled_from, one_of, lists, tuples, composite...), and so does the shrinking
principle (every random decision is an integer below a bound, recorded in order; a failing sequence is shrunk by
deleting and lowering choices and re-running the generator, so that shrunk cases stay within the generator's domain).
It exists because Hypothesis spends 20 times longer than the code under test to produce one of our cases.
"""
import random


class Source(object):
    __slots__ = ("rng", "replay", "i", "log")

    def __init__(self, rng=None, replay=None):
        self.rng = rng
        self.replay = replay
        self.i = 0
        self.log = []

    def below(self, n, hint=None):
        """An integer in [0, n). `hint` is a value computed by the generator itself in random mode."""
        if n <= 1:
            return 0
        if self.replay is not None:
            c = self.replay[self.i] if self.i < len(self.replay) else 0
            self.i += 1
            if c >= n:
                c = n - 1
        elif hint is not None:
            c = hint
        else:
            c = self.rng.randrange(n) if n > 256 else int(self.rng.random() * n)
        self.log.append(c)
        return c


class Strategy(object):
    def __init__(self, do):
        self.do = do

    def map(self, f):
        return Strategy(lambda s: f(self.do(s)))


class _OneOf(Strategy):
    def __init__(self, items):
        self.items = items
        Strategy.__init__(self, self._do)

    def _do(self, s):
        return self.items[s.below(len(self.items))].do(s)


def just(v):
    return Strategy(lambda s: v)


def sampled_from(seq):
    seq = list(seq)
    return Strategy(lambda s: seq[s.below(len(seq))])


def booleans():
    return Strategy(lambda s: bool(s.below(2)))


def integers(lo, hi):
    if lo >= 0 or hi <= 0:
        if lo >= 0:
            return Strategy(lambda s: lo + s.below(hi - lo + 1))
        return Strategy(lambda s: hi - s.below(hi - lo + 1))
    n_pos = hi + 1  # 0..hi first, then the negative ones: shrinks towards 0

    def do(s):
        c = s.below(hi - lo + 1)
        return c if c < n_pos else -(c - n_pos + 1)

    return Strategy(do)


def floats_from(lo, hi, steps=1000):
    return Strategy(lambda s: lo + (hi - lo) * s.below(steps + 1) / steps)


def one_of(*items):
    flat = []
    for it in items:
        if isinstance(it, (list, tuple)):
            flat.extend(it)
        else:
            flat.append(it)
    return _OneOf(flat)


def weighted(*pairs):
    items = []
    for w, it in pairs:
        items += [it] * w
    return _OneOf(items)


def tuples(*items):
    dos = [it.do for it in items]
    return Strategy(lambda s: tuple([d(s) for d in dos]))


def lists(elem, min_size=0, max_size=8):
    do_elem = elem.do

    def do(s):
        out = []
        target = None
        if s.replay is None:
            target = min_size + int(s.rng.random() * (max_size - min_size + 1))
        while len(out) < max_size:
            if len(out) >= min_size:
                more = s.below(2, hint=None if target is None else int(len(out) < target))
                if not more:
                    break
            out.append(do_elem(s))
        return out

    return Strategy(do)


def binary(min_size=0, max_size=20):
    return lists(integers(0, 255), min_size, max_size).map(bytes)


def text(alphabet, min_size=0, max_size=20):
    return lists(sampled_from(alphabet), min_size, max_size).map("".join)


def permutations(seq):
    seq = list(seq)

    def do(s):
        rest, out = list(seq), []
        while rest:
            out.append(rest.pop(s.below(len(rest))))
        return out

    return Strategy(do)


def composite(f):
    """@composite def strat(draw, *args): ...   (as in Hypothesis)"""

    def build(*args, **kwargs):
        return Strategy(lambda s: f(lambda strat: strat.do(s), *args, **kwargs))

    return build


# ------------------------------------------------------------------------------------ engine


def generate(strategy, seed):
    s = Source(rng=random.Random(seed))
    case = strategy.do(s)
    return case, s.log


def rebuild(strategy, choices):
    s = Source(replay=choices)
    case = strategy.do(s)
    return case, s.log


def shrink(strategy, choices, fails, alive):
    """fails(case) -> bool (same failure); alive() -> bool (time left). Returns the best choice sequence."""
    best = list(choices)
    seen = set()

    def key(c):
        return (len(c), c)

    def attempt(cand):
        nonlocal best
        t = tuple(cand)
        if t in seen or not alive():
            return False
        seen.add(t)
        case, log = rebuild(strategy, cand)
        if key(log) >= key(best):
            return False
        if fails(case):
            best = log
            return True
        return False

    improved = True
    while improved and alive():
        improved = False
        # delete blocks
        size = max(1, len(best) // 2)
        while size >= 1 and alive():
            i = 0
            while i < len(best) and alive():
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += max(1, size // 2) if size > 4 else 1
            size //= 2
        # zero blocks, then lower single choices
        for size in (8, 4, 2):
            i = 0
            while i + size <= len(best) and alive():
                if any(best[i:i + size]):
                    if attempt(best[:i] + [0] * size + best[i + size:]):
                        improved = True
                i += size
        i = 0
        while i < len(best) and alive():
            v = best[i]
            if v:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    lo, hi = 0, v  # binary descent
                    while lo + 1 < hi and alive():
                        mid = (lo + hi) // 2
                        if i < len(best) and attempt(best[:i] + [mid] + best[i + 1:]):
                            improved = True
                            hi = mid
                        else:
                            lo = mid
            i += 1
        # lower a choice and delete something after it (e.g. a length and an element)
        i = 0
        while i < len(best) and alive():
            if best[i]:
                for size in (1, 2, 3, 4):
                    cand = list(best)
                    cand[i] -= 1
                    if attempt(cand[:i + 1] + cand[i + 1 + size:]):
                        improved = True
                        break
            i += 1
    return best

"""Random choices as a recorded sequence: every generated case is a pure function of its choices, so a
failing case is shrunk by shrinking the sequence (as minithesis and Hypothesis do internally)."""
import random, time

class Overrun(Exception):
    pass

class Choices:
    """Draws choices from a seeded generator (prefix first, if given) and records them."""
    def __init__(self, seed=None, prefix=None, limit=60000):
        self.rec = []
        self.prefix = list(prefix) if prefix is not None else []
        self.rng = random.Random(seed) if seed is not None else None
        self.limit = limit

    def _next(self, n):
        """An integer in 0..n-1."""
        i = len(self.rec)
        if i >= self.limit:
            raise Overrun()
        if i < len(self.prefix):
            v = self.prefix[i]
            v = v if v < n else n - 1
        elif self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = 0
        self.rec.append(v)
        return v

    def below(self, n):
        return self._next(n) if n > 1 else 0

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def bool(self, p=0.5):
        """True with probability p; shrinks to False."""
        return self._next(100) >= 100 - int(round(p * 100))

    def weighted(self, pairs):
        """pairs [(weight, value)]; shrinks to the first."""
        tot = sum(w for w, _ in pairs)
        v = self._next(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def size(self, lo, hi, mean=None):
        """A size in lo..hi, small ones more likely."""
        n = hi - lo
        if n <= 0:
            return lo
        a, b = self.below(n + 1), self.below(n + 1)
        return lo + min(a, b)

    def sample(self, xs, k):
        xs = list(xs)
        out = []
        while xs and len(out) < k:
            out.append(xs.pop(self.below(len(xs))))
        return out

    def shuffle(self, xs):
        return self.sample(xs, len(xs))

    def maybe(self, p=0.5):
        return self.bool(p)

def shrink(choices, fails, budget_s):
    """Smaller sequence of choices that still fails. fails(seq) -> recorded sequence when it fails, else None."""
    end = time.time() + budget_s
    best = list(choices)
    seen = set()
    tries = 0
    def better(c):
        return (len(c), c) < (len(best), best)
    def attempt(c):
        nonlocal best, tries
        key = tuple(c)
        if key in seen or time.time() > end or not better(list(c)):
            return False
        seen.add(key)
        tries += 1
        r = fails(list(c))
        if r is None:
            return False
        while r and r[-1] == 0:
            r = r[:-1]
        if better(r):
            best = r
            return True
        if better(list(c)):
            best = list(c)
            return True
        return False
    improved = True
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:            # delete blocks
            i = len(best) - size
            while i >= 0 and time.time() < end:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                    i = min(i, len(best) - size)
                else:
                    i -= max(1, size // 2) if size > 1 else 1
            size //= 2
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:            # zero blocks
            for i in range(0, len(best), size):
                blk = best[i:i + size]
                if any(blk) and attempt(best[:i] + [0] * len(blk) + best[i + len(blk):]):
                    improved = True
            size //= 2
        for i in range(len(best)):                        # lower single choices
            if time.time() > end or i >= len(best):
                break
            lo, hi = 0, best[i]
            while lo < hi and time.time() < end and i < len(best):
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    hi = min(mid, best[i]) if i < len(best) else mid
                else:
                    lo = mid + 1
    return best, tries

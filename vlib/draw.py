"""Choice-sequence generation with integrated shrinking: a generator is a function of a Draw, every random
decision is one bounded integer, and a failing case is shrunk by shrinking that sequence and generating again,
so that shrunk cases are always cases the generator could have produced."""
import random
import time


class Draw:
    def __init__(self, rng=None, tape=None):
        self.rng, self.tape, self.pos, self.out = rng, tape, 0, []

    def i(self, lo, hi):
        """integer in [lo, hi]; wide ranges favour their ends a little"""
        n = hi - lo
        if self.tape is not None:
            v = min(self.tape[self.pos], n) if self.pos < len(self.tape) else 0
            self.pos += 1
        else:
            r = self.rng
            if n > 40 and r.random() < 0.04:
                v = r.choice((0, 1, n, n - 1))
            else:
                v = r.randint(0, n)
        self.out.append(v)
        return lo + v

    def pick(self, *xs):
        return xs[self.i(0, len(xs) - 1)]

    def chance(self, k):
        """true once in k; shrinks to false"""
        return self.i(0, k - 1) == k - 1

    def flag(self):
        return self.i(0, 1) == 1

    def u(self):
        """[0, 1]"""
        return self.i(0, 99999) / 99999.0

    def text(self, alphabet, lo, hi):
        return "".join(alphabet[self.i(0, len(alphabet) - 1)] for _ in range(self.i(lo, hi)))

    def some(self, lo, hi, f):
        return [f() for _ in range(self.i(lo, hi))]


def generate(gen, seed):
    d = Draw(rng=random.Random(seed))
    return gen(d), d.out


def regenerate(gen, tape):
    d = Draw(tape=tape)
    return gen(d), d.out


def shrink(gen, tape, fails, seconds=40):
    """fails(case) -> bool.  Returns the smallest failing (case, tape) found in the time given."""
    end = time.time() + seconds
    case, best = regenerate(gen, tape)
    best = list(best)
    tried = set()

    def attempt(t):
        nonlocal best, case
        k = tuple(t)
        if k in tried or time.time() > end:
            return False
        tried.add(k)
        try:
            c, out = regenerate(gen, t)
        except (ValueError, IndexError, ZeroDivisionError, OverflowError, AssertionError):
            return False
        if (len(out), out) >= (len(best), best):
            return False
        if fails(c):
            best, case = list(out), c
            return True
        return False

    improved = True
    while improved and time.time() < end:
        improved = False
        # remove runs
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i + size <= len(best):
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                    continue
                # removing an element usually goes with a smaller count before it
                j = i - 1
                if size > 1 and j >= 0 and best[j] > 0:
                    t = best[:j] + [best[j] - 1] + best[i + size:]
                    if attempt(t):
                        improved = True
                        continue
                i += max(1, size // 2)
            size //= 2
        # zero runs
        size = 16
        while size >= 1 and time.time() < end:
            for i in range(0, max(0, len(best) - size + 1), size):
                if any(best[i:i + size]) and attempt(best[:i] + [0] * size + best[i + size:]):
                    improved = True
            size //= 2
        # lower single values, keeping what follows or dropping some of it
        i = 0
        while i < len(best) and time.time() < end:
            if best[i] > 0:
                lo, hi = 0, best[i]
                for drop in (0, 22, 20, 18, 16):
                    if best[i] and attempt(best[:i] + [best[i] - 1] + best[i + 1:i + 1] + best[i + 1 + drop:]):
                        improved = True
                while lo < hi and time.time() < end and i < len(best):
                    mid = (lo + hi) // 2
                    if attempt(best[:i] + [mid] + best[i + 1:]):
                        improved = True
                        hi = min(mid, best[i] if i < len(best) else mid)
                    else:
                        lo = mid + 1
            i += 1
    return case, best

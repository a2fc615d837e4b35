"""A small property-based testing engine (choice-sequence generation with integrated shrinking).

Every random decision of a case is drawn through a Source and recorded as a list of small integers.  A
case is a pure function of that list, so replaying a list replays the case, and shrinking is done on the
list (delete blocks, zero blocks, lower single choices), as in Hypothesis/minithesis.  Hypothesis itself
spends most of a core per few hundred draws; the cases here take about a millisecond, so the engine is
kept minimal to be able to run tens of thousands of them per check.
"""
import hashlib, json, os, random, time

class Violation(Exception):
    pass

class Discard(Exception):
    pass

class Source:
    def __init__(self, rng=None, choices=None):
        self.rng, self.given, self.rec = rng, choices, []

    def int(self, lo, hi):
        """uniform in [lo, hi]; shrinks towards lo"""
        if hi <= lo:
            return lo
        n = hi - lo
        if self.given is not None:
            i = len(self.rec)
            v = self.given[i] if i < len(self.given) else 0
            if v > n: v = n
        else:
            v = self.rng.randint(0, n)
        self.rec.append(v)
        return lo + v

    def bool(self, num=1, den=2):
        """true with probability num/den; shrinks towards False"""
        if self.given is not None:
            return self.int(0, 1) == 1
        v = 1 if self.rng.randrange(den) < num else 0
        self.rec.append(v)
        return v == 1

    def pick(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def weighted(self, pairs):
        """pairs of (value, weight); shrinks towards the first"""
        pairs = [p for p in pairs if p[1] > 0]
        if self.given is not None:
            return pairs[self.int(0, len(pairs) - 1)][0]
        tot = sum(w for _, w in pairs)
        x = self.rng.random() * tot
        k = 0
        for k, (_, w) in enumerate(pairs):
            x -= w
            if x < 0: break
        self.rec.append(k)
        return pairs[k][0]

    def size(self, lo, hi):
        """skewed towards small sizes, with the whole range reachable"""
        if self.given is not None or hi <= lo:
            return self.int(lo, hi)
        r = self.rng.random()
        v = int((hi - lo + 1) * (r if self.rng.random() < 0.6 else r * r))
        v = min(v, hi - lo)
        self.rec.append(v)
        return lo + v

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.bool(num, den)]

    def sample(self, seq, k):
        """k distinct elements in random order"""
        pool = list(seq)
        k = min(k, len(pool))
        res = []
        for _ in range(k):
            j = self.int(0, len(pool) - 1)
            res.append(pool.pop(j))
        return res

    def shuffle(self, seq):
        """a permutation; shrinks towards the identity"""
        pool = list(seq)
        if len(pool) < 2: return pool
        if not self.bool(3, 4): return pool
        if len(pool) > 60:       # a choice per element would drown the rest of the case
            random.Random(self.int(0, 2**31)).shuffle(pool); return pool
        return self.sample(pool, len(pool))

    def real(self, lo=0, hi=64, den=4):
        """a multiple of 1/den in [lo, hi]: sums of these are exact"""
        return self.int(lo * den, hi * den) / den

    def u64(self):
        return (self.int(0, 2**32 - 1) << 32) | self.int(0, 2**32 - 1)


class Case:
    """what one execution of a property learned about its case"""
    def __init__(self):
        self.labels = set(); self.nontrivial = False; self.text = ""; self.sample = None
    def label(self, *names):
        self.labels.update(names)


def shrink(choices, fails, seconds):
    """fails(choices) -> recorded choices when it still fails, else None"""
    end = time.monotonic() + seconds
    best = list(choices)
    def better(c):
        nonlocal best
        if time.monotonic() > end: return False
        r = fails(c)
        if r is not None and (len(r), r) < (len(best), best):
            best = list(r); return True
        return False
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        # delete blocks
        for k in (64, 32, 16, 8, 4, 3, 2, 1):
            i = len(best) - k
            while i >= 0 and time.monotonic() < end:
                if better(best[:i] + best[i + k:]):
                    improved = True
                    i = min(i, len(best) - k)
                else:
                    # a deletion often needs an earlier count to be lowered as well
                    if i > 0 and k <= 8:
                        done = False
                        for j in range(max(0, i - 6), i):
                            if best[j] > 0:
                                c = list(best); c[j] -= 1; del c[i:i + k]
                                if better(c):
                                    improved = True; done = True; break
                        if done:
                            i = min(i, len(best) - k); continue
                    i -= 1 if k < 8 else k // 2
        # zero blocks
        for k in (16, 8, 4, 2):
            i = 0
            while i + k <= len(best) and time.monotonic() < end:
                if any(best[i:i + k]) and better(best[:i] + [0] * k + best[i + k:]): improved = True
                i += k
        # lower single choices
        i = 0
        while i < len(best) and time.monotonic() < end:
            if best[i] > 0:
                if better(best[:i] + [0] + best[i + 1:]): improved = True
                else:
                    lo, hi = 0, best[i] if i < len(best) else 0
                    while i < len(best) and lo + 1 < hi and time.monotonic() < end:
                        mid = (lo + hi) // 2
                        if better(best[:i] + [mid] + best[i + 1:]): hi = mid; improved = True
                        else: lo = mid
            i += 1
    return best

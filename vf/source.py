"""Recorded choice source.

Every random decision of a workload goes through ``Source.draw`` so that one
execution is described completely by its list of integers.  Replaying the list
reproduces the execution; mutating or trimming it gives a neighbour or a
smaller one.
"""
import random


class Exhausted(Exception):
    pass


class Source(object):
    MAX = 20000

    def __init__(self, seed=None, prefix=()):
        self.rng = random.Random(seed)
        self.prefix = prefix
        self.i = 0
        self.log = []

    # -- primitive ---------------------------------------------------------
    def draw(self, n):
        """An integer in range(n)."""
        if n <= 1:
            n = 1
        if self.i < len(self.prefix):
            v = self.prefix[self.i] % n
        elif len(self.log) > self.MAX:
            v = 0
        else:
            v = self.rng.randrange(n)
        self.i += 1
        self.log.append(v)
        return v

    # -- derived -----------------------------------------------------------
    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den (0 in a shrunk source is False)."""
        return self.draw(den) >= den - num

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first one is the simplest."""
        total = sum(w for w, _ in pairs)
        k = self.draw(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        return pairs[-1][1]

    def size(self, typical=4, big=0, big_rate=40):
        """A heavy-tailed length: mostly up to ``typical``, now and then up
        to ``big``."""
        if big and self.draw(big_rate) == big_rate - 1:
            return self.int(0, big)
        return self.int(0, typical)

    def few(self, lo, hi, big=None):
        """Mostly between ``lo`` and ``hi``, now and then up to ``big``."""
        if self.draw(24) == 23:
            return self.int(lo, big or hi * 8)
        return self.int(lo, hi)

    def sublist(self, seq, num=1, den=2):
        return [x for x in seq if self.bool(num, den)]

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def list(self, fn, typical=4, big=0, lo=0, big_rate=40):
        n = max(lo, self.size(typical, big, big_rate))
        return [fn() for _ in range(n)]

    def text(self, alphabet, typical=6, big=0, lo=0, big_rate=40):
        n = max(lo, self.size(typical, big, big_rate))
        return ''.join(self.choice(alphabet) for _ in range(n))

    def partition(self, data):
        """Cut a sequence into consecutive non-empty pieces."""
        out = []
        mode = self.draw(4)
        i = 0
        while i < len(data):
            if mode == 0:
                n = len(data)
            elif mode == 1:
                n = 1
            elif mode == 2:
                n = self.int(1, 4)
            else:
                n = self.int(1, max(1, len(data)))
            out.append(data[i:i + n])
            i += n
        return out

"""All nondeterminism of a simulated run comes from here.

A run is a pure function of (property world, code, hash seed, decisions).  Decisions are drawn on named
streams; every draw with a non-default (non-zero) outcome is recorded sparsely as stream -> {index: value}.
In search mode outcomes come from PRNGs derived from one integer seed, in replay mode from the recorded map
(missing index = default 0), which is also what the minimiser shrinks.
"""
import random


class Decider:
    def __init__(self, seed=None, replay=None):
        self.seed = seed
        self.replay = None
        if replay is not None:
            self.replay = {s: {int(k): v for k, v in d.items()} for s, d in replay.items()}
        self.counters = {}
        self.recorded = {}
        self.rngs = {}

    def rng(self, stream):
        r = self.rngs.get(stream)
        if r is None:
            r = self.rngs[stream] = random.Random(f"{self.seed}/{stream}")
        return r

    def draw(self, stream, n, fn):
        """outcome in range(n); in search mode computed by fn(rng)"""
        i = self.counters.get(stream, 0)
        self.counters[stream] = i + 1
        if n <= 1:
            return 0
        if self.replay is not None:
            d = self.replay.get(stream)
            v = d.get(i, 0) if d else 0
            v = v % n
        else:
            v = fn(self.rng(stream))
        if v:
            self.recorded.setdefault(stream, {})[i] = v
        return v

    # convenience -----------------------------------------------------------------------------------------
    def choose(self, stream, n):
        return self.draw(stream, n, lambda r: r.randrange(n))

    def rare(self, stream, n, p):
        """0 with probability 1-p, otherwise uniform in 1..n-1"""
        return self.draw(stream, n, lambda r: r.randrange(1, n) if n > 1 and r.random() < p else 0)

    def flip(self, stream, p):
        return bool(self.draw(stream, 2, lambda r: 1 if r.random() < p else 0))


class Gen:
    """workload generation helpers bound to one stream; 0 is always the simplest outcome"""

    def __init__(self, dec, stream="W"):
        self.d = dec
        self.s = stream

    def int(self, lo, hi):
        return lo + self.d.choose(self.s, hi - lo + 1)

    def pick(self, seq):
        return seq[self.d.choose(self.s, len(seq))]

    def flip(self, p=0.5):
        return self.d.flip(self.s, p)

    def weighted(self, pairs):
        """pairs: [(item, weight)]; the first item is the default"""
        tot = sum(w for _, w in pairs)

        def f(r):
            x = r.random() * tot
            for i, (_, w) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1

        return pairs[self.d.draw(self.s, len(pairs), f)][0]

    def sample(self, seq, p=0.5):
        return [x for x in seq if self.flip(p)]

    def shuffle(self, seq):
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.d.choose(self.s, len(seq))))
        return out

    def blob(self, lo, hi, tag=""):
        """unique-ish printable bytes of a drawn size"""
        n = self.int(lo, hi)
        unit = f"<{tag}:{self.int(0, 999)}>".encode()
        return (unit * (n // len(unit) + 1))[:n]

"""The generator interface.

Generators are plain functions of a Src. A Src turns bounded integer choices into
structure; the choices come from Hypothesis (one ``integers(0, n-1)`` draw each, so
Hypothesis owns every random decision, shrinks and replays it). Smaller numbers stand
for simpler structure.
"""
from hypothesis import strategies as st

_INTS = {}


def _int_strategy(n):
    s = _INTS.get(n)
    if s is None:
        s = _INTS[n] = st.integers(0, n - 1)
    return s


class Src:
    def __init__(self, draw):
        self._draw = draw

    def below(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        return self._draw(_int_strategy(n))

    def int(self, lo, hi):
        """An integer in [lo, hi]."""
        return lo + self.below(hi - lo + 1)

    def bool(self):
        return self.below(2) == 1

    def chance(self, n):
        """True about once in n."""
        return self.below(n) == n - 1

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def one(self, *gens):
        """The value of one of the generators."""
        return gens[self.below(len(gens))](self)

    def list(self, gen, lo, hi):
        return [gen(self) for _ in range(self.int(lo, hi))]

    def subset(self, seq, lo, hi):
        """Distinct elements of seq, in random order."""
        pool = list(seq)
        out = []
        for _ in range(min(self.int(lo, hi), len(pool))):
            out.append(pool.pop(self.below(len(pool))))
        return out

    def shuffle(self, seq):
        return self.subset(seq, len(seq), len(seq))


def strategy(gen):
    """A Hypothesis strategy from a generator function."""
    @st.composite
    def cases(draw):
        return gen(Src(draw))
    return cases()

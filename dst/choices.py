"""Every scheduling decision of a run, drawn from one PRNG or replayed."""
import random


class Choices:
    """`pick(weights)` -> index.  Seeded, or driven by a recorded list.

    A recorded list may be shorter than the run: decisions past its end take
    option 0, which always makes progress (this is what lets a schedule be
    minimised by truncation).
    """

    def __init__(self, seed, recorded=None):
        self.rng = random.Random(("sched", seed).__repr__())
        self.recorded = recorded
        self.out = []

    def pick(self, weights):
        n = len(weights)
        i = len(self.out)
        if self.recorded is not None:
            v = self.recorded[i] if i < len(self.recorded) else 0
            v = v if 0 <= v < n else 0
        elif n == 1:
            v = 0
        else:
            tot = sum(weights)
            x = self.rng.random() * tot
            v = n - 1
            for k, w in enumerate(weights):
                x -= w
                if x < 0:
                    v = k
                    break
        self.out.append(v)
        return v


def sub_rng(*key):
    return random.Random(repr(key))

# Seeded PRNG used for every random choice of the harness.  xorshift64*/splitmix
# in pure Python, so that a seed means the same in Jython and in CPython 3 and
# does not depend on the implementation of the random module.

MASK = 0xFFFFFFFFFFFFFFFF


def mix(x):
    x = (x + 0x9E3779B97F4A7C15) & MASK
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & MASK
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & MASK
    return x ^ (x >> 31)


def seed_of(*parts):
    h = 0xCBF29CE484222325
    for p in parts:
        for c in str(p):
            h = ((h ^ ord(c)) * 0x100000001B3) & MASK
        h = ((h ^ 0xFF) * 0x100000001B3) & MASK
    return mix(h)


class Rng(object):

    def __init__(self, *parts):
        self.s = seed_of(*parts)

    def bits(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & MASK
        x = self.s
        x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & MASK
        x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & MASK
        return x ^ (x >> 31)

    def below(self, n):
        return int(self.bits() % n)

    def int(self, a, b):
        "integer in a..b inclusive"
        return a + int(self.bits() % (b - a + 1))

    def chance(self, p):
        return (self.bits() >> 11) < p * 9007199254740992.0

    def choice(self, seq):
        return seq[int(self.bits() % len(seq))]

    def weighted(self, pairs):
        tot = sum(w for (_, w) in pairs)
        r = int(self.bits() % tot)
        for v, w in pairs:
            if r < w:
                return v
            r -= w

    def shuffle(self, lst):
        for i in range(len(lst) - 1, 0, -1):
            j = int(self.bits() % (i + 1))
            lst[i], lst[j] = lst[j], lst[i]
        return lst

    def sample(self, seq, k):
        lst = list(seq)
        self.shuffle(lst)
        return lst[:k]

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.chance(p)]

    def fork(self, *parts):
        return Rng(self.bits(), *parts)

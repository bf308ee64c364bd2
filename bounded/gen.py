"""Generators shared by the clauses: encoded random variables, random names, counts and models."""

from __future__ import annotations

import numpy as np

from bounded import lib

lib.load()

from gerabaldi.models import RandomVar, Deterministic, Normal  # noqa: E402


def primes(start, n):
    out, c = [], start
    while len(out) < n:
        if all(c % p for p in range(2, int(c**0.5) + 1)):
            out.append(c)
        c += 1
    return out


class Enc(RandomVar):
    """A random variable whose draws are all different and decodable: base + step * k (offset) or primes (scaling)."""

    def __init__(self, values, name=None):
        self._dist_type = 'uniform'
        self.values = list(values)
        self.used = 0
        self.log = []
        super().__init__(name=name)

    def sample(self, quantity=1):
        q = int(quantity)
        if self.used + q > len(self.values):
            self.values += [self.values[-1] * 1.0] * (self.used + q - len(self.values))
        out = np.array(self.values[self.used : self.used + q], dtype=float)
        self.used += q
        self.log.append(q)
        return out


def offsets(step, n, rng=None):
    ks = np.arange(1, n + 1)
    if rng is not None:
        ks = rng.permutation(ks)
    return [float(step * k) for k in ks]


def dims(rng, hi=4):
    return int(rng.integers(1, hi)), int(rng.integers(1, hi)), int(rng.integers(1, hi + 1))


NAMES = ['alpha', 'bvt', 'curr', 'delta', 'epsi', 'freq', 'gm', 'hci', 'ioff', 'leak', 'mu', 'nbti']
CONDS = ['temp', 'vdd', 'vbias', 'humid', 'press']


def pick(rng, seq, k=None):
    if k is None:
        return seq[int(rng.integers(len(seq)))]
    return [seq[int(i)] for i in rng.permutation(len(seq))[:k]]

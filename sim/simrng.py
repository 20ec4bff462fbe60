"""A numpy Generator that sometimes returns rare but legal values (cooperative faults).

It is a real Generator: every draw the simulator does not touch is numpy's own.
`budget` bounds the number of altered draws, so rejection loops always finish.
"""
import random as _random

import numpy as np


class RngFailure(RuntimeError):
    pass


class SimRNG(np.random.Generator):
    def __init__(self, seed, buggify_seed=None, prob=0.0, budget=0, kinds=(), fail_at=None):
        super().__init__(np.random.PCG64(seed))
        self.B = _random.Random(buggify_seed)
        self.prob, self.budget, self.kinds = prob, budget, set(kinds)
        self.hits = {}
        self.ndraw = 0
        self.fail_at = fail_at
        self.asked = []          # (lam, result) of scalar Poisson draws

    def _draw(self):
        self.ndraw += 1
        if self.fail_at is not None and self.ndraw >= self.fail_at:
            raise RngFailure('injected failure of the random source')

    def _hit(self, kind):
        self._draw()
        if kind not in self.kinds or self.budget <= 0 or self.B.random() >= self.prob:
            return False
        self.budget -= 1
        self.hits[kind] = self.hits.get(kind, 0) + 1
        return True

    def _spoil(self, out, values):
        v = self.B.choice(values)
        if np.ndim(out) == 0:
            return type(out)(v) if isinstance(out, (int, float)) else np.asarray(out).dtype.type(v)
        if out.size:
            out = np.array(out)
            out.flat[self.B.randrange(out.size)] = v
        return out

    def random(self, *a, **k):
        hit = self._hit('random')
        out = super().random(*a, **k)
        return self._spoil(out, (0.0, 1 - 2.0**-53, 0.5, 2.0**-53)) if hit else out

    def uniform(self, low=0.0, high=1.0, size=None):
        hit = self._hit('random')
        out = super().uniform(low, high, size)
        return self._spoil(out, (low, (low + high) / 2)) if hit and np.ndim(low) == 0 and np.ndim(high) == 0 else out

    def normal(self, loc=0.0, scale=1.0, size=None):
        hit = self._hit('normal')
        out = super().normal(loc, scale, size)
        if hit and np.ndim(loc) == 0 and np.ndim(scale) == 0:
            z = self.B.choice((-5.5, -5.0, -4.0, 4.0, 5.0, 5.5, 0.0))
            return self._spoil(out, (loc + z * scale,))
        return out

    def standard_normal(self, *a, **k):
        hit = self._hit('normal')
        out = super().standard_normal(*a, **k)
        return self._spoil(out, (-5.5, -5.0, 5.0, 5.5, 0.0)) if hit else out

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        hit = self._hit('lognormal')
        out = super().lognormal(mean, sigma, size)
        if hit and np.ndim(mean) == 0:
            z = self.B.choice((-4.5, 4.5))
            return self._spoil(out, (float(np.exp(float(mean) + z * sigma)),))
        return out

    def exponential(self, scale=1.0, size=None):
        hit = self._hit('exponential')
        out = super().exponential(scale, size)
        return self._spoil(out, (scale * 1e-6, scale * 12.0)) if hit and np.ndim(scale) == 0 else out

    def poisson(self, lam=1.0, size=None):
        out = self._poisson(lam, size)
        if size is None and np.ndim(lam) == 0:
            self.asked.append((float(lam), int(out)))
        return out

    def _poisson(self, lam, size):
        hit = self._hit('poisson')
        out = super().poisson(lam, size)
        if not hit or np.ndim(lam) or lam == 0:
            return out
        if np.ndim(out) and out.size and self.B.random() < 0.3:      # a whole unusual draw
            return np.zeros_like(out) if self.B.random() < 0.5 else np.full_like(out, int(lam + 5 * lam**0.5 + 3))
        return self._spoil(out, (0, 1, 2, int(lam + 5 * lam**0.5 + 3)))

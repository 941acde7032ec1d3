"""Reference training loop and observed data sets."""
import math
import numpy as np
import torch


class Watched(torch.utils.data.Dataset):
    """Data set which records the order in which samples are read."""

    def __init__(self, samples):
        self.samples = samples
        self.log = []

    def __len__(self):
        return len(self.samples)

    def __getitem__(self, i):
        if i >= len(self.samples):
            raise IndexError
        self.log.append(int(i))
        return {k: v.clone() for k, v in self.samples[i].items()}


def loss(kind, kw, y, t):
    """Loss of predictions y and targets t."""
    if kind == 'mse':
        return ((y - t)**2).mean()
    e, a = (y - t).abs(), t.abs()
    small = kw.get('small', 1e-5)
    how = kw.get('zero_handling', 'absolute')
    if how == 'absolute':
        d = torch.where(a < small, torch.ones_like(a), a)
    elif how == 'clip':
        d = a.clamp(min=small)
    else:
        d = a + small
    return (e/d).mean()


def rate(kind, kw, lr0, epoch):
    """Learning rate of an epoch."""
    if kind is None:
        return lr0
    if kind == 'steplr':
        return lr0*kw.get('gamma', .1)**(epoch//kw['step_size'])
    if kind == 'explr':
        return lr0*kw['gamma']**epoch
    s, f, n = (kw.get('start_factor', 1/3), kw.get('end_factor', 1.),
               kw.get('total_iters', 5))
    return lr0*(s + (f - s)*min(epoch, n)/n)


class Adam:
    def __init__(self, params, b1=.9, b2=.999, eps=1e-8):
        self.p = list(params)
        self.m = [torch.zeros_like(q) for q in self.p]
        self.v = [torch.zeros_like(q) for q in self.p]
        self.b1, self.b2, self.eps, self.t = b1, b2, eps, 0

    def snapshot(self):
        return [(m.clone(), v.clone(), self.t)
                for m, v in zip(self.m, self.v)]

    def zero(self):
        for q in self.p:
            q.grad = None

    def step(self, lr):
        self.t += 1
        for q, m, v in zip(self.p, self.m, self.v):
            if q.grad is None:
                continue
            g = q.grad
            m.mul_(self.b1).add_(g*(1 - self.b1))
            v.mul_(self.b2).add_(g*g*(1 - self.b2))
            mh = m/(1 - self.b1**self.t)
            vh = v/(1 - self.b2**self.t)
            q.data -= lr*mh/(vh.sqrt() + self.eps)


def stats(kind, samples, feature, lo=-1., hi=1.):
    x = np.concatenate([s[feature].double().numpy() for s in samples])
    if kind == 'min-max':
        return kind, (x.min(0), x.max(0))
    return kind, (x.mean(0), x.std(0))


def scale(st, x, back=False):
    """Affine scaling of a tensor."""
    if st is None:
        return x
    kind, (a, b) = st
    a = torch.tensor(a, dtype=x.dtype)
    b = torch.tensor(b, dtype=x.dtype)
    if kind == 'min-max':
        r = torch.where(b - a == 0, torch.ones_like(a), b - a)
        if back:
            return (x + 1)*r/2 + a
        return -1 + 2*(x - a)/r
    s = torch.where(b == 0, torch.ones_like(b), b)
    return x*s + a if back else (x - a)/s


def batch(samples, idx):
    keys = samples[0].keys()
    return {k: torch.stack([samples[i][k] for i in idx], 1) for k in keys}


def split(seq, n):
    return [seq[i:i + n] for i in range(0, len(seq), n)]


class Stopper:
    """Early stopping as described."""

    def __init__(self, frequency=1, trigger=1, improvement=1e-2):
        self.f, self.k, self.tol = frequency, trigger, improvement
        self.best, self.bad, self.n = math.inf, 0, 0
        self.best_epoch = None
        self.hist = []

    def due(self, epoch):
        return epoch % self.f == 0

    def see(self, epoch, val):
        """Validation loss at an epoch -> (new best, stop)."""
        self.n += 1
        if self.hist:
            self.hist += [self.hist[-1]]*(epoch - len(self.hist))
        self.hist.append(val)
        new = val < self.best
        if self.n > 1:
            good = new and (self.best - val)/abs(self.best) > self.tol
            self.bad = 0 if good else self.bad + 1
        elif not new:
            self.bad += 1
        if new:
            self.best, self.best_epoch = val, epoch
        self.margin = None
        return new, self.bad >= self.k


def converged(hist, tol=1e-2, trigger=5, min_len=0):
    """Parameters convergence criterion on recorded histories."""
    for h in hist.values():
        h = np.asarray(h, float)
        if len(h) <= trigger:
            return False
        d = np.abs(np.diff(h))
        r = np.where(np.abs(h[:-1]) > 1e-8,
                     d/np.where(h[:-1] == 0, 1, np.abs(h[:-1])), d)
        if not np.all(r[-trigger:] < tol):
            return False
    return len(h) > min_len

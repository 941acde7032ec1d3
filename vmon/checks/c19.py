"""C19: data sets keep every sample through every operation."""
import os
import pickle
import shutil
import numpy as np
import torch
from vmon import data as vd
from time_series_data import time_dataset as td
from time_series_data.time_dataset import (TimeSeriesDataset,
                                           TimeSeriesDatasetInMemory)

PROPERTY = 'C19'
RULE = ('random histories of operations (relabel, add, concatenate, sum, '
        'save and load, split, move to another directory, add and remove '
        'samples, convert, batch) on data sets in every container (memory, '
        'sample files, subsets and subsets of subsets of either); a shadow '
        'copy of all samples is compared bit by bit after each operation; '
        'non-trivial: distinct (operation, container, shapes)')
ASSUMPTIONS = ['single process', 'samples of one data set share labels']
REQUIRED_EVENTS = ('relabel', 'add', 'concat', 'sum', 'saveload', 'split',
                   'move', 'move-failed', 'loader', 'reject', 'grow',
                   'shrink', 'swap', 'independent')


def eq(a, b):
    return (type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape
            and bool(torch.equal(a, b)))


def sample(rng, T, shapes, tag):
    s = {}
    for k, n in shapes.items():
        dt = torch.float64 if k.endswith('d') else torch.float32
        x = rng.standard_normal((T, n))*10**rng.uniform(-6, 6)
        x[0, 0] = tag
        s[k] = torch.tensor(x, dtype=dt)
    return s


class Hist:
    """Data set under test with its shadow."""

    def __init__(self, ctx, container, n=None):
        self.ctx, r = ctx, ctx.rng
        self.container = container
        n = n or ctx.size(1, 9, 120, .06)
        self.T = ctx.size(1, 6, 60)
        labels = ['strain_path', 'stress_path', 'tempd', 'x', 'xx']
        k = int(r.integers(2, 6))
        self.shapes = {str(lab): int(r.integers(1, 7))
                       for lab in r.permutation(labels)[:k]}
        if 'stress_path' in self.shapes and 'strain_path' in self.shapes:
            self.shapes['stress_path'] = self.shapes['strain_path']
        base = [sample(r, self.T, self.shapes, i + 1) for i in range(n)]
        self.parent = [dict(s) for s in base]
        self.dir = None
        root = 'files' if 'files' in container else 'memory'
        self.ds, _ = vd.contain(ctx, base, root)
        if root == 'files':
            self.dir = self.ds.get_dataset_directory()
        self.root = self.ds
        self.idx = list(range(n))
        for _ in range(container.count('sub')):
            m = int(r.integers(1, len(self.idx) + 1))
            p = [int(i) for i in r.permutation(len(self.idx))[:m]]
            self.ds = torch.utils.data.Subset(self.ds, p)
            self.idx = [self.idx[i] for i in p]

    @property
    def files(self):
        return self.dir is not None

    def verify(self, op, soft=()):
        """Every sample is what the history says (soft: labels whose removal
        is left open)."""
        ctx = self.ctx
        ctx.event('compare', len(self.idx))
        if not ctx.ok(op, len(self.ds) == len(self.idx),
                      f'{len(self.ds)} samples, expected {len(self.idx)}'):
            return False
        good = True
        for views in ((self.ds, self.idx),
                      (self.root, range(len(self.parent)))):
            for i, j in enumerate(views[1]):
                s, w = views[0][i], self.parent[j]
                for lab in soft:
                    if lab not in s:
                        w.pop(lab, None)
                good &= ctx.ok(
                    op, set(s) == set(w),
                    f'{self.container}: sample {i} has features '
                    f'{sorted(s)}, expected {sorted(w)}')
                for lab in set(s) & set(w):
                    good &= ctx.ok(
                        op, eq(s[lab], w[lab]),
                        f'{self.container}: sample {i} feature {lab} is not '
                        f'the one stored')
        return good

    def labels(self):
        return sorted(set.intersection(
            *[set(self.parent[j]) for j in self.idx]))

    # operations ------------------------------------------------------------
    def relabel(self):
        r, ctx = self.ctx.rng, self.ctx
        labs = self.labels()
        k = int(r.integers(1, len(labs) + 1))
        old = [str(x) for x in r.permutation(labs)[:k]]
        how = int(r.integers(3))
        if how == 0:
            new = [f'n{int(r.integers(1000))}_{i}' for i in range(k)]
        elif how == 1:
            new = old[1:] + old[:1]
            if k > 1:
                ctx.event('swap')
        else:
            new = old[1:] + ['fresh']
        m = dict(zip(old, new))
        m['not_there'] = 'never'
        out = td.change_dataset_features_labels(self.ds, m)
        for j in set(self.idx):
            w = self.parent[j]
            got = {lab: w.pop(lab) for lab in old}
            for lab, v in got.items():
                w[m[lab]] = v
        self.same_ds(out, 'relabel')
        ctx.event('relabel')
        self.verify('relabel')

    def same_ds(self, out, op):
        self.ctx.ok(op, out is self.ds or len(out) == len(self.ds),
                    'another data set returned')
        self.ds = out

    def add(self):
        r = self.ctx.rng
        v = torch.tensor(r.standard_normal(
            (int(r.integers(1, 4)), int(r.integers(1, 5)))),
            dtype=torch.float32)
        lab = str(r.choice(['hidden_features_in', 'x']))
        out = td.add_dataset_feature_init(self.ds, lab, v)
        for j in set(self.idx):
            self.parent[j][lab] = v.clone()
        self.same_ds(out, 'add')
        self.ctx.event('add')
        self.verify('add')

    def _pick(self, same):
        r = self.ctx.rng
        labs = [x for x in self.labels()
                if all(self.parent[j][x].shape[0] == self.T
                       for j in self.idx)]
        if not labs:
            return None
        if same:
            a = str(r.choice(labs))
            sh = {j: self.parent[j][a].shape for j in self.idx}
            labs = [x for x in labs
                    if all(self.parent[j][x].shape == sh[j]
                           for j in self.idx)]
        k = int(r.integers(1, len(labs) + 1))
        return [str(x) for x in r.permutation(labs)[:k]]

    def concat(self):
        r = self.ctx.rng
        labs = self._pick(False)
        if labs is None:
            return
        new = labs[0] if r.random() < .15 else 'features_in'
        rem = bool(r.random() < .4)
        out = td.concatenate_dataset_features(self.ds, new, tuple(labs),
                                              is_remove_features=rem)
        for j in set(self.idx):
            w = self.parent[j]
            w[new] = torch.cat([w[x] for x in labs], dim=1)
            if rem and not self.files:
                for x in labs:
                    if x != new:
                        w.pop(x)
        self.same_ds(out, 'concat')
        self.ctx.event('concat')
        self.verify('concat', soft=[x for x in labs if x != new]
                    if rem and self.files else ())

    def sum(self):
        r, ctx = self.ctx.rng, self.ctx
        labs = self._pick(True)
        if labs is None:
            return
        new = labs[0] if r.random() < .15 else 'features_out'
        rem = bool(r.random() < .4)
        wt = None
        if r.random() < .7:
            wt = {x: float(r.uniform(-3, 3)) for x in labs
                  if r.random() < .7}
        out = td.sum_dataset_features(self.ds, new, tuple(labs),
                                      features_weights=wt,
                                      is_remove_features=rem)
        got = {j: out[i][new] for i, j in enumerate(self.idx)
               if new in out[i]}
        for j in set(self.idx):
            w = self.parent[j]
            terms = [(wt or {}).get(x, 1.)*w[x].double().numpy()
                     for x in labs]
            want = np.sum(terms, 0)
            if ctx.ok('sum', j in got, f'no feature {new} after the sum'):
                ctx.close('sum', got[j].double().numpy(), want, rtol=1e-5,
                          atol=0., scale=float(np.abs(terms).max()) + 1e-300,
                          msg=f'{self.container}: weighted sum of {labs}')
                w[new] = got[j].clone()
            if rem and not self.files:
                for x in labs:
                    if x != new:
                        w.pop(x)
        self.same_ds(out, 'sum')
        ctx.event('sum')
        self.verify('sum', soft=[x for x in labs if x != new]
                    if rem and self.files else ())

    def saveload(self):
        ctx, r = self.ctx, self.ctx.rng
        d = ctx.tmpdir()
        ap = bool(r.random() < .5)
        name = 'ss_paths_dataset'
        path = td.save_dataset(self.ds, name, d, is_append_n_sample=ap)
        want = name + (f'_n{len(self.idx)}' if ap else '') + '.pkl'
        ctx.ok('saveload', os.path.basename(path) == want
               and os.listdir(d) == [want], f'saved as {os.listdir(d)}')
        self.ds = td.load_dataset(path)
        self.root = self.ds
        while isinstance(self.root, torch.utils.data.Subset):
            self.root = self.root.dataset
        ctx.event('saveload')
        self.verify('saveload')
        return path

    def move(self):
        """The sample files are moved to another directory."""
        ctx, r = self.ctx, self.ctx.rng
        if not self.files:
            return
        path = self.saveload()
        before = open(path, 'rb').read()
        files = self.root.get_dataset_sample_files()
        # incomplete directory: refused, stored data set untouched
        if len(files) > 1:
            bad = ctx.tmpdir()
            for f in files[:-1]:
                shutil.copy(f, bad)
            ctx.raises('move-failed',
                       lambda: TimeSeriesDataset.
                       update_dataset_file_internal_directory(path, bad),
                       RuntimeError, 'directory without a sample accepted')
            ctx.ok('move-failed', open(path, 'rb').read() == before,
                   'refused move changed the stored data set')
            ctx.event('move-failed')
        new = os.path.join(ctx.tmpdir(), 'moved data')
        shutil.move(self.dir, new)
        TimeSeriesDataset.update_dataset_file_internal_directory(path, new)
        self.ds = td.load_dataset(path)
        self.root = self.ds
        while isinstance(self.root, torch.utils.data.Subset):
            self.root = self.root.dataset
        self.dir = new
        ctx.same('move', os.path.normpath(self.root.get_dataset_directory()),
                 new, 'directory after the move')
        ctx.event('move')
        self.verify('move')
        # same directory again: nothing changes
        b = open(path, 'rb').read()
        TimeSeriesDataset.update_dataset_file_internal_directory(path, new)
        ctx.ok('move', open(path, 'rb').read() == b,
               'update to the stored directory rewrote the data set')

    def split(self):
        """Subsets partition the data set; go on with one of them."""
        ctx, r = self.ctx, self.ctx.rng
        n = len(self.idx)
        k = int(r.integers(1, min(4, n) + 1))
        q, tries = 20, 1
        if r.random() < .4:
            # fractions that add up to one only up to rounding
            q, tries = int(r.choice([10, 30, 49, 100])), 60
        for _ in range(tries):
            cut = r.multinomial(q, np.ones(k)/k)
            if sum(c/q for c in cut) > 1.:
                ctx.event('split-rounding')
                break
        f = {f's{i}': c/q for i, c in enumerate(cut)}
        sizes = _sizes(n, [c/q for c in cut])
        seed = (int(r.integers(1000))*int(r.random() < .8)
                if r.random() < .6 else None)
        kw = {}
        d = None
        if r.random() < .5:
            d = ctx.tmpdir()
            kw = dict(is_save_subsets=True, subsets_directory=d,
                      subsets_basename='part' if r.random() < .5 else None)
        if min(sizes) < 1:
            ctx.raises('split', lambda: td.split_dataset(
                self.ds, f, seed=seed, **kw), RuntimeError,
                f'empty subset in split {f} of {n} samples accepted')
            ctx.event('split-empty')
            return
        out = td.split_dataset(self.ds, f, seed=seed, **kw)
        ctx.same('split', list(out), list(f), 'subset names')
        parts = {}
        for name, sub in out.items():
            pos = td.get_parent_dataset_indices(sub, range(len(sub)))
            parts[name] = [int(p) for p in pos]
            for q, p in enumerate(pos):
                w = self.parent[self.idx[p]]
                s = sub[q]
                ctx.ok('split', set(s) == set(w) and all(
                    eq(s[x], w[x]) for x in w),
                    f'subset {name}: sample {q} is not parent sample {p}')
        ctx.same('split', [len(v) for v in parts.values()], sizes,
                 f'subset sizes for {f} of {n}')
        ctx.ok('split', sorted(sum(parts.values(), [])) == list(range(n)),
               f'subsets {parts} do not partition {n} samples')
        if seed is not None:
            again = td.split_dataset(self.ds, f, seed=seed)
            ctx.same('split', {k: [int(i) for i in v.indices]
                               for k, v in again.items()}, parts,
                     'same seed, another split')
            ctx.event('split-seed')
        if d is not None:
            base = kw['subsets_basename']
            want = sorted((f'{base}_' if base else '') +
                          f'{name}_n{len(v)}.pkl'
                          for name, v in parts.items())
            ctx.same('split', sorted(os.listdir(d)), want, 'subset files')
            for name, v in parts.items():
                p = os.path.join(d, (f'{base}_' if base else '') +
                                 f'{name}_n{len(v)}.pkl')
                sub = td.load_dataset(p)
                ctx.ok('split', len(sub) == len(v) and all(
                    set(sub[q]) == set(self.parent[self.idx[i]]) and all(
                        eq(sub[q][x], self.parent[self.idx[i]][x])
                        for x in sub[q])
                    for q, i in enumerate(v)),
                    f'saved subset {name} differs')
        ctx.event('split')
        self.verify('split')
        name = str(r.choice(list(parts)))
        if r.random() < .4:
            self.ds = out[name]
            self.idx = [self.idx[p] for p in parts[name]]
            self.container += '+split'

    def loader(self):
        """Each epoch delivers every sample exactly once, time first."""
        ctx, r = self.ctx, self.ctx.rng
        n = len(self.idx)
        labs = self.labels()
        shared = [x for x in labs if len({tuple(self.parent[j][x].shape)
                                          for j in self.idx}) == 1]
        if shared != labs:
            return
        if len({frozenset(self.parent[j]) for j in self.idx}) > 1:
            return
        bs = int(r.integers(1, n + 2))
        sh = bool(r.random() < .5)
        g = torch.Generator().manual_seed(int(r.integers(1000)))
        dl = td.get_time_series_data_loader(self.ds, batch_size=bs,
                                            is_shuffle=sh, generator=g)
        rows = []
        for b in dl:
            ctx.ok('loader', set(b) == set(labs),
                   f'batch features {sorted(b)}, samples {labs}')
            m = {x: b[x].shape[1] for x in b}
            ctx.ok('loader', len(set(m.values())) == 1, f'batch sizes {m}')
            for q in range(min(m.values())):
                rows.append({x: b[x][:, q, :] for x in b})
        ctx.ok('loader', len(rows) == n, f'{len(rows)} of {n} samples')
        left = list(range(n))
        for q, row in enumerate(rows):
            hit = [i for i in left if all(
                eq(row[x], self.parent[self.idx[i]][x]) for x in row)]
            if ctx.ok('loader', bool(hit), 'batched sample not in data set '
                      'or delivered twice'):
                if not sh:
                    ctx.ok('loader', q in hit, 'order changed without '
                           'shuffling')
                    hit = [q] if q in hit else hit
                left.remove(hit[0])
        ctx.event('loader', len(rows))

    def grow(self):
        ctx, r = self.ctx, self.ctx.rng
        if type(self.ds) is not TimeSeriesDatasetInMemory:
            ds = TimeSeriesDatasetInMemory.from_dataset(self.ds)
            # samples are shared with the original, independent containers
            ctx.ok('convert', len(ds) == len(self.ds), 'samples lost')
            self.parent = [dict(self.parent[j]) for j in self.idx]
            self.ds = TimeSeriesDatasetInMemory(
                [dict(ds[i]) for i in range(len(ds))])
            self.root, self.dir = self.ds, None
            self.container = 'memory'
            self.idx = list(range(len(self.parent)))
            ctx.event('convert')
            self.verify('convert')
        k = int(r.integers(1, 4))
        extra = [{x: v*2 for x, v in self.parent[0].items()}
                 for _ in range(k)]
        given = [dict(s) for s in extra]
        self.ds.add_dataset_samples(given)
        self.parent += extra
        self.idx = list(range(len(self.parent)))
        given.clear()
        ctx.event('grow')
        self.verify('grow')
        drop = [int(i) for i in
                r.permutation(len(self.parent))[:len(self.parent) - 1]]
        drop = drop[:int(r.integers(0, len(drop) + 1))]
        self.ds.remove_dataset_samples(list(drop))
        self.parent = [s for i, s in enumerate(self.parent) if i not in drop]
        self.idx = list(range(len(self.parent)))
        ctx.event('shrink')
        self.verify('shrink')
        got = self.ds.get_dataset_samples()
        for s in got:
            for x in s.values():
                x.add_(1.)
        self.verify('copy')

    def reject(self):
        ctx, r = self.ctx, self.ctx.rng
        labs = self.labels()
        bad = (labs[0], 'no_such_feature')
        for f in (td.concatenate_dataset_features, td.sum_dataset_features):
            ctx.raises('reject', lambda: f(self.ds, 'new', bad),
                       RuntimeError, 'unknown feature accepted')
        for v in (np.zeros((1, 2)), torch.zeros(3), torch.zeros(1, 1, 1)):
            ctx.raises('reject', lambda: td.add_dataset_feature_init(
                self.ds, 'new', v), RuntimeError,
                f'feature of shape {v.shape} accepted')
        d = ctx.tmpdir()
        ctx.raises('reject', lambda: td.load_dataset(d + '/none.pkl'),
                   RuntimeError, 'missing file accepted')
        with open(d + '/list.pkl', 'wb') as f:
            pickle.dump([1, 2], f)
        ctx.raises('reject', lambda: td.load_dataset(d + '/list.pkl'),
                   RuntimeError, 'list accepted as data set')
        ctx.raises('reject', lambda: td.save_dataset(
            self.ds, 'a', d + '/none'), RuntimeError,
            'missing directory accepted')
        for f in ({'a': .5, 'b': .6}, {'a': .5, 'b': .3}, {'a': 1.2,
                                                          'b': -.2}):
            ctx.raises('reject', lambda: td.split_dataset(self.ds, f),
                       RuntimeError, f'split {f} accepted')
        if self.files:
            fs = self.root.get_dataset_sample_files()
            ctx.raises('reject', lambda: TimeSeriesDataset(d, list(fs)),
                       RuntimeError, 'samples outside the directory accepted')
            ctx.raises('reject', lambda: TimeSeriesDataset(
                self.dir, list(fs) + [self.dir + '/none.pt']), RuntimeError,
                'missing sample accepted')
        ctx.event('reject')
        self.verify('reject')


def _sizes(n, fr):
    """Subset sizes: floors, remainder dealt one by one from the first."""
    import math
    out = [int(math.floor(n*f)) for f in fr]
    for i in range(n - sum(out)):
        out[i % len(out)] += 1
    return out


OPS = ('relabel', 'add', 'concat', 'sum', 'saveload', 'move', 'split',
       'loader', 'reject')


def history(ctx, container, steps):
    h = Hist(ctx, container)
    h.verify('create')
    for _ in range(steps):
        op = str(ctx.rng.choice(OPS))
        ctx.state(op, h.container, len(h.idx), len(h.labels()))
        getattr(h, op)()
    h.loader()
    h.grow()


def mixed(ctx):
    """Features which are not 2d tensors are left out of batches."""
    r = ctx.rng
    n, T = int(r.integers(1, 6)), int(r.integers(1, 5))
    ss = []
    for i in range(n):
        s = sample(r, T, {'a': 2}, i)
        s['name'] = f'sample {i}'
        s['scalar'] = torch.tensor(1.)
        s['cube'] = torch.zeros(T, 2, 2)
        s['h'] = torch.full((1, 3), float(i))
        ss.append(s)
    ds, idx = vd.contain(ctx, ss, str(r.choice(['memory', 'files',
                                                'subset'])))
    q = 0
    for b in td.get_time_series_data_loader(ds, batch_size=2):
        ctx.same('mixed', sorted(b), ['a', 'h'], 'batched features')
        for c in range(b['a'].shape[1]):
            ctx.ok('mixed', eq(b['a'][:, c], ss[idx[q]]['a'])
                   and eq(b['h'][:, c], ss[idx[q]]['h']),
                   f'sample {q} differs in batch')
            q += 1
    ctx.ok('mixed', q == len(idx), f'{q} of {len(idx)} samples')
    ctx.event('mixed')
    ctx.state('mixed', n, T)


def independent(ctx, container):
    """Copies stay apart: the caller's list, a copied split."""
    r = ctx.rng
    # the list handed over belongs to the caller
    base = [sample(r, 3, {'a': 2}, i + 1) for i in range(4)]
    lst = list(base)
    ds = TimeSeriesDatasetInMemory(lst)
    extra = [sample(r, 3, {'a': 2}, 9)]
    ds.add_dataset_samples(extra)
    ctx.ok('independent', len(lst) == 4 and len(ds) == 5 and len(extra) == 1,
           f'growing the data set changed the list it was built from '
           f'({len(lst)} entries)')
    ds.remove_dataset_samples([0])
    lst.append(sample(r, 3, {'a': 2}, 10))
    lst[1] = lst[0]
    ctx.ok('independent', len(ds) == 4 and eq(ds[0]['a'], base[1]['a']),
           'changing the list changed the data set')
    # a split of a copy
    h = Hist(ctx, container, n=6)
    n = len(h.idx)
    if n < 2 or h.files:
        return
    out = td.split_dataset(h.ds, {'a': .5, 'b': .5}, is_copy_dataset=True,
                           seed=1)
    for sub in out.values():
        td.change_dataset_features_labels(
            sub, {x: x + '_new' for x in h.labels()})
        td.add_dataset_feature_init(sub, 'extra', torch.zeros(1, 2))
        for q in range(len(sub)):
            for v in sub[q].values():
                v.add_(1.)
    h.verify('independent')
    # and the other way around
    out = td.split_dataset(h.ds, {'a': .5, 'b': .5}, is_copy_dataset=True,
                           seed=2)
    want = {k: [{x: v.clone() for x, v in sub[q].items()}
                for q in range(len(sub))] for k, sub in out.items()}
    for i in range(n):
        for v in h.ds[i].values():
            v.mul_(3.)
    td.add_dataset_feature_init(h.ds, 'late', torch.zeros(1, 2))
    for k, sub in out.items():
        for q in range(len(sub)):
            ctx.ok('independent', set(sub[q]) == set(want[k][q]) and all(
                eq(sub[q][x], want[k][q][x]) for x in want[k][q]),
                f'{container}: copied subset {k} follows the original')
    ctx.event('independent')
    ctx.state('independent', container, n)


CONTAINERS = ('memory', 'files', 'memory-sub', 'files-sub', 'memory-sub-sub',
              'files-sub-sub')


def cases(tier):
    k, steps = (200, 14) if tier == 'quick' else (900, 30)
    out = []
    for c in CONTAINERS:
        out += [('history', dict(container=c, steps=steps))]*k
    out += [('mixed', {})]*(20 if tier == 'quick' else 200)
    for c in CONTAINERS:
        out += [('independent', dict(container=c))]*(4 if tier == 'quick'
                                                     else 30)
    return out

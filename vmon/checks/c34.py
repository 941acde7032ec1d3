"""C34: the services every workflow stands on (directories, file names,
searches, summaries, conversions, losses, schedules, load factors) keep what
they are given and return what they promise."""
import copy
import math
import os
import pickle
import re
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import torch
from vmon.checks.c30 import Record, check_lines
from data_generation.spdg.patch import FiniteElementPatch
from ioput import iostandard as io
from material_model_finder.utilities import torch_parameters as tp
from miscellaneous.other.element_paths_indices import \
    get_element_local_paths_idx
from model_architectures.procedures import model_summary as summ
from simulators.links.utilities import links_plot_tfact as tf
from user_scripts.synthetic_data import gen_random_specimen as gs
from utilities import data_loaders, loss_functions, optimizers
from utilities import type_conversion as tc

PROPERTY = 'C34'
RULE = ('random directory trees, names, summaries, nested dictionaries, '
        'predictions, schedules, modules and load factor tables go through '
        'the services; directory snapshots, read-back text, deep copies and '
        'formulas in numpy decide; non-trivial: distinct (service, options, '
        'sizes)')
ASSUMPTIONS = ['local file system', 'CPU device only', 'no LaTeX '
               'installation', 'the Links program is not run']
REQUIRED_EVENTS = ('directory', 'overwritten', 'numbered', 'file-name',
                   'search-found', 'search-none', 'summary', 'conversion',
                   'loss', 'schedule', 'parameters', 'load-factors',
                   'load-file', 'worker-seed', 'specimen', 'refused')


def tree(rng, d, depth=2):
    """Random files below a directory."""
    os.makedirs(d, exist_ok=True)
    for i in range(int(rng.integers(0, 4))):
        with open(os.path.join(d, f'f{i}.dat'), 'w') as h:
            h.write(str(rng.integers(1 << 30)))
    if depth:
        for i in range(int(rng.integers(0, 3))):
            tree(rng, os.path.join(d, f's{i}'), depth - 1)


def snap(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for q in ds:
            out[os.path.relpath(os.path.join(r, q), d)] = None
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = h.read()
    return out


def directories(ctx):
    """A directory is new, and nothing else changes."""
    rng = ctx.rng
    base = ctx.tmpdir()
    names = ['run', 'a_1', 'x.y', 'deep/er', 'run_1', 'run_2']
    for _ in range(int(rng.integers(2, 14))):
        name = str(rng.choice(names))
        p = os.path.join(base, name)
        if rng.random() < .2:
            p += '/'
        over = bool(rng.random() < .3)
        before = snap(base)
        there = os.path.isdir(p)
        got = io.make_directory(p, is_overwrite=over)
        ctx.ok('directory', os.path.isdir(got) and not os.listdir(got)
               and os.path.isabs(got), f'{name}: {got}')
        after = snap(base)
        rel = os.path.relpath(got, base)
        new = {q for q in after if q not in before}
        ctx.ok('directory', got == os.path.abspath(p)
               if over or not there else
               re.fullmatch(re.escape(os.path.abspath(p)) + r'_[0-9]+', got)
               is not None, f'{name}: made {got}')
        ctx.ok('directory', there and over or rel in new,
               f'{name} {over}: {rel} was there')
        # everything else is kept
        inside = rel + os.sep
        for q, v in before.items():
            if over and there and q.startswith(inside):
                ctx.ok('overwritten', q not in after, f'{q} left')
                ctx.event('overwritten')
            else:
                ctx.ok('kept', q in after and after[q] == v,
                       f'{q} lost by making {name} over={over}')
        if there and not over:
            ctx.event('numbered')
        tree(rng, got)
        ctx.event('directory')
    ctx.state('directory', len(snap(base)))


def file_names(ctx):
    rng = ctx.rng
    base = ctx.tmpdir()
    stem = str(rng.choice(['data', 'a.b', 'x_1', 'm-2']))
    ext = str(rng.choice(['.dat', '.pkl', '']))
    n = int(rng.integers(1, 13))
    seen = set()
    for i in range(n):
        if rng.random() < .2:
            q = os.path.join(base, f'{stem}_{int(rng.integers(1, 9))}{ext}')
            open(q, 'a').close()
            seen.add(q)
        before = snap(base)
        p = os.path.join(base, stem + ext)
        got = io.new_file_path_with_int(p)
        r, e = os.path.splitext(p)
        ctx.ok('file-name', got not in seen and not os.path.exists(got),
               f'{got} is there')
        ctx.ok('file-name', got == p if p not in seen else re.fullmatch(
            re.escape(r) + '_[0-9]+' + re.escape(e), got) is not None,
            f'{p}: {got}')
        ctx.same('kept', snap(base), before, 'files')
        open(got, 'w').close()
        seen.add(got)
        ctx.event('file-name')
    ctx.state('file-name', stem, ext, n)


def search(ctx):
    rng = ctx.rng
    base = ctx.tmpdir()
    n = int(rng.integers(0, 9))
    pool = [f'set_n{i}.pkl' for i in range(30)] + \
        [f'old_set_n{i}.pkl' for i in range(9)] + ['set.pkl', 'notes.txt']
    files = [str(x) for x in rng.choice(pool, n, replace=False)]
    for f in files:
        open(os.path.join(base, f), 'w').close()
    pats = [r'^set_n[0-9]+\.pkl$', r'^set\.pkl$', r'^notes', r'^old_set',
            r'^nothing$', r'n[0-9]\.pkl$', r'_set_']
    use = tuple(str(x) for x in rng.permutation(pats)[
        :int(rng.integers(1, 4))])
    arg = use[0] if rng.random() < .3 else use
    use = (arg,) if isinstance(arg, str) else use
    found, path = io.find_unique_file_with_regex(base, arg)
    fits = [[f for f in files if re.search(p, f)] for p in use]
    first = next((q for q in fits if q), None)
    ctx.same('search', bool(found), first is not None, f'{use} in {files}')
    if first is None:
        ctx.ok('search', path is None, f'{use} in {files}: {path}')
        ctx.event('search-none')
    else:
        ctx.ok('search', path is not None and os.path.isfile(path)
               and os.path.basename(path) in first
               and os.path.samefile(os.path.dirname(path), base),
               f'{use} in {files}: {path}')
        ctx.event('search-found')
    for bad in ((os.path.join(base, 'none'), 'a'), (base, 3),
                (base, ('a', 3)), (base, '('), (base, ('a', '['))):
        ctx.raises('refused', lambda: io.find_unique_file_with_regex(*bad),
                   RuntimeError, str(bad[1]))
    ctx.event('refused')
    ctx.state('search', n, len(use), first is None)


def value(rng, depth=0):
    k = int(rng.integers(0, 6 if depth < 2 else 5))
    if k == 5:
        return {f'k{i}': value(rng, depth + 1)
                for i in range(int(rng.integers(1, 4)))}
    return [None, True, float(rng.standard_normal()),
            int(rng.integers(-99, 99)), 'text']\
        [k] if rng.random() < .8 else (1, 2.5)


def summary(ctx):
    rng = ctx.rng
    d = ctx.tmpdir()
    title = str(rng.choice(['Summary', 'Model 3', ''])) if \
        rng.random() < .7 else None
    kw = {f'item{i}': value(rng) for i in range(int(rng.integers(0, 9)))}
    if rng.random() < .3:
        kw['array'] = rng.integers(0, 9, (2, 3))
    if rng.random() < .3:
        kw['lines'] = 'first line\nsecond line'
    name = str(rng.choice(['summary', 'other']))
    before = copy.deepcopy(kw)
    with open(os.path.join(d, 'kept.dat'), 'w') as h:
        h.write('x')
    for _ in range(2):
        io.write_summary_file(d, filename=name, summary_title=title, **kw)
    ctx.same('summary', sorted(os.listdir(d)),
             sorted(['kept.dat', name + '.dat']), 'files')
    with open(os.path.join(d, name + '.dat')) as h:
        t = h.read()
    if title:
        ctx.ok('summary', t.startswith(title + '\n'), f'title of {t!r}')
    pos = 0
    flat = []

    # dictionaries below the third level are written as they print
    def cut(q, depth):
        for k, v in q.items():
            flat.append((k, v if depth == 2 or not isinstance(v, dict)
                         else None))
            if isinstance(v, dict) and depth < 2:
                cut(v, depth + 1)
    cut(kw, 0)
    for k, v in flat:
        m = re.compile(f'"{k}":(.*?)(?=\n *"|\\Z)', re.S).search(t, pos)
        ctx.ok('summary', m is not None, f'{k} not in {t[pos:]!r}')
        if m is None:
            break
        pos = m.end() if v is not None and not isinstance(v, dict) else \
            m.start() + 1
        if v is not None and not isinstance(v, dict):
            ctx.ok('summary', str(v) in m.group(1),
                   f'{k}: {m.group(1)!r}, expected {v}')
    ctx.same('summary', t.count('":'), len(flat), f'items of {t!r}')
    ctx.same('kept', str(kw), str(before), 'summary data')
    ctx.raises('refused', lambda: io.write_summary_file(
        os.path.join(d, 'none')), Exception, 'directory')
    ctx.event('summary')
    ctx.state('summary', len(kw), title is None)


def nested(rng, depth=0):
    out = {}
    for i in range(int(rng.integers(1, 6))):
        k = int(rng.integers(0, 9 if depth < 3 else 8))
        out[f'k{i}'] = [
            lambda: float(rng.standard_normal()),
            lambda: int(rng.integers(9)), lambda: bool(rng.integers(2)),
            lambda: torch.tensor(rng.standard_normal(3)),
            lambda: torch.tensor(rng.standard_normal((2, 2)),
                                 dtype=torch.float32),
            lambda: torch.tensor(rng.integers(0, 9, 4)),
            lambda: 'text', lambda: np.array(rng.standard_normal(2)),
            lambda: nested(rng, depth + 1)][k]()
    return out


def equal(a, b):
    """Same structure, types and values."""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and \
            all(equal(a[k], b[k]) for k in a)
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.dtype == b.dtype and \
            a.shape == b.shape and torch.equal(a, b)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and \
            np.array_equal(a, b)
    return type(a) is type(b) and a == b


def conversion(ctx):
    rng = ctx.rng
    torch.set_default_dtype(torch.float64 if rng.random() < .5
                            else torch.float32)
    d = nested(rng)

    def want(q, kind):
        if isinstance(q, dict):
            return {k: want(v, kind) for k, v in q.items()}
        if kind == 'tensor':
            return torch.tensor(q) if type(q) in (int, float, bool) else q
        if isinstance(q, torch.Tensor) and q.is_floating_point():
            return q.to(kind)
        return q

    def inner(q):
        return [id(q)] + [i for v in q.values() if isinstance(v, dict)
                          for i in inner(v)]
    for kind, f, one in (
            ('tensor', tc.convert_dict_to_tensor, None),
            (torch.float32, tc.convert_dict_to_float32,
             tc.convert_tensor_to_float32),
            (torch.float64, tc.convert_dict_to_float64,
             tc.convert_tensor_to_float64)):
        w = want(d, kind)
        c = copy.deepcopy(d)
        ids = inner(c)
        got = f(c, is_inplace=False)
        ctx.ok('conversion', equal(got, w), f'{kind}: {got}, expected {w}')
        ctx.ok('conversion-kept', equal(c, d), f'{kind}: input changed')
        ctx.ok('conversion-kept', not set(inner(got)) & set(ids),
               f'{kind}: dictionary shared')
        for arg in ({}, {'is_inplace': True}):
            c = copy.deepcopy(d)
            ids = inner(c)
            got = f(c, **arg)
            ctx.ok('conversion-in-place', equal(got, w) and equal(c, w)
                   and inner(got) == ids, f'{kind}: {got}, expected {w}')
        if one is not None:
            for v in [v for v in d.values() if not isinstance(v, dict)] \
                    + [torch.ones(2, dtype=torch.float16)]:
                k = copy.deepcopy(v)
                ctx.ok('conversion', equal(one(v), want(v, kind))
                       and equal(v, k), f'{kind} of {v}')
    ctx.event('conversion')
    ctx.state('conversion', len(d), str(torch.get_default_dtype()))


def losses(ctx, how):
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    shape = tuple(int(x) for x in rng.integers(1, 6, int(
        rng.integers(1, 4))))
    z = rng.standard_normal(shape)*10**rng.uniform(-7, 3, shape)
    z[rng.random(shape) < .2] = 0.
    y = z + rng.standard_normal(shape)*10**rng.uniform(-7, 1, shape)
    kw = {}
    small = 1e-5
    if rng.random() < .6:
        kw['small'] = small = float(10**rng.uniform(-8, 0))
    if how == 'default':
        f, mode = loss_functions.get_pytorch_loss('mre', **kw), 'absolute'
    elif how == 'mse':
        f = loss_functions.get_pytorch_loss('mse')
    else:
        f = loss_functions.get_pytorch_loss('mre', zero_handling=how, **kw)
        mode = how
    e = abs(y - z)
    if how == 'mse':
        w = (e**2).mean()
    else:
        a = abs(z)
        den = {'absolute': np.where(a < small, 1., a),
               'clip': np.maximum(a, small), 'regularizer': a + small}[mode]
        w = (e/den).mean()
    ty = torch.tensor(y, requires_grad=True)
    tz = torch.tensor(z)
    got = f(ty, tz)
    ctx.same('loss', got.dim(), 0, how)
    ctx.close('loss', float(got), w, rtol=1e-9, atol=1e-300, msg=how)
    got.backward()
    g = 2*(y - z)/y.size if how == 'mse' else np.sign(y - z)/den/y.size
    ctx.close('loss-gradient', ty.grad.numpy(), g, rtol=1e-9,
              scale=abs(g).max() + 1e-300, msg=how)
    ctx.ok('kept', np.array_equal(tz.numpy(), z), 'target changed')
    ctx.raises('refused', lambda: loss_functions.get_pytorch_loss('mape'),
               RuntimeError, 'unknown loss')
    ctx.raises('refused', lambda: loss_functions.get_pytorch_loss(
        'mre', zero_handling='other'), RuntimeError, 'unknown handling')
    ctx.event('loss')
    ctx.state('loss', how, len(shape), small == 1e-5)


def schedule(ctx, kind):
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)
    lr = float(10**rng.uniform(-4, 0))
    p = torch.nn.Parameter(torch.tensor(rng.standard_normal(3)))
    kw = {'weight_decay': .1} if rng.random() < .3 else {}
    opt = optimizers.get_pytorch_optimizer('adam', [p], lr=lr, **kw)
    ctx.ok('schedule', type(opt) is torch.optim.Adam
           and opt.param_groups[0]['lr'] == lr
           and opt.param_groups[0]['weight_decay'] == kw.get(
               'weight_decay', 0) and opt.param_groups[0]['params'][0] is p,
           'optimizer')
    n = int(rng.integers(1, 30))
    if kind == 'steplr':
        s, g = int(rng.integers(1, 7)), float(rng.uniform(.1, .99))
        a = dict(step_size=s, gamma=g)
        w = [lr*g**(i//s) for i in range(n + 1)]
    elif kind == 'explr':
        g = float(rng.uniform(.5, .99))
        a = dict(gamma=g)
        w = [lr*g**i for i in range(n + 1)]
    else:
        b, e, t = float(rng.uniform(.1, 1)), float(rng.uniform(.01, 1)), \
            int(rng.integers(1, 20))
        a = dict(start_factor=b, end_factor=e, total_iters=t)
        w = [lr*(b + (e - b)*min(i, t)/t) for i in range(n + 1)]
    sch = optimizers.get_learning_rate_scheduler(opt, kind, **a)
    got = [opt.param_groups[0]['lr']]
    for _ in range(n):
        opt.step()
        sch.step()
        got.append(opt.param_groups[0]['lr'])
    ctx.close('schedule', got, w, rtol=1e-9, msg=f'{kind} {a}')
    ctx.raises('refused', lambda: optimizers.get_learning_rate_scheduler(
        opt, 'other'), RuntimeError, 'unknown schedule')
    ctx.raises('refused', lambda: optimizers.get_pytorch_optimizer(
        'other', [p]), RuntimeError, 'unknown optimizer')
    for k in ('steplr', 'explr'):
        ctx.raises('refused', lambda: optimizers.get_learning_rate_scheduler(
            opt, k), RuntimeError, 'incomplete schedule')
    ctx.event('schedule')
    ctx.state('schedule', kind, n)


def parameters(ctx):
    """Numbers and dictionaries of parameters of modules."""
    rng = ctx.rng
    torch.set_default_dtype(torch.float64)

    class Net(torch.nn.Module):
        def __init__(self, depth):
            super().__init__()
            for i in range(int(rng.integers(0, 4))):
                self.register_parameter(f'p{i}', torch.nn.Parameter(
                    torch.tensor(rng.standard_normal(
                        tuple(rng.integers(1, 4, int(rng.integers(0, 3)))))),
                    requires_grad=bool(rng.random() < .7)))
            if depth:
                for i in range(int(rng.integers(0, 3))):
                    setattr(self, f'm{i}', Net(depth - 1))
                self.lin = torch.nn.Linear(2, 3)
                self.dct = torch.nn.ParameterDict(
                    {'E': torch.nn.Parameter(torch.tensor(2.))})
            self.register_buffer('b', torch.ones(7))
    m = Net(2)
    named = list(m.named_parameters())
    tot = sum(math.prod(p.shape) for _, p in named)
    tr = sum(math.prod(p.shape) for _, p in named if p.requires_grad)
    ctx.same('parameters', tuple(summ.get_n_model_parameters(m)),
             (tot, tr, tot - tr), 'numbers')
    d = tp.get_model_parameter_dict(m)
    leaves = {}

    def walk(q, pre):
        for k, v in q.items():
            if isinstance(v, torch.nn.ParameterDict):
                walk(v, pre + [k])
            else:
                leaves['.'.join(pre + [k])] = v
    walk(d, [])
    ctx.same('parameters', sorted(leaves), sorted(n for n, _ in named),
             'names')
    for n, p in named:
        ctx.ok('parameters', leaves.get(n) is p, f'{n}: not the parameter')
    ctx.raises('refused', lambda: summ.get_n_model_parameters({}),
               RuntimeError, 'not a module')
    # paths of an element
    g, e = int(rng.integers(1, 28)), int(rng.integers(1, 300))
    ctx.same('element-paths', tuple(get_element_local_paths_idx(e, g)),
             tuple(g*(e - 1) + i for i in range(g)), f'{e} {g}')
    # workers draw from the seed they are given
    s = int(rng.integers(1 << 40))
    out = []
    for _ in range(2):
        torch.manual_seed(s)
        data_loaders.seed_worker(int(rng.integers(9)))
        out.append(np.random.random(3))
    torch.manual_seed(s + 1)
    data_loaders.seed_worker(0)
    ctx.ok('worker-seed', np.array_equal(*out), 'not reproducible')
    ctx.ok('worker-seed', not np.array_equal(out[0], np.random.random(3)),
           'seed ignored')
    ctx.event('worker-seed')
    ctx.event('parameters', len(named))
    ctx.state('parameters', len(named))


def load_factors(ctx, kind):
    rng = ctx.rng
    d = ctx.tmpdir()
    n = ctx.size(1, 12, 300, .1)
    head = ['*TITLE\n', 'some specimen\n', '\n', '*SOLUTION_ALGORITHM 2\n',
            '\n'][:int(rng.integers(0, 6))]
    if kind == 'uniform':
        key = str(rng.choice(['Number_of_Increments',
                              'NUMBER_OF_INCREMENTS']))
        lines = head + [f'{key} {n}\n', '\nCONVERGENCE_TOLERANCE\n1e-6\n']
        df = np.full(n, 1/n)
    else:
        df = rng.standard_normal(n)*10**rng.uniform(-3, 0)
        lead = '1 ' if kind == 'four' else ''
        lines = head + [f'INCREMENTS {n}\n'] + [
            f'{lead}{v:.8e} 1e-6 20\n' for v in df]
        df = np.array([float(f'{v:.8e}') for v in df])
        lines += [['\n', '7. 8. 9.\n'], ['*NEXT 3\n', '7. 8. 9.\n'], []][
            int(rng.integers(3))]
    p = os.path.join(d, 'spec.dat')
    with open(p, 'w') as h:
        h.writelines(lines)
    before = ''.join(lines)
    with Record() as r:
        tf.plot_links_tfact_hist(p, is_save_fig=bool(rng.random() < .1))
    want = np.column_stack([np.linspace(0, 1, n + 1),
                            np.concatenate([[0.], np.cumsum(df)])])
    tag = f'load factors {kind} {n}'
    ctx.same('figures', len(r.figs), 1, tag)
    check_lines(ctx, r.figs[0].axes[0], [want], tag, 'load-factors')
    with open(os.path.join(d, 'tfact_hist.dat')) as h:
        t = h.read()
    m = re.search(r'increments = (\d+)', t)
    ctx.ok('load-file', m and int(m.group(1)) == n, f'{tag}: number')
    m = re.search(r'accumulated load factor = (\S+)', t)
    ctx.ok('load-file', m is not None, tag)
    if m:
        ctx.close('load-file', float(m.group(1)), abs(df).sum(), rtol=1e-9,
                  atol=1e-300, msg=f'{tag}: accumulated')
    m = re.search(r'dfact_hist_abs = \[(.*?)\]', t, re.S)
    ctx.ok('load-file', m is not None, tag)
    if m:
        v = [float(q) for q in re.findall(
            r'(?<![\w.])[-+]?\d+\.?\d*(?:e[-+]?\d+)?', m.group(1))]
        ctx.close('load-file', v, np.concatenate([[0.], abs(df)]),
                  rtol=1e-9, msg=f'{tag}: increments')
    rows = [[float(q) for q in l.split()] for l in t.split('\n')
            if re.fullmatch(r'\s*[-+]?\d\.\d+e\S+\s+[-+]?\d\.\d+e\S+\s*', l)]
    ctx.close('load-file', np.array(rows), want, rtol=1e-7,
              scale=abs(want).max(), msg=f'{tag}: history')
    with open(p) as h:
        ctx.same('kept', h.read(), before, 'input file')
    s = float(rng.standard_normal())
    w2 = want.copy()
    got = tf.scale_tfact_hist(w2, s)
    ctx.close('scaled', got, np.column_stack([want[:, 0], s*want[:, 1]]),
              rtol=1e-12, msg=tag)
    ctx.ok('kept', np.array_equal(w2, want), 'scaled history changed')
    ctx.close('scaled', tf.scale_tfact_hist(w2), want, rtol=1e-14, msg=tag)
    for bad in (want.tolist(), want[:, :1], np.hstack((want, want))):
        ctx.raises('refused', lambda: tf.scale_tfact_hist(bad), Exception,
                   'history')
    ctx.raises('refused', lambda: tf.plot_links_tfact_hist(
        os.path.join(d, 'none.dat')), RuntimeError, 'no file')
    with open(p, 'w') as h:
        h.write(f'INCREMENTS 2\n{"1. "*int(rng.choice([1, 2, 5]))}\n')
    with Record():
        ctx.raises('refused', lambda: tf.plot_links_tfact_hist(p),
                   Exception, 'increment of another length')
    # the table the simulator itself writes
    e = ctx.tmpdir()
    with Record() as r:
        tf.gen_links_loading_incrementation_file(e)
    with open(os.path.join(e, 'loading_incrementation.dat')) as h:
        own = [l.split() for l in h.read().split('\n') if l.strip()]
    n = int(own[0][1])
    f = np.array([float(q[len(q) == 4]) for q in own[1:n + 1]])
    check_lines(ctx, r.figs[0].axes[0], [np.column_stack(
        [np.linspace(0, 1, n + 1), np.concatenate([[0.], np.cumsum(f)])])],
        'own table', 'load-factors')
    ctx.raises('refused', lambda: tf.gen_links_loading_incrementation_file(
        os.path.join(e, 'none')), RuntimeError, 'no directory')
    ctx.event('load-factors')
    ctx.event('load-file')
    ctx.state('load-factors', kind, n > 12)
    plt.close('all')


def specimen(ctx):
    """Random specimens on disk; the Links program is a stand-in."""
    rng = ctx.rng
    np.random.seed(int(rng.integers(1 << 31)))
    base = ctx.tmpdir()
    tree(rng, os.path.join(base, 'other'))
    n = int(rng.integers(1, 4))
    el = tuple(int(x) for x in rng.integers(1, 4, 3))
    calls = []
    old = gs.perform_links_simulation, gs.set_patch_mesh_params
    draw = FiniteElementPatch.plot_deformed_patch

    def plot(self, *a, save_directory=None, **k):
        # stand-in, drawing needs LaTeX
        with open(os.path.join(save_directory, 'plot'), 'w') as h:
            h.write('x')
    FiniteElementPatch.plot_deformed_patch = plot

    def run(d, patch, mat):
        calls.append((d, patch, mat))
        with open(os.path.join(d, 'out.dat'), 'w') as h:
            h.write('x')
        return os.path.join(d, 'in.dat'), os.path.join(d, f'o{len(calls)}')
    gs.perform_links_simulation = run
    gs.set_patch_mesh_params = lambda k: {
        'elem_type': 'SHEXA8', 'n_elems_per_dim': el}
    for q in range(n):
        # a former specimen
        if rng.random() < .5:
            tree(rng, os.path.join(base, f'p_{q}' if n > 1 else 'p'))
    keep = snap(os.path.join(base, 'other'))
    dirs = [os.path.join(base, f'p_{q}' if n > 1 else 'p')
            for q in range(n)]
    try:
        with Record():
            a = gs.generate_random_patches(base, 'p', n,
                                           is_save_material_patch=True)
            first, calls = calls, []
            for q in dirs:
                ctx.same('specimen', sorted(os.listdir(q)),
                         ['material_patch', 'plots', 'simulations'], q)
            with open(os.path.join(dirs[0], 'material_patch', 'note'),
                      'w') as h:
                h.write('x')
            stored = [snap(os.path.join(q, 'material_patch')) for q in dirs]
            b = gs.generate_random_patches(base, 'p', n,
                                           is_load_material_patch=True)
            second = list(calls)
            for q, s in zip(dirs, stored):
                ctx.ok('specimen-kept', snap(os.path.join(
                    q, 'material_patch')) == s, f'{q}: loaded patch changed')
            os.remove(os.path.join(dirs[-1], 'material_patch',
                                   'material_patch.pkl'))
            ctx.raises('refused', lambda: gs.generate_random_patches(
                base, 'p', n, is_load_material_patch=True), RuntimeError,
                'patch file missing')
    finally:
        gs.perform_links_simulation, gs.set_patch_mesh_params = old
        FiniteElementPatch.plot_deformed_patch = draw
    ctx.same('kept', snap(os.path.join(base, 'other')), keep, 'neighbour')
    for res in (a, b):
        ctx.same('specimen', list(res[0]), [str(q) for q in range(n)], 'ids')
        ctx.same('specimen', list(res[1]), [str(q) for q in range(n)], 'ids')
        for q in range(n):
            ctx.same('specimen', res[0][str(q)], os.path.join(
                dirs[q], 'simulations', 'in.dat'), 'input file')
    ctx.same('specimen', len(first), n, 'simulations')
    ctx.same('specimen', len(second), n, 'simulations')
    for q in range(n):
        for (d, patch, mat) in (first[q], second[q]):
            ctx.same('specimen', d, os.path.join(dirs[q], 'simulations'),
                     'directory')
            ctx.same('specimen', tuple(patch.get_n_elems_per_dim()), el,
                     'mesh')
            m = mat['mesh_elem_material']
            ctx.ok('specimen', tuple(m.shape) == el and
                   {str(v) for v in np.unique(m)}
                   <= set(mat['mat_phases_descriptors']), 'materials')
        x, y = (c[q][1].get_patch_attributes() for c in (first, second))
        ctx.ok('specimen-loaded', pickle.dumps(x) == pickle.dumps(y)
               or same_attr(x, y), f'patch {q} differs once loaded')
    if n > 1:
        ctx.ok('specimen-random', not same_attr(
            first[0][1].get_patch_attributes(),
            first[1][1].get_patch_attributes()), 'equal patches')
    ctx.raises('refused', lambda: gs.set_material_patch_dir(
        'p', os.path.join(base, 'none')), RuntimeError, 'parent')
    ctx.event('specimen', n)
    ctx.state('specimen', n, el)


def same_attr(x, y):
    if isinstance(x, dict):
        return isinstance(y, dict) and list(x) == list(y) and \
            all(same_attr(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(map(same_attr, x, y))
    if isinstance(x, np.ndarray):
        return np.array_equal(x, y)
    return x == y


def cases(tier):
    n = 60 if tier == 'quick' else 600
    out = []
    for i in range(n):
        out += [('directories', {}), ('file_names', {}), ('search', {}),
                ('summary', {}), ('conversion', {}), ('parameters', {})]
        out += [('losses', dict(how=h)) for h in (
            'default', 'mse', 'absolute', 'clip', 'regularizer')]
        out += [('schedule', dict(kind=k)) for k in (
            'steplr', 'explr', 'linlr')]
        out += [('load_factors', dict(kind=k)) for k in (
            'uniform', 'three', 'four')]
        if i % 3 == 0:
            out.append(('specimen', {}))
    return out

"""C20: a saved model state is the state that is loaded, and only superseded
state files disappear."""
import os
import numpy as np
import torch
from model_architectures.procedures import model_state_files as sf
from model_architectures.procedures import model_training as mt
from model_architectures.rc_base_model.train import training as rct
from model_architectures.hybrid_base_model.train import training as hyt

PROPERTY = 'C20'
RULE = ('random histories of saves and loads of several models sharing one '
        'directory (names that contain one another or regular expression '
        'characters, foreign files that look like state files) against a '
        'shadow of the directory: after every operation the listing, the '
        'loaded parameters and the returned epoch are compared; non-trivial: '
        'distinct (operation, state type, epoch known, outcome)')
ASSUMPTIONS = ['one process writes to the directory']
REQUIRED_EVENTS = ('save', 'save-training', 'load', 'load-failed', 'best',
                   'posterior', 'foreign', 'no-epoch', 'record',
                   'ambiguous')
NAMES = ('gru', 'gru2', 'gru_opt', 'gru_model', 'xgru', 'gru.v1', 'gruXv1',
         'rc+nn', 'model(a)', 'm[0]', 'finder-x')
FOREIGN = ('{}-3.pt.bak', '{}-best.pt.old', 'x{}-9.pt', '{}-7.ptx',
           '{}-abc.pt', '{}_optim-4.pt.bak', 'notes.txt', '{}x-12-best.pt',
           '{}-5-best.pt~', '{}-8-init.pt', '{}5-best.pt')


def params(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}


def same(a, b):
    return set(a) == set(b) and all(
        a[k].dtype == b[k].dtype and torch.equal(a[k], b[k]) for k in a)


class Dir:
    def __init__(self, ctx):
        self.ctx, r = ctx, ctx.rng
        self.d = ctx.tmpdir()
        self.models = {}
        for name in r.permutation(NAMES)[:int(r.integers(1, 5))]:
            m = torch.nn.Sequential(torch.nn.Linear(2, 3),
                                    torch.nn.Linear(3, 1))
            if r.random() < .5:
                m = m.double()
            m.model_directory, m.model_name = self.d, str(name)
            self.models[str(name)] = m
        self.optim = {n: torch.optim.Adam(m.parameters(), lr=.01)
                      for n, m in self.models.items()}
        self.files = {}
        for f in r.permutation(FOREIGN)[:int(r.integers(0, 6))]:
            f = str(f).format(str(r.choice(list(self.models))))
            if self.owner(f):
                continue
            with open(os.path.join(self.d, f), 'w') as fh:
                fh.write('foreign')
            self.files[f] = 'foreign'
            ctx.event('foreign')

    def owner(self, f):
        """True if f is a file one of the models may write."""
        import re
        return any(re.fullmatch(
            re.escape(n) + r'(_optim)?(-init|(-\d+)?(-best)?)?\.pt', f)
            for n in self.models)

    def train(self, n):
        m, o = self.models[n], self.optim[n]
        x = torch.tensor(self.ctx.rng.standard_normal((3, 2)),
                         dtype=next(m.parameters()).dtype)
        for _ in range(int(self.ctx.rng.integers(1, 3))):
            o.zero_grad()
            m(x).pow(2).sum().backward()
            o.step()

    def listing(self, op):
        return self.ctx.ok(
            'files', set(os.listdir(self.d)) == set(self.files),
            f'after {op}: missing '
            f'{sorted(set(self.files) - set(os.listdir(self.d)))}, extra '
            f'{sorted(set(os.listdir(self.d)) - set(self.files))}')

    def drop(self, prefix, epoch):
        import re
        gone = [f for f in self.files
                if (q := re.fullmatch(re.escape(prefix) + r'-(\d+)\.pt', f))
                and int(q.group(1)) > epoch]
        for f in gone:
            del self.files[f]
        if gone:
            self.ctx.event('posterior', len(gone))

    def drop_best(self, prefix):
        import re
        for f in [f for f in self.files if re.fullmatch(
                re.escape(prefix) + r'(-\d+)?-best\.pt', f)]:
            del self.files[f]

    def best(self, prefix):
        import re
        return [f for f in self.files if re.fullmatch(
            re.escape(prefix) + r'(-\d+)?-best\.pt', f)]

    def save(self):
        ctx, r = self.ctx, self.ctx.rng
        n = str(r.choice(list(self.models)))
        m, o = self.models[n], self.optim[n]
        self.train(n)
        st = str(r.choice(['init', 'epoch', 'best', 'default', 'epoch']))
        epoch = None
        if st in ('epoch', 'best') and r.random() < .85:
            epoch = ctx.size(0, 12, 1200, .15)
        rm = bool(r.random() < .6)
        full = st != 'default' and r.random() < .6
        kw = dict(state_type=st, epoch=epoch)
        if not rm or r.random() < .5:
            kw['is_remove_posterior'] = rm
        else:
            rm = True
        if full:
            mt.save_training_state(model=m, optimizer=o, **kw)
            ctx.event('save-training')
        else:
            sf.save_model_state(m, **kw)
            ctx.event('save')
        sfx = ('-init' if st == 'init' else
               (f'-{epoch}' if epoch is not None else '') +
               ('-best' if st == 'best' else ''))
        if st == 'best':
            self.drop_best(n)
            ctx.event('best')
            if epoch is None:
                ctx.event('no-epoch')
        self.files[n + sfx + '.pt'] = params(m)
        if epoch is not None and rm:
            self.drop(n, epoch)
        if full and st != 'init':
            if st == 'best':
                self.drop_best(n + '_optim')
            self.files[n + '_optim' + sfx + '.pt'] = 'optim'
            if epoch is not None and rm:
                self.drop(n + '_optim', epoch)
            got = torch.load(os.path.join(self.d, n + '_optim' + sfx + '.pt'))
            ctx.same('optimizer', got['epoch'], epoch, 'optimizer epoch')
            w = o.state_dict()
            ok = got['state']['param_groups'] == w['param_groups'] and all(
                torch.equal(torch.as_tensor(got['state']['state'][k][q]),
                            torch.as_tensor(w['state'][k][q]))
                for k in w['state'] for q in w['state'][k])
            ctx.ok('optimizer', ok, 'stored optimizer state differs')
        ctx.state('save', st, epoch is not None, full, rm)
        self.listing(f'save {n} {st} {epoch} posterior={rm}')

    def load(self):
        ctx, r = self.ctx, self.ctx.rng
        n = str(r.choice(list(self.models)))
        m = self.models[n]
        self.train(n)
        what = [None, 'init', 'best', 'last', 'int', 'int'][
            int(r.integers(6))]
        if what == 'int':
            what = self.ctx.size(0, 12, 1200, .05)
            if self._epochs(n) and r.random() < .3:
                what = int(r.choice(self._epochs(n)))
        rm = bool(r.random() < .5)
        epochs = self._epochs(n)
        best = self.best(n)
        epoch = None
        if what is None:
            f = n + '.pt'
        elif what == 'init':
            f, epoch = n + '-init.pt', 0
        elif what == 'best':
            f = best[0] if len(best) == 1 else None
            if f:
                q = f[len(n):].split('-')
                epoch = int(q[1]) if len(q) == 3 else None
        elif what == 'last':
            epoch = max(epochs) if epochs else None
            f = f'{n}-{epoch}.pt' if epochs else None
        else:
            f, epoch = f'{n}-{what}.pt', what
        before = params(m)
        if f is None or f not in self.files:
            ctx.raises('load-failed', lambda: sf.load_model_state(
                m, what, is_remove_posterior=rm), RuntimeError,
                f'loaded {what} of {n} which was never saved')
            ctx.ok('load-failed', same(params(m), before),
                   'failed load changed the model')
            ctx.event('load-failed')
            ctx.state('load-failed', str(type(what)), rm)
            self.listing(f'failed load of {n} {what}')
            return
        got = sf.load_model_state(m, what, is_remove_posterior=rm)
        ctx.ok('load', same(params(m), self.files[f]),
               f'{n}: state loaded for {what} is not the one in {f}')
        ctx.same('load', got, epoch, f'epoch returned for {what}')
        if epoch is not None and rm:
            self.drop(n, epoch)
        ctx.event('load')
        ctx.state('load', str(what) if isinstance(what, str) else
                  type(what).__name__, rm, epoch is not None)
        self.listing(f'load {n} {what} posterior={rm}')

    def twin(self):
        """A second best state put there by hand."""
        ctx, r = self.ctx, self.ctx.rng
        n = str(r.choice(list(self.models)))
        best = self.best(n)
        if len(best) != 1:
            return
        f = f'{n}-{int(r.integers(20, 30))}-best.pt'
        if f in best:
            return
        self.train(n)
        self.files[f] = params(self.models[n])
        torch.save(self.files[f], os.path.join(self.d, f))
        before = params(self.models[n])
        ctx.raises('ambiguous', lambda: sf.load_model_state(
            self.models[n], 'best'), RuntimeError,
            f'{n}: best state loaded out of {best + [f]}')
        ctx.ok('ambiguous', same(params(self.models[n]), before),
               'refused load changed the model')
        ctx.event('ambiguous')
        self.listing(f'refused load of {n} best')

    def _epochs(self, n):
        import re
        return [int(q.group(1)) for f in self.files
                if (q := re.fullmatch(re.escape(n) + r'-(\d+)\.pt', f))]


def history(ctx, steps):
    d = Dir(ctx)
    for _ in range(steps):
        u = ctx.rng.random()
        (d.save if u < .58 else d.load if u < .96 else d.twin)()
    # every surviving state is intact
    for n, m in d.models.items():
        for f, p in d.files.items():
            if isinstance(p, dict) and f.startswith(n):
                got = torch.load(os.path.join(d.d, f))
                ctx.ok('intact', same(got, p), f'{f} was altered')


def records(ctx):
    """Loss, learning rate and parameter histories are read as written."""
    r = ctx.rng
    d = ctx.tmpdir()
    m = torch.nn.Linear(1, 1)
    m.model_directory, m.model_name = d, 'm'
    k = int(r.integers(1, 9))
    loss = [float(x) for x in r.uniform(0, 9, k)]
    if r.random() < .5:
        tl = [torch.tensor(x) for x in loss]
        tl[0].requires_grad_(bool(r.random() < .5))
    else:
        tl = list(loss)
    val = None if r.random() < .4 else [float(x) for x in r.uniform(0, 1, k)]
    lrs = [[float(x)] for x in r.uniform(0, 1, k)]
    sched = None if r.random() < .3 else 'steplr'
    mt.save_loss_history(m, k + 3, 'features_out', 'mre', tl,
                         lr_scheduler_type=sched, lr_history_epochs=lrs,
                         validation_loss_history=val)
    p = os.path.join(d, 'loss_history_record.pkl')
    nature, kind, got, gval = mt.read_loss_history_from_file(p)
    ctx.same('record', (nature, kind), ('features_out', 'mre'), 'loss kind')
    ctx.close('record', [float(x) for x in got], loss, rtol=1e-6, atol=0.,
              msg='loss history')
    ctx.same('record', gval, val, 'validation history')
    ctx.ok('record', not any(isinstance(x, torch.Tensor) and x.requires_grad
                             for x in got), 'history carries gradients')
    s, gl = mt.read_lr_history_from_file(p)
    ctx.same('record', (s, gl), (sched, lrs), 'learning rate history')
    ctx.raises('record', lambda: mt.read_loss_history_from_file(p + 'x'),
               RuntimeError, 'missing record accepted')
    for mod in (rct, hyt):
        hist = {q: [float(x) for x in r.standard_normal(k)]
                for q in ('E', 'v')}
        best = {q: v[-1] for q, v in hist.items()}
        bounds = {q: (float(v[0]) - 1, float(v[0]) + 1)
                  for q, v in hist.items()}
        mod.save_parameters_history(m, hist, bounds)
        mod.save_best_parameters(m, best, bounds)
        ctx.same('record', mod.read_parameters_history_from_file(
            os.path.join(d, 'parameters_history_record.pkl')),
            (hist, bounds), 'parameters history')
        ctx.same('record', mod.read_best_parameters_from_file(
            os.path.join(d, 'parameters_best.pkl')), (best, bounds),
            'best parameters')
    ctx.event('record')
    ctx.state('record', k, val is None, sched)


def cases(tier):
    a, b, s = (400, 100, 40) if tier == 'quick' else (2500, 500, 90)
    return [('history', {'steps': s})]*a + [('records', {})]*b

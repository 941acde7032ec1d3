"""C18: network and hybrid models compute the composition they describe."""
import os
import numpy as np
import torch
from vmon import mat, nn, rc, ref
from vmon.checks import c03
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from model_architectures.rnn_base_model.custom.gru_vmap import GRU, GRUCell
from model_architectures.hybrid_base_model.model.hybrid_model import \
    HybridModel
from model_architectures.hybrid_base_model.model import (hybridized_layers,
                                                         transfer_learning)
from model_architectures.procedures import model_data_scaling as ms
from model_architectures.procedures.model_state_files import (
    load_model_state, save_model_state)
from model_architectures.rc_base_model.model.recurrent_model import \
    RecurrentConstitutiveModel

PROPERTY = 'C18'
RULE = ('random recurrent networks (layers, sizes, batches, hidden states, '
        'lengths), elastic, volumetric-deviatoric and polynomial layers and '
        'hybrid models with random channels, orders, residual connections '
        'and scalings; compared with numpy recomputation; models are also '
        'written and read back; non-trivial: distinct (kind, structure, '
        'shape)')
ASSUMPTIONS = ['CPU device only', 'dropout is off while predicting',
               'a hybrid model takes physical input features']
REQUIRED_EVENTS = ('gru', 'hidden', 'hybrid', 'residual', 'additive',
                   'scaled', 'elastic-layer', 'composition-layer',
                   'polynomial-layer', 'reload')
N = nn.a64


def seed(ctx):
    torch.manual_seed(int(ctx.rng.integers(1 << 30)))


def weights(ctx, m, s=1.):
    for p in m.parameters():
        p.data = torch.tensor(s*ctx.rng.standard_normal(tuple(p.shape)),
                              dtype=p.dtype)


def gru(ctx, source, batched):
    torch.set_default_dtype(torch.float64)
    seed(ctx)
    rng = ctx.rng
    i, o, h = (ctx.size(1, 7, 40) for _ in range(3))
    L = min(ctx.size(1, 7, 12, .03), 4)
    m = GRURNNModel(i, o, h, None, gru_model_source=source,
                    n_recurrent_layers=L, is_save_model_init_file=False)
    T, B = ctx.size(1, 12, 150), ctx.size(1, 6, 80)
    # long or wide networks: contracting weights, so that rounding does not
    # grow with time
    weights(ctx, m, float(rng.choice([.3, 1., 4.])) if max(T/2, h) < 7
            else .4/h**.5)
    x = rng.standard_normal((T, B, i))*float(10**rng.uniform(-2, 1))
    h0 = None if rng.random() < .5 else rng.standard_normal((L, B, h))
    tag = f'{source} i={i} o={o} h={h} L={L} T={T} B={B} batched={batched}'
    wy, wh = nn.model(m, x, h0)

    def run(xx, hh=None):
        y, q = m(torch.tensor(xx), None if hh is None else torch.tensor(hh))
        return N(y), N(q)
    if batched:
        keep = torch.tensor(x)
        y, q = m(keep, None if h0 is None else torch.tensor(h0))
        ctx.same('input-kept', keep.numpy(), x)
        y, q = N(y), N(q)
        ctx.same('shape', (y.shape, q.shape), ((T, B, o), (L, B, h)))
        ctx.close('gru', y, wy, rtol=1e-9, scale=np.abs(wy).max() + 1,
                  msg=tag)
        ctx.close('hidden', q, wh, rtol=1e-9, scale=1, msg=tag)
        # each sample on its own
        for b in range(B):
            yb, qb = run(x[:, b:b+1], None if h0 is None else h0[:, b:b+1])
            ctx.close('batch-independent', yb, wy[:, b:b+1], rtol=1e-9,
                      scale=np.abs(wy).max() + 1, msg=tag)
    else:
        for b in range(B):
            yb, qb = run(x[:, b], None if h0 is None else h0[:, b])
            ctx.same('shape', (yb.shape, qb.shape), ((T, o), (L, h)))
            ctx.close('gru', yb, wy[:, b], rtol=1e-9,
                      scale=np.abs(wy).max() + 1, msg=tag)
            ctx.close('hidden', qb, wh[:, b], rtol=1e-9, scale=1, msg=tag)
    ctx.event('gru')
    ctx.state('gru', source, batched, L, T, B, h0 is None)
    # causality and continuation
    k = int(rng.integers(1, T + 1))
    y1, q1 = run(x[:k], h0)
    ctx.close('prefix', y1, wy[:k], rtol=1e-9, scale=np.abs(wy).max() + 1,
              msg=tag)
    if k < T:
        y2, q2 = run(x[k:], q1)
        ctx.event('hidden')
        ctx.close('continuation', y2, wy[k:], rtol=1e-9,
                  scale=np.abs(wy).max() + 1, msg=tag)
        ctx.close('continuation-hidden', q2, wh, rtol=1e-9, scale=1, msg=tag)
    # no memory between calls
    y3, _ = run(x, h0)
    ctx.close('no-memory', y3, wy, rtol=1e-9, scale=np.abs(wy).max() + 1,
              msg=tag)
    if source == 'custom':
        z = torch.tensor(x)
        zz = torch.vmap(lambda v: m(v)[0], in_dims=1, out_dims=1)(z)
        w0, _ = nn.model(m, x)
        ctx.close('vmap', N(zz), w0, rtol=1e-9, scale=np.abs(w0).max() + 1,
                  msg=tag)


def cell(ctx):
    """Bare custom layers: biases off, missing hidden state, gradients."""
    torch.set_default_dtype(torch.float64)
    rng = ctx.rng
    i, h, L, T, B = (int(rng.integers(1, 5)) for _ in range(5))
    bias = bool(rng.random() < .5)
    g = GRU(i, h, num_layers=L, bias=bias)
    for p in g.parameters():
        # fresh layers start from bounded random weights
        ctx.ok('fresh-weights', bool((p.abs() <= h**-.5 + 1e-12).all()) and
               (p.numel() < 3 or len(set(p.flatten().tolist())) > 1),
               f'bias={bias}')
    weights(ctx, g)
    t = torch.nn.GRU(i, h, num_layers=L, bias=bias)
    for k in range(L):
        c = g.gru_layers[k]
        getattr(t, f'weight_ih_l{k}').data = c.w_ih.data.clone()
        getattr(t, f'weight_hh_l{k}').data = c.w_hh.data.clone()
        if bias:
            getattr(t, f'bias_ih_l{k}').data = c.b_ih.data.clone()
            getattr(t, f'bias_hh_l{k}').data = c.b_hh.data.clone()
    x = rng.standard_normal((T, B, i))
    a, b = torch.tensor(x, requires_grad=True), torch.tensor(
        x, requires_grad=True)
    w = torch.tensor(rng.standard_normal((T, B, h)))
    ya, ha = g(a)
    yb, hb = t(b)
    (ya*w).sum().backward()
    (yb*w).sum().backward()
    ctx.event('gru')
    ctx.state('cell', bias, L, T, B)
    ctx.close('custom-torch', N(ya), N(yb), rtol=1e-9, scale=1)
    ctx.close('custom-torch', N(ha), N(hb), rtol=1e-9, scale=1)
    ctx.close('custom-torch-gradient', N(a.grad), N(b.grad), rtol=1e-8,
              scale=float(b.grad.abs().max()) + 1e-3)
    for k in range(L):
        p = g.gru_layers[k].w_hh.grad
        q = getattr(t, f'weight_hh_l{k}').grad
        ctx.close('custom-torch-gradient', N(p), N(q), rtol=1e-8,
                  scale=float(q.abs().max()) + 1e-3)
    c = GRUCell(i, h, bias=bias)
    weights(ctx, c)
    r = torch.nn.GRUCell(i, h, bias=bias)
    r.weight_ih.data, r.weight_hh.data = c.w_ih.data, c.w_hh.data
    if bias:
        r.bias_ih.data, r.bias_hh.data = c.b_ih.data, c.b_hh.data
    v = torch.tensor(rng.standard_normal((B, i)))
    s = torch.tensor(rng.standard_normal((B, h)))
    for args in ((v,), (v, s), (v[0],), (v[0], s[0])):
        ctx.close('custom-torch', N(c(*args)), N(r(*args)), rtol=1e-9,
                  scale=1)


# ------------------------------------------------------------------- layers
def rand_elastic(ctx, n_dim, sym):
    """Layer arguments and the reference stress of strain rows."""
    keys = c03.ISO[sym]
    m = {k: float(ctx.rng.uniform(1e2, 1e5)) for k in keys}
    C = c03.expected(sym, m)
    order = ref.SYM[n_dim]

    def f(rows):
        out = np.zeros_like(rows)
        for q in np.ndindex(rows.shape[:-1]):
            e = np.zeros((3, 3))
            e[:n_dim, :n_dim] = rc.tensor_of(rows[q], n_dim)
            s = np.einsum('ijkl,kl->ij', C, e)
            out[q] = [s[ref.idx(c)] for c in order]
        return out
    return m, f


def shaped(ctx, n):
    T, B = ctx.size(1, 7, 60), ctx.size(1, 5, 40)
    x = ctx.rng.standard_normal((T, B, n))
    return x if ctx.rng.random() < .6 else x[:, 0]


def call(ctx, layer, x, rule='layer-input-kept'):
    t = torch.tensor(x)
    y = layer(t)
    ctx.same(rule, N(t), x)
    ctx.same('layer-shape', tuple(y.shape[:-1]), x.shape[:-1])
    return N(y)


def elastic_layer(ctx, n_dim, sym, where):
    torch.set_default_dtype(torch.float64)
    mod = {'hyb': hybridized_layers, 'tl': transfer_learning}[where]
    m, f = rand_elastic(ctx, n_dim, sym)
    lay = mod.BatchedElasticModel(mat.PT[n_dim], m, sym)
    n = len(ref.SYM[n_dim])
    x = shaped(ctx, n)*1e-3
    tag = f'{where} {n_dim}D {sym} {m}'
    w = f(x)
    ctx.event('elastic-layer')
    ctx.state('elastic', n_dim, sym, where, x.ndim)
    ctx.close('elastic-layer', call(ctx, lay, x), w, rtol=1e-6,
              scale=np.abs(w).max(), msg=tag)
    # total minus plastic strain: hybridised layers receive the plastic
    # strain predicted by the previous model followed by the residual input
    p = 1e-3*ctx.rng.standard_normal(x.shape)
    cat = (p, x) if where == 'hyb' else (x, p)
    w = f(x - p)
    ctx.close('elastic-layer-plastic', call(
        ctx, lay, np.concatenate(cat, -1)), w, rtol=1e-6,
        scale=np.abs(w).max(), msg=tag)
    ctx.raises('elastic-layer-features', lambda: lay(torch.zeros(3, n + 1)),
               RuntimeError)


def voldev(rows):
    out = rows[..., 1:].copy()
    for i, c in enumerate(ref.SYM[3]):
        if c[0] == c[1]:
            out[..., i] += rows[..., 0]
    return out


def composition_layer(ctx):
    torch.set_default_dtype(torch.float64)
    x = shaped(ctx, 7)
    lay = hybridized_layers.VolDevCompositionModel()
    ctx.event('composition-layer')
    ctx.state('voldev', x.shape)
    ctx.close('composition', call(ctx, lay, x), voldev(x), rtol=1e-12,
              scale=1)
    ctx.close('composition-again', call(ctx, lay, x), voldev(x), rtol=1e-12,
              scale=1)
    t = torch.tensor(x, requires_grad=True)
    lay(t).sum().backward()
    ctx.close('composition-gradient', N(t.grad), np.broadcast_to(
        [3.] + [1.]*6, x.shape), rtol=1e-12, scale=1)


def fitted(model, features):
    try:
        return ms.get_fitted_data_scaler(model, features)
    except RuntimeError:
        return None


def poly(lay, x, bias):
    # one row of coefficients per feature, in registration order
    w = np.concatenate([N(p).ravel() for p in lay.parameters()])
    out = np.zeros_like(x)
    for i, row in enumerate(w.reshape(x.shape[-1], -1)):
        for k, a in enumerate(row):
            out[..., i] += a*x[..., i]**((0 if bias else 1) + k)
    return out


def polynomial_layer(ctx):
    torch.set_default_dtype(torch.float64)
    n, d = int(ctx.rng.integers(1, 6)), int(ctx.rng.integers(1, 5))
    bias = bool(ctx.rng.random() < .5)
    lay = transfer_learning.PolynomialLinearRegressor(n, d, is_bias=bias)
    weights(ctx, lay)
    x = shaped(ctx, n)
    ctx.event('polynomial-layer')
    ctx.state('poly', n, d, bias, x.ndim)
    w = poly(lay, x, bias)
    ctx.close('polynomial', call(ctx, lay, x), w, rtol=1e-9,
              scale=np.abs(w).max() + 1)
    # degree: differences of order d+1 vanish
    t = np.arange(d + 2.)[:, None]*np.ones(n)
    y = N(lay(torch.tensor(t)))
    z = np.diff(y, d + 1, axis=0)
    ctx.close('polynomial-degree', z, 0*z, rtol=1e-7,
              scale=np.abs(y).max() + 1)
    if not bias:
        ctx.close('polynomial-no-bias', N(lay(torch.zeros(1, n))),
                  np.zeros((1, n)), rtol=0, atol=1e-12)


# ------------------------------------------------------------------- hybrid
def rand_scaler(ctx, n_in, n_out, kind):
    rng = ctx.rng
    par = {}
    for f, n in (('features_in', n_in), ('features_out', n_out)):
        if kind == 'min-max':
            par[f] = {'minimum': -rng.uniform(.2, 2, n),
                      'maximum': rng.uniform(.2, 2, n)}
        else:
            par[f] = {'mean': rng.uniform(-1, 1, n),
                      'std': rng.uniform(.2, 2, n)}
    return par, {f: {a: torch.tensor(v) for a, v in p.items()}
                 for f, p in par.items()}


def member(ctx, n_in, n_out, dim):
    """A sub-model and its numpy reference (physical in, physical out)."""
    rng = ctx.rng
    kinds = ['gru', 'gru']
    n = len(ref.SYM[dim])
    if n_in == n_out:
        kinds.append('poly')
    if n_out == n and n_in in (n, 2*n):
        kinds.append('elastic')
    if n_in == n == n_out:
        kinds.append('rc')
    if n_in == 7 and n_out == 6:
        kinds += ['voldev', 'voldev']
    kind = str(rng.choice(kinds))
    if kind == 'elastic':
        m, f = rand_elastic(ctx, dim, 'isotropic')
        return kind, hybridized_layers.BatchedElasticModel(
            mat.PT[dim], m, 'isotropic'), (
                lambda x: f(x if x.shape[-1] == n else x[..., n:] - x[..., :n]
                            ))
    if kind == 'voldev':
        return kind, hybridized_layers.VolDevCompositionModel(), voldev
    if kind == 'rc':
        sp = mat.Spec(rng, 'elastic')
        mod = rc.make(sp, dim, ctx.tmpdir())
        C = ref.iso_tensor(sp.E, sp.nu, 3)

        def g(rows):
            out = np.zeros_like(rows)
            first = rows[:1]
            for q in np.ndindex(rows.shape[:-1]):
                e = np.zeros((3, 3))
                e[:dim, :dim] = rc.tensor_of(
                    rows[q] - first[(0,) + q[1:]], dim)
                s = np.einsum('ijkl,kl->ij', C, e)
                out[q] = [s[ref.idx(c)] for c in ref.SYM[dim]]
            return out
        return kind, mod, g
    ins, outs = bool(rng.random() < .5), bool(rng.random() < .5)
    sk = str(rng.choice(['min-max', 'mean-std']))
    par, tp = rand_scaler(ctx, n_in, n_out, sk)
    if kind == 'poly':
        deg, bias = int(rng.integers(1, 3)), bool(rng.random() < .5)
        mod = transfer_learning.PolynomialLinearRegressor(
            n_in, deg, is_bias=bias,
            is_model_in_normalized=ins, is_model_out_normalized=outs)
        from utilities.data_scalers import (TorchMinMaxScaler,
                                            TorchStandardScaler)
        cls = {'min-max': TorchMinMaxScaler, 'mean-std': TorchStandardScaler}
        mod.set_data_scalers(cls[sk](n_in, **tp['features_in']),
                             cls[sk](n_out, **tp['features_out']))
        weights(ctx, mod, .3)

        def core(x):
            return poly(mod, x, bias)
    else:
        src = str(rng.choice(['custom', 'torch']))
        mod = GRURNNModel(n_in, n_out, int(rng.integers(1, 5)), None,
                          gru_model_source=src,
                          n_recurrent_layers=int(rng.integers(1, 3)),
                          is_model_in_normalized=ins,
                          is_model_out_normalized=outs,
                          is_save_model_init_file=False)
        ms.set_fitted_data_scalers(mod, sk, tp)

        def core(x):
            return nn.model(mod, x)[0]

    def f(x):
        if ins:
            x = nn.scale(sk, par['features_in'], x)
        y = core(x)
        if outs:
            y = nn.scale(sk, par['features_out'], y, back=True)
        return y
    if ins or outs:
        ctx.event('scaled')
    return kind + ('-scaled' if ins or outs else ''), mod, f


def build_hybrid(ctx, directory, dim, extra=None):
    rng = ctx.rng
    n = len(ref.SYM[dim])
    add = bool(rng.random() < .6)
    chans = int(rng.integers(1, 4)) if add else 1
    if add and rng.random() < .1:
        chans = int(rng.integers(9, 14))
        ctx.event('many-channels')
    plan, d = [], {}
    rows = sorted(rng.choice(9 if chans < 9 else 20, chans, replace=False))
    for c in range(chans):
        depth = int(rng.integers(1, 4))
        cols = sorted(rng.choice(14, depth, replace=False))
        cur = n
        chain = []
        for k in range(depth):
            res = bool(rng.random() < (.4 if k else .12))
            i = cur + n if res else cur
            last = k == depth - 1
            o = n if last else int(rng.choice([n, n, 7, 3]))
            kind, mod, f = member(ctx, i, o, dim)
            name = f'm{c}_{k}'
            chain.append((res, f))
            plan.append((c, k, kind, res))
            d[name] = {'hyb_model': mod, 'is_input_residual': res,
                       'hyb_indices': (int(rows[c]), int(cols[k]))}
            if res:
                ctx.event('residual')
            cur = o
        plan_f = chain
        d[f'm{c}_0']['_f'] = plan_f
    fs = [d[f'm{c}_0'].pop('_f') for c in range(chans)]
    names = list(d)
    rng.shuffle(names)
    d = {k: d[k] for k in names}

    def f(x):
        out = 0.
        for chain in fs:
            v = x
            for res, g in chain:
                if res:
                    v = np.concatenate((v, x), -1)
                v = g(v)
            out = out + v
        return out
    kind = 'additive' if add else 'identity'
    out_norm = bool(rng.random() < .3)
    m = HybridModel(n, n, d, directory, hybridization_type=kind,
                    is_model_out_normalized=out_norm,
                    is_save_model_init_file=directory is not None)
    if out_norm:
        sk = str(rng.choice(['min-max', 'mean-std']))
        par, tp = rand_scaler(ctx, n, n, sk)
        ms.set_fitted_data_scalers(m, sk, tp)
        g0 = f

        def f(x):
            return nn.scale(sk, par['features_out'], g0(x))
    if add:
        ctx.event('additive')
    return m, f, (kind, out_norm, tuple(plan))


def hybrid(ctx, dim):
    torch.set_default_dtype(torch.float64)
    seed(ctx)
    m, f, sig = build_hybrid(ctx, None, dim)
    n = len(ref.SYM[dim])
    T, B = ctx.size(1, 7, 60), ctx.size(1, 5, 40)
    x = ctx.rng.standard_normal((T, B, n))*float(
        ctx.rng.choice([1e-3, .1, 1.]))
    w = f(x)
    tag = f'{dim}D {sig} T={T} B={B}'
    t = torch.tensor(x)
    y = N(m(t))
    ctx.event('hybrid')
    ctx.state('hybrid', dim, sig)
    ctx.same('hybrid-input-kept', N(t), x, msg=tag)
    sc = np.abs(w).max() + 1e-6
    ctx.close('hybrid', y, w, rtol=2e-6, scale=sc, msg=tag)
    for b in range(B):
        ctx.close('hybrid-batch', N(m(torch.tensor(x[:, b:b+1]))),
                  w[:, b:b+1], rtol=2e-6, scale=sc, msg=tag)
    k = int(ctx.rng.integers(1, T + 1))
    ctx.close('hybrid-prefix', N(m(torch.tensor(x[:k]))), w[:k], rtol=2e-6,
              scale=sc, msg=tag)


def hybrid_rejects(ctx):
    def g():
        return GRURNNModel(3, 3, 2, None, is_save_model_init_file=False)
    ctx.raises('same-indices', lambda: HybridModel(3, 3, {
        k: {'hyb_model': g(), 'hyb_indices': (0, 1),
            'is_input_residual': False} for k in 'ab'}, None,
        is_save_model_init_file=False), RuntimeError)
    ctx.raises('type', lambda: HybridModel(3, 3, {
        'a': {'hyb_model': g(), 'hyb_indices': (0, 0),
              'is_input_residual': False}}, None, hybridization_type='x',
        is_save_model_init_file=False), RuntimeError)
    bad = GRURNNModel(3, 3, 2, None, is_model_in_normalized=True,
                      is_save_model_init_file=False)
    ctx.raises('no-scalers', lambda: HybridModel(3, 3, {
        'a': {'hyb_model': bad, 'hyb_indices': (0, 0),
              'is_input_residual': False}}, None,
        is_save_model_init_file=False), RuntimeError)


def reload(ctx, what):
    """A model read back from its directory predicts the same."""
    torch.set_default_dtype(torch.float64)
    seed(ctx)
    d = ctx.tmpdir()
    rng = ctx.rng
    dim = int(rng.choice([2, 3]))
    n = len(ref.SYM[dim])
    if what == 'gru':
        m = GRURNNModel(n, n, int(rng.integers(1, 5)), d,
                        n_recurrent_layers=int(rng.integers(1, 4)),
                        model_name=str(rng.choice(['gru', 'my_model', 'a1'])),
                        is_model_in_normalized=bool(rng.random() < .5),
                        is_model_out_normalized=bool(rng.random() < .5),
                        dropout=float(rng.choice([0, .3])),
                        gru_model_source=str(rng.choice(['custom', 'torch'])))
        ms.set_fitted_data_scalers(m, 'min-max', rand_scaler(
            ctx, n, n, 'min-max')[1])
        cls = GRURNNModel
        weights(ctx, m)
        keys = ('_n_features_in', '_n_features_out', '_hidden_layer_size',
                '_n_recurrent_layers', '_dropout', 'model_name',
                'is_model_in_normalized', 'is_model_out_normalized',
                '_gru_model_source', '_device_type')
    elif what == 'rc':
        name = str(rng.choice(['von_mises', 'drucker_prager']))
        vm = bool(rng.random() < .5)
        sp = mat.Spec(rng, name)
        m = RecurrentConstitutiveModel(
            n, n, {'E': {'initial_value': sp.E,
                         'bounds': (.5*sp.E, 2*sp.E)}},
            'infinitesimal', mat.PT[dim], name + ('_vmap' if vm else ''),
            sp.code_parameters(), d, model_name='rc_' + name,
            is_auto_sync_parameters=bool(rng.random() < .5),
            is_check_su_fail=bool(rng.random() < .5),
            state_features_out={},
            is_normalized_parameters=bool(rng.random() < .5))
        cls = RecurrentConstitutiveModel
        p = m.get_model_parameters()['E']
        p.data = p.data*.9
        m.sync_material_model_parameters()
        keys = ('_n_features_in', '_n_features_out', '_strain_formulation',
                '_problem_type', '_material_model_name', 'model_name',
                '_is_auto_sync_parameters', '_is_check_su_fail',
                'is_normalized_parameters', 'is_model_in_normalized',
                'is_model_out_normalized', '_state_features_out')
    else:
        m, _, _ = build_hybrid(ctx, d, dim)
        cls = HybridModel
        keys = ('_n_features_in', '_n_features_out', '_hybridization_type',
                '_hyb_models_names', '_hyb_channels',
                '_hyb_models_input_residual', 'is_model_in_normalized',
                'is_model_out_normalized', 'model_name')
    m.eval()
    T, B = int(rng.integers(2, 6)), int(rng.integers(1, 4))
    x = torch.tensor(rng.standard_normal((T, B, n))*1e-3)
    x[0] = 0.

    def out(q):
        y = q(x)
        return N(y[0] if isinstance(y, tuple) else y)
    y0 = out(m)
    save_model_state(m)
    if rng.random() < .5:
        q = cls.init_model_from_file(model_directory=d)
    else:
        q = cls.init_model_from_file(
            model_init_file_path=os.path.join(d, 'model_init_file.pkl'))
    for k in keys:
        ctx.same('option-' + k, getattr(q, k), getattr(m, k))
    load_model_state(q)
    if what == 'rc':
        q.sync_material_model_parameters()
    q.eval()
    ctx.event('reload')
    ctx.state('reload', what, dim, T, B)
    ctx.close('reloaded-output', out(q), y0, rtol=1e-10,
              scale=np.abs(y0).max() + 1e-9)
    for f in ('features_in', 'features_out'):
        a, b = fitted(m, f), fitted(q, f)
        ctx.same('reloaded-scaler', a is None, b is None)
        if a is not None:
            ctx.close('reloaded-scaler', N(a.transform(x[0])),
                      N(b.transform(x[0])), rtol=1e-12, scale=10)
    ctx.same('model-directory', os.path.normpath(q.model_directory),
             os.path.normpath(d))


def cases(tier):
    q = tier == 'quick'
    out = [('hybrid_rejects', {})]
    for r in range(200 if q else 2000):
        for s in ('custom', 'torch'):
            for b in (True, False):
                out.append(('gru', {'source': s, 'batched': b}))
        out.append(('cell', {}))
        out.append(('composition_layer', {}))
        out.append(('polynomial_layer', {}))
        for k in range(4):
            out.append(('hybrid', {'dim': 2 + (k > 1)}))
        for w in ('gru', 'rc', 'hybrid'):
            out.append(('reload', {'what': w}))
        for sym in c03.ISO:
            if sym != 'isotropic' and r % 3:
                continue
            for dim in (2, 3):
                for w in ('hyb', 'tl'):
                    out.append(('elastic_layer', {'n_dim': dim, 'sym': sym,
                                                  'where': w}))
    return out

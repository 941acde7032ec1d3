"""C04: hardening laws - yield stress and slope as functions of the
accumulated plastic strain."""
import numpy as np
import torch
from vmon import mat
from simulators.fetorch.material.models.standard import hardening as hd

PROPERTY = 'C04'
RULE = ('random parameters of every law, evaluated at interior points, '
        'exactly at and one ulp around the points of a curve, at zero, beyond '
        'the last point and at negative values, as scalars, batched through '
        'vectorised mapping and differentiated automatically; non-trivial: '
        'distinct (law, precision, kind of point, parameters)')
ASSUMPTIONS = ['negative accumulated plastic strain is clamped to zero',
               'at a kink the slope of the next segment is expected',
               'CPU device only']
REQUIRED_EVENTS = ('evaluation', 'slope-fd', 'vmap', 'interp', 'check-data')
TYPES = ('linear', 'nadai_ludwik', 'piecewise_linear')


def make(rng, kind, dtype):
    s0 = float(10**rng.uniform(-2, 3))
    kind, p, f = mat.rand_hardening(rng, s0, kind)
    if kind == 'piecewise_linear':
        pts = np.asarray(p['hardening_points'])
        if rng.random() < .4:      # first point away from zero, softening
            pts[:, 0] += rng.uniform(0.01, .1)
            if len(pts) > 2:
                pts[-1, 1] = pts[-2, 1]*rng.uniform(.5, 1)
        pts = pts.astype(np.float32 if dtype == torch.float32
                         else float).astype(float)
        p = {'hardening_points': pts.tolist()}
        f = mat.hard_ref(kind, p)
    else:
        if kind == 'nadai_ludwik' and rng.random() < .35:
            # linear and convex curves
            p['b'] = float(rng.choice([1.0, rng.uniform(1, 3)]))
        p = {k: float(np.float32(v)) if dtype == torch.float32 else v
             for k, v in p.items()}
        f = mat.hard_ref(kind, p)
    return p, f


def to_code(p, dtype):
    return {k: torch.tensor(v, dtype=dtype) for k, v in p.items()}


def points(rng, kind, p):
    out = [('zero', 0.0), ('negative', -float(rng.uniform(1e-6, 1))),
           ('tiny', float(10**rng.uniform(-12, -6)))]
    out += [('interior', float(10**rng.uniform(-4, .5))) for _ in range(5)]
    if kind == 'piecewise_linear':
        x = np.asarray(p['hardening_points'])[:, 0]
        for v in x:
            out.append(('node', float(v)))
        for a, b in zip(x[:-1], x[1:]):
            out.append(('segment', float(a + (b - a)*rng.uniform(.05, .95))))
        out.append(('beyond', float(x[-1]*rng.uniform(1.01, 5) + .01)))
        out.append(('before', float(x[0]*rng.uniform(0, .95))))
    return out


def law(ctx, kind, dt):
    rng = ctx.rng
    dtype = getattr(torch, dt)
    torch.set_default_dtype(dtype)
    r = 2e-5 if dt == 'float32' else 1e-11
    fn = hd.get_hardening_law(kind)
    for _ in range(4):
        p, f = make(rng, kind, dtype)
        q = to_code(p, dtype)
        snap = {k: v.clone() for k, v in q.items()}
        pts = points(rng, kind, p)
        pts = [(w, float(torch.tensor(x, dtype=dtype).double()))
               for w, x in pts]
        ys = []
        for w, x in pts:
            xs = torch.tensor(x, dtype=dtype)
            y, s = fn(q, xs)
            wy, ws = f(max(x, 0.0))
            ctx.event('evaluation')
            ctx.state(kind, dt, w, round(x, 9))
            ctx.ok('yield-scalar', getattr(y, 'shape', ()) == (),
                   f'{kind} yield stress has shape {getattr(y, "shape", ())}')
            ctx.ok('slope-scalar', getattr(s, 'shape', ()) == (),
                   f'{kind} slope has shape {getattr(s, "shape", ())}')
            ctx.close('yield-stress', float(y), wy, rtol=r,
                      scale=abs(wy) + abs(ws*x), msg=f'{kind} {w} x={x} {p}')
            ctx.close('slope', float(s), ws, rtol=30*r,
                      atol=r*abs(wy), msg=f'{kind} {w} x={x} {p}')
            ys.append((max(x, 0.0), float(y)))
        # non-decreasing where the parameters are non-softening
        if kind != 'piecewise_linear' or np.all(
                np.diff(np.asarray(p['hardening_points'])[:, 1]) >= 0):
            ys.sort()
            for (x0, y0), (x1, y1) in zip(ys, ys[1:]):
                ctx.ok('monotone', y1 >= y0 - r*abs(y0),
                       f'{kind}: y({x0})={y0} > y({x1})={y1}')
        for k in snap:
            ctx.same('parameters-unchanged', q[k], snap[k])
        # slope = derivative of the yield stress (finite differences, float64)
        q64 = to_code(p, torch.float64)
        for w, x in pts:
            if w not in ('interior', 'segment', 'beyond', 'tiny') or x <= 0:
                continue
            h = 1e-6*max(x, 1e-3)
            if kind == 'piecewise_linear':
                xn = np.asarray(p['hardening_points'])[:, 0]
                if np.min(np.abs(xn - x)) < 3*h:
                    continue
            if x - h < 0:
                continue
            yp = float(fn(q64, torch.tensor(x + h, dtype=torch.float64))[0])
            ym = float(fn(q64, torch.tensor(x - h, dtype=torch.float64))[0])
            s = float(fn(q64, torch.tensor(x, dtype=torch.float64))[1])
            ctx.event('slope-fd')
            ctx.close('slope-fd', s, (yp - ym)/(2*h), rtol=1e-4,
                      atol=1e-8*abs(yp)/h + 1e-6*abs(yp), msg=f'{kind} x={x}')
            xx = torch.tensor(x, dtype=torch.float64, requires_grad=True)
            yy = fn(q64, xx)[0]
            if getattr(yy, 'requires_grad', False):
                g, = torch.autograd.grad(yy, xx)
                ctx.close('slope-autograd', float(g), s, rtol=1e-9,
                          atol=1e-9*abs(yp))
        # vectorised mapping gives the same numbers
        xs = torch.tensor([x for _, x in pts], dtype=dtype)

        def both(x):
            y, s = fn(q, x)
            return y + 0*x, s + 0*x
        yb, sb = torch.vmap(both)(xs)
        for i, x in enumerate(xs):
            y, s = fn(q, x)
            ctx.event('vmap')
            ctx.close('vmap-yield', float(yb[i]), float(y), rtol=1e-12
                      if dt == 'float64' else 1e-6)
            ctx.close('vmap-slope', float(sb[i]), float(s), rtol=1e-12
                      if dt == 'float64' else 1e-6)
    ctx.note(law=kind, parameters=str(p)[:200])


def interp(ctx, dt):
    """Linear interpolation helper agrees with the textbook definition for
    any shape of the query points."""
    rng = ctx.rng
    dtype = getattr(torch, dt)
    r = 5e-5 if dt == 'float32' else 1e-11
    for _ in range(6):
        n = int(rng.integers(2, 9))
        xp = np.cumsum(rng.uniform(.1, 1, n)) - rng.uniform(0, 2)
        fp = rng.standard_normal(n)*10
        xp = torch.tensor(xp, dtype=dtype)
        fp = torch.tensor(fp, dtype=dtype)
        shape = [(), (1,), (7,), (3, 4)][int(rng.integers(4))]
        x = torch.tensor(rng.uniform(float(xp[0]) - 1, float(xp[-1]) + 1,
                                     shape), dtype=dtype)
        if x.ndim == 1 and len(x) == 7:
            x[:3] = torch.stack([xp[0], xp[-1], xp[n//2]])
        kw = {}
        if rng.random() < .5:
            kw = dict(left=torch.tensor(-5., dtype=dtype),
                      right=torch.tensor(9., dtype=dtype))
        y = hd.torch_interp(x, xp, fp, **kw)
        want = np.interp(x.double().numpy(), xp.double().numpy(),
                         fp.double().numpy(),
                         **{k: float(v) for k, v in kw.items()})
        ctx.event('interp')
        ctx.state('interp', dt, n, shape, bool(kw), float(fp[0]))
        ctx.close('interp', y, want, rtol=r*20, scale=30.,
                  msg=f'x={x} xp={xp} fp={fp}')


def check_data(ctx):
    """With data checks on, invalid input is rejected and valid accepted."""
    for kind in TYPES:
        fn = hd.get_hardening_law(kind)
        p, f = make(ctx.rng, kind, torch.float64)
        q = to_code(p, torch.float64)
        x = torch.tensor(.02, dtype=torch.float64)
        y, s = fn(q, x, is_check_data=True)
        ctx.close('checked-yield', float(y), f(.02)[0], rtol=1e-10)
        ctx.raises('negative-rejected', lambda: fn(
            q, torch.tensor(-.1, dtype=torch.float64), is_check_data=True))
        ctx.event('check-data')
        ctx.state('check', kind)
    fn = hd.get_hardening_law('piecewise_linear')
    for pts in ([[.1, 1.], [0., 2.]], [[0., 1.], [0., 2.]],
                [[-.1, 1.], [.2, 2.]]):
        q = {'hardening_points': torch.tensor(pts)}
        ctx.raises('bad-points-rejected', lambda: fn(
            q, torch.tensor(.1), is_check_data=True))
    ctx.raises('unknown-law',
               lambda: hd.get_hardening_law('swift'))


def cases(tier):
    rep = 14 if tier == 'quick' else 150
    out = [('check_data', {})]
    for _ in range(rep):
        for dt in ('float64', 'float32'):
            out += [('law', dict(kind=k, dt=dt)) for k in TYPES]
            out.append(('interp', dict(dt=dt)))
    return out

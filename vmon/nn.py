"""Independent numpy references of the neural building blocks."""
import numpy as np
import torch


def a64(t):
    return t.detach().cpu().double().numpy()


def sig(x):
    return .5*(1 + np.tanh(.5*x))


def gru_weights(g, source):
    """[(w_ih, w_hh, b_ih, b_hh)] per layer of a GRU module."""
    out = []
    if source == 'custom':
        for c in g.gru_layers:
            out.append(tuple(a64(x) for x in (c.w_ih, c.w_hh, c.b_ih,
                                              c.b_hh)))
    else:
        for k in range(g.num_layers):
            out.append(tuple(a64(getattr(g, f'{n}_l{k}')) for n in (
                'weight_ih', 'weight_hh', 'bias_ih', 'bias_hh')))
    return out


def gru(weights, x, h0=None):
    """x[time, batch, feature]; returns output and final hidden states."""
    n_t, n_b, _ = x.shape
    H = weights[0][1].shape[1]
    h = [np.zeros((n_b, H)) if h0 is None else h0[k].copy()
         for k in range(len(weights))]
    out = []
    for t in range(n_t):
        v = x[t]
        for k, (wi, wh, bi, bh) in enumerate(weights):
            i, g = v @ wi.T + bi, h[k] @ wh.T + bh
            r = sig(i[:, :H] + g[:, :H])
            z = sig(i[:, H:2*H] + g[:, H:2*H])
            n = np.tanh(i[:, 2*H:] + r*g[:, 2*H:])
            h[k] = (1 - z)*n + z*h[k]
            v = h[k]
        out.append(v)
    return np.stack(out), np.stack(h)


def model(m, x, h0=None):
    """GRURNNModel: recurrent layers and linear read-out."""
    L = [c for c in m.children() if isinstance(c, torch.nn.Linear)][-1]
    G = [c for c in m.children() if isinstance(c, torch.nn.GRU)
         or hasattr(c, 'gru_layers')][0]
    source = 'torch' if isinstance(G, torch.nn.GRU) else 'custom'
    y, h = gru(gru_weights(G, source), x, h0)
    return y @ a64(L.weight).T + a64(L.bias), h


def scale(kind, par, x, back=False):
    if kind == 'min-max':
        lo, hi = np.asarray(par['minimum']), np.asarray(par['maximum'])
        a, b = par.get('norm_minimum', -1.), par.get('norm_maximum', 1.)
        if back:
            return lo + (hi - lo)*(x - a)/(b - a)
        return a + (b - a)*(x - lo)/(hi - lo)
    m, s = np.asarray(par['mean']), np.asarray(par['std'])
    if back:
        return x*s + m
    s = np.where(s == 0, 1., s)
    return (x - m)/s

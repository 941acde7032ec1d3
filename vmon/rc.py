"""Recurrent constitutive model workloads."""
import numpy as np
import torch
from vmon import mat, ref
from model_architectures.rc_base_model.model.recurrent_model import \
    RecurrentConstitutiveModel


def make(spec, n_dim, directory, vmap=False, learnable=None, norm=False,
         state=None, **kw):
    n = len(ref.SYM[n_dim])
    state = state or {}
    return RecurrentConstitutiveModel(
        n, n + sum(state.values()), learnable or {}, 'infinitesimal',
        mat.PT[n_dim], spec.name + ('_vmap' if vmap else ''),
        spec.code_parameters(), directory, state_features_out=state,
        is_normalized_parameters=norm, is_save_model_init_file=False, **kw)


def strain_path(rng, spec, n_dim, kind=None, n=8, offset=False):
    """(n_time, n_comp) tensor components of a strain path (component order
    of the problem) and the increments."""
    kind = kind or str(rng.choice(mat.KINDS))
    inc = mat.path(rng, kind, n_dim, spec.yield_strain(), n)
    e = np.zeros((n_dim, n_dim))
    if offset:
        e = ref.rand_sym(rng, n_dim)*spec.yield_strain()
    P = [e]
    for d in inc:
        P.append(P[-1] + d)
    return np.array([[p[ref.idx(c)] for c in ref.SYM[n_dim]] for p in P])


def tensor_of(row, n_dim):
    t = np.zeros((n_dim, n_dim))
    for x, c in zip(row, ref.SYM[n_dim]):
        i, j = ref.idx(c)
        t[i, j] = t[j, i] = x
    return t


def drive(model, n_dim, path, dtype=torch.float64):
    """Direct state updates along a strain path -> states (first is the
    initial state)."""
    st = model.state_init()
    out = [st]
    p = torch.tensor(path, dtype=dtype)
    for k in range(1, len(path)):
        inc = (p[k] - p[k-1]).double().numpy()
        st, _ = mat.update(model, n_dim,
                           torch.tensor(tensor_of(inc, n_dim), dtype=dtype),
                           st)
        out.append(st)
    return out


def stress_rows(states, n_dim):
    return np.array([[mat.full(s, 'stress_mf', n_dim)[ref.idx(c)]
                      for c in ref.SYM[n_dim]] for s in states])


def first_bad(states):
    """Index of the first failed state (or number of states)."""
    for k, s in enumerate(states):
        if mat.failed(s):
            return k
        if 'acc_p_strain' in s and mat.num(s['acc_p_strain']) < 0:
            return k
    return len(states)

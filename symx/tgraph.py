"""Symbolic execution of Theano graphs.

The code under test builds its graphs with the real Theano.  While it runs
symbolically, theano.function() returns a GraphFunction, which evaluates the
graph op by op on object arrays of symbolic values; theano.scan loops are
unrolled over the (concrete) number of time steps.  Shared variables keep their
symbolic values in a side table.  During replay nothing of this is installed.
"""
import contextlib
import math
from unittest import mock

import numpy as np
import theano
import z3
import theano.tensor as tt
import theano.tensor.blas
from theano import gof, scalar as ts
from theano.compile.sharedvalue import SharedVariable
from theano.scan_module.scan_op import Scan
from theano.tensor import elemwise, subtensor, basic as tb, nnet as tn, opt as topt, extra_ops
from theano.tensor.nnet import nnet as tnn
from theano.sandbox import rng_mrg

from . import core
from .core import SBool, SInt, SReal, SNum, is_sym, Unsupported, fn_log, fn_exp, fn_sqrt, ite
from .sparse import SSparse
from .shim import SArr, obj_array, has_sym, _map, _index, amax, amin

_store = {}     # id(shared variable) -> (variable, value)


def is_obj(x):
    return isinstance(x, SSparse) or isinstance(x, np.ndarray) and x.dtype == object or is_sym(x)


def arr(x):
    """any value as an array"""
    if isinstance(x, np.ndarray):
        return x
    if is_sym(x):
        o = np.empty((), dtype=object)
        o[()] = x
        return o.view(SArr)
    return np.asarray(x)


def oarr(x):
    x = arr(x)
    return x.astype(object).view(SArr) if x.dtype != object else x.view(SArr)


def native(x):
    """object array without symbolic elements -> native array of the dtype"""
    return x


def read(x):
    return x.view(np.ndarray) if isinstance(x, np.ndarray) else x


# --- scalar functions ------------------------------------------------------

def sigmoid(x):
    if not is_sym(x):
        sp = core._special(x)
        if sp is not None:
            return 1.0 if sp > 0 else 0.0
        if core.engine().floats:
            return 1.0 / (1.0 + math.exp(-x))
        x = SReal(core.real_term(x))
    t = core.canon(core.real_term(x))
    r = core.uf_apply('sigmoid', t)
    eng = core.engine()
    eng.axiom(core.z3.And(r > 0, r < 1))
    if core.z3.is_rational_value(t) and t.numerator_as_long() == 0:
        return 0.5
    return SReal(r)


def tanh(x):
    if not is_sym(x):
        sp = core._special(x)
        if sp is not None:
            return math.copysign(1.0, sp)
        if x == 0:
            return 0.0
        if core.engine().floats:
            return math.tanh(x)
        x = SReal(core.real_term(x))
    t = core.canon(core.real_term(x))
    if core.z3.is_rational_value(t) and t.numerator_as_long() == 0:
        return 0.0
    r = core.uf_apply('tanh', t)
    core.engine().axiom(core.z3.And(r > -1, r < 1))
    return SReal(r)


def softplus(x):
    sp = None if is_sym(x) else core._special(x)
    if sp is not None:
        return sp if sp > 0 else 0.0
    return fn_log(1 + fn_exp(x))


def s_abs(x):
    return abs(core.name_term(x, True)) if is_sym(x) else abs(x)


def div(a, b):
    return a / b


def second(a, b):
    return b


def clip(x, lo, hi):
    return ite(x < lo, lo, ite(x > hi, hi, x))


def mul(*xs):
    r = xs[0]
    for x in xs[1:]:
        # a zero mask kills everything finite
        r = r * x
    return r


def add(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def b_and(*xs):
    r = xs[0]
    for x in xs[1:]:
        if isinstance(r, (SBool, bool, np.bool_)) and isinstance(x, (SBool, bool, np.bool_)):
            if isinstance(r, SBool):
                r = r & x
            elif isinstance(x, SBool):
                r = x & r
            else:
                r = bool(r) and bool(x)
        else:
            r = int(r) & int(x)
    return r


def b_or(*xs):
    r = xs[0]
    for x in xs[1:]:
        if isinstance(r, (SBool, bool, np.bool_)) and isinstance(x, (SBool, bool, np.bool_)):
            if isinstance(r, SBool):
                r = r | x
            elif isinstance(x, SBool):
                r = x | r
            else:
                r = bool(r) or bool(x)
        else:
            r = int(r) | int(x)
    return r


def invert(x):
    if isinstance(x, SBool):
        return ~x
    if isinstance(x, (bool, np.bool_)):
        return not x
    return ~int(x)


def sgn(x):
    if not is_sym(x):
        return float(np.sign(x))
    return ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))


def isspecial(f):
    return lambda x: False if is_sym(x) else bool(f(x))


def log1p(x):
    return fn_log(1 + x)


def s_pow(a, b):
    return core.power(a, b)


def int_div(a, b):
    return a // b


def identity(x):
    return x


def neq(a, b):
    return a != b


def maximum(a, b):
    return ite(a >= b, a, b)


def minimum(a, b):
    return ite(a <= b, a, b)


SCALAR = {
    ts.Add: add, ts.Mul: mul, ts.Sub: lambda a, b: a - b, ts.TrueDiv: div, ts.IntDiv: int_div, ts.Mod: lambda a, b: a % b,
    ts.Neg: lambda a: -a, ts.Sqr: lambda a: a * a, ts.Sqrt: fn_sqrt, ts.Log: fn_log, ts.Log1p: log1p, ts.Exp: fn_exp,
    ts.Log2: lambda a: fn_log(a) / fn_log(2), ts.Log10: lambda a: fn_log(a) / fn_log(10),
    ts.Tanh: tanh, ts.Switch: lambda c, a, b: ite(truth(c), a, b), ts.EQ: lambda a, b: a == b, ts.NEQ: neq, ts.LT: lambda a, b: a < b,
    ts.GT: lambda a, b: a > b, ts.LE: lambda a, b: a <= b, ts.GE: lambda a, b: a >= b, ts.AND: b_and, ts.OR: b_or,
    ts.Invert: invert, ts.Abs: s_abs, ts.Maximum: maximum, ts.Minimum: minimum, ts.Identity: identity, ts.Second: second,
    ts.Pow: s_pow, ts.Clip: clip, ts.Inv: lambda a: 1 / a, ts.IsNan: isspecial(math.isnan), ts.IsInf: isspecial(math.isinf),
    ts.Sgn: sgn,
}
from theano.tensor.nnet import sigm as _sigm
SCALAR[_sigm.ScalarSigmoid] = sigmoid
SCALAR[_sigm.ScalarSoftplus] = softplus
for _n in ('UltraFastScalarSigmoid',):
    pass
for _n, _f in (('RoundHalfToEven', round), ('Floor', math.floor), ('Ceil', math.ceil)):
    if hasattr(ts, _n):
        SCALAR[getattr(ts, _n)] = _f


def truth(c):
    if isinstance(c, SBool):
        return c
    if isinstance(c, SNum):
        return c != 0
    return bool(c)


def cast_to(kind, e):
    if is_sym(e):
        if isinstance(e, SBool):
            return e if kind == 'b' else (e._num() if kind in 'iu' else SReal(core.real_term(e)))
        if kind == 'f':
            return e if isinstance(e, SReal) else SReal(core.real_term(e))
        if kind in 'iu':
            return e if isinstance(e, SInt) else e.__trunc__()
        return e != 0
    if kind == 'f':
        return float(e)
    if kind in 'iu':
        return int(e)
    return bool(e)


def scalar_fn(op):
    if isinstance(op, ts.Cast):
        kind = np.dtype(op.o_type.dtype).kind
        return lambda e: cast_to(kind, e)
    if isinstance(op, ts.Composite):
        def f(*xs):
            env = dict(zip(op.fgraph.inputs, xs))

            def ev(v):
                if v in env:
                    return env[v]
                if isinstance(v, gof.Constant):
                    return v.data
                r = scalar_fn(v.owner.op)(*[ev(i) for i in v.owner.inputs])
                env[v] = r
                return r
            return ev(op.fgraph.outputs[0])
        return f
    for c in type(op).__mro__:
        if c in SCALAR:
            return SCALAR[c]
    raise Unsupported('scalar op %s' % op)


# --- ops -------------------------------------------------------------------

def py_index(idx_list, args):
    """the index expression of a Subtensor op"""
    args = list(args)

    def conv(e):
        if isinstance(e, slice):
            return slice(conv(e.start), conv(e.stop), conv(e.step))
        if e is None:
            return None
        if isinstance(e, gof.Type) or isinstance(e, ts.Scalar):
            v = args.pop(0)
            v = arr(v)
            return int(v[()] if v.ndim == 0 else v.ravel()[0])
        return int(e)
    return tuple(conv(e) for e in idx_list)


def dense_index(ix):
    ix = arr(ix)
    if ix.dtype == object:
        return np.asarray(_index(ix))
    return ix


def advanced(idx):
    out = []
    for i in idx:
        if i is None or isinstance(i, slice):
            out.append(i)
        else:
            out.append(dense_index(i))
    return tuple(out)


def dot(a, b):
    if is_obj(a) or is_obj(b):
        return oarr(np.dot(np.asarray(a, dtype=object), np.asarray(b, dtype=object)))
    return np.dot(a, b)


def h_dot(op, node, a, b):
    return [dot(a, b)]


def h_elemwise(op, node, *xs):
    f = scalar_fn(op.scalar_op)
    xs = [arr(x) for x in xs]
    r = _map(f, *xs)
    return [r if isinstance(r, np.ndarray) else arr(r)]


def h_dimshuffle(op, node, x):
    x = arr(x)
    order = op.new_order
    kept = [o for o in order if o != 'x']
    drop = [i for i in range(x.ndim) if i not in kept]
    for d in drop:
        if x.shape[d] != 1:
            raise ValueError('dimshuffle drops a dimension of size %d' % x.shape[d])
    y = np.transpose(np.asarray(x), kept + drop)
    y = y.reshape([y.shape[i] for i in range(len(kept))])
    shape, k = [], 0
    for o in order:
        if o == 'x':
            shape.append(1)
        else:
            shape.append(y.shape[k])
            k += 1
    return [y.reshape(shape).view(SArr) if y.dtype == object else y.reshape(shape)]


def h_reshape(op, node, x, shape):
    return [arr(x).reshape([int(s) for s in np.asarray(arr(shape)).ravel()])]


def h_subtensor(op, node, x, *ix):
    return [arr(arr(x)[py_index(op.idx_list, ix)])]


def h_incsubtensor(op, node, x, y, *ix):
    i = py_index(op.idx_list, ix)
    obj = is_obj(x) or is_obj(y)
    r = oarr(x).copy() if obj else np.array(x)
    if op.set_instead_of_inc:
        r[i] = np.asarray(arr(y)) if arr(y).ndim else arr(y)[()]
    else:
        cur = r[i]
        r[i] = cur + (np.asarray(arr(y)) if arr(y).ndim else arr(y)[()])
    return [r]


def h_advsub(op, node, x, *ix):
    r = select(x, ix)
    if r is not None:
        return [r]
    return [arr(arr(x)[advanced(ix)])]


def select(x, ix):
    """x[i, j, ...] with symbolic integer indices, as nested if-then-else; None
    when an index is not a plain integer array or may be out of range"""
    ix = [i if i is None or isinstance(i, slice) else arr(i) for i in ix]
    if not all(isinstance(i, np.ndarray) for i in ix):
        return None
    x = arr(x)
    if not any(i.dtype == object and has_sym(i) for i in ix) or not is_obj(x) and x.dtype.kind not in 'iuf':
        return None
    idx = np.broadcast_arrays(*[np.asarray(i) for i in ix])
    eng = core.engine()
    z3 = core.z3
    for d, i in enumerate(idx):
        for e in set(i.ravel().tolist()) if i.dtype != object else i.ravel().tolist():
            if isinstance(e, SBool):
                return None
            if is_sym(e):
                b = eng.bounds.get(str(e.t)) if e.t.num_args() == 0 else None
                if b is not None and b[1] >= 0 and b[2] < x.shape[d]:
                    continue
                if eng._check(z3.Or(e.t < 0, e.t >= x.shape[d])) != z3.unsat:
                    return None
    tail = x.shape[len(idx):]
    out = np.empty(idx[0].shape + tail, dtype=object)

    def pick(arrs, es):
        """arrs: remaining array, es: remaining indices -> element array"""
        if not es:
            return arrs
        e = es[0]
        if not is_sym(e):
            return pick(arrs[int(e)], es[1:])
        r = pick(arrs[arrs.shape[0] - 1], es[1:])
        for v in range(arrs.shape[0] - 2, -1, -1):
            c = e == v
            if c is False:
                continue
            o = pick(arrs[v], es[1:])
            if isinstance(r, np.ndarray) and r.ndim:
                m = np.empty(r.shape, dtype=object)
                for k in np.ndindex(*r.shape):
                    m[k] = ite(c, o[k], r[k])
                r = m
            else:
                r = ite(c, unbox(o), unbox(r))
        return r
    for p in np.ndindex(*idx[0].shape):
        v = pick(np.asarray(x), [i[p] for i in idx])
        if isinstance(v, np.ndarray) and v.ndim:
            for k in np.ndindex(*v.shape):
                out[p + k] = core.name_term(v[k])
        else:
            out[p] = core.name_term(unbox(v))
    return out.view(SArr)


def h_advinc(op, node, x, y, *ix):
    i = advanced(ix)
    y = arr(y)
    obj = is_obj(x) or is_obj(y)
    r = oarr(x).copy() if obj else np.array(x)
    if op.set_instead_of_inc:
        r[i] = np.asarray(y) if y.ndim else y[()]
    elif not obj:
        np.add.at(r, i, y)
    else:
        pos = np.arange(r.size).reshape(r.shape)[i]
        yb = np.broadcast_to(np.asarray(oarr(y)), pos.shape)
        flat = r.reshape(-1)
        for p, v in zip(pos.ravel().tolist(), yb.ravel().tolist()):
            flat[p] = flat[p] + v
        r = flat.reshape(r.shape).view(SArr)
    return [r]


def h_careduce(op, node, x):
    x = arr(x)
    axis = op.axis
    if axis is None:
        axis = tuple(range(x.ndim))
    elif isinstance(axis, int):
        axis = (axis,)
    axis = tuple(a % x.ndim for a in axis) if x.ndim else ()
    keep = [i for i in range(x.ndim) if i not in axis]
    y = np.transpose(np.asarray(oarr(x)), keep + list(axis))
    y = y.reshape([x.shape[i] for i in keep] + [-1])
    so = op.scalar_op
    f = scalar_fn(so)
    out = np.empty(y.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        l = y[i].tolist()
        if not l:
            if isinstance(so, ts.Add):
                v = 0
            elif isinstance(so, ts.Mul):
                v = 1
            else:
                raise ValueError('reduction of an empty array')
        else:
            v = l[0]
            for e in l[1:]:
                v = f(v, e)
        out[i] = v
    return [out.view(SArr)]


def softmax_row(row):
    es = [fn_exp(e) for e in row]
    s = es[0]
    for e in es[1:]:
        s = s + e
    eng = core.engine()
    if eng.name_softmax and all(isinstance(e, core.SReal) for e in es):
        # a constant for each probability: p * sum = exp, so that probabilities cancel from quotients
        terms = [core.canon(core.real_term(e)) for e in es]
        key = ('softmax',) + tuple(t.get_id() for t in terms)
        if key not in eng.memo:
            ps = [z3.Real('p!%d_%d' % (len(eng.memo), i)) for i in range(len(es))]
            eng.memo[key] = (terms, ps)
            for p in ps:
                eng._positive.add(p.get_id())
                eng.axiom(p > 0)
                eng.axiom(p <= 1)
            for p, e in zip(ps[1:], es[1:]):
                eng.axiom(p * core.real_term(es[0]) == ps[0] * core.real_term(e))
            eng.axiom(z3.Sum(ps) == 1)
        return [core.SReal(p) for p in eng.memo[key][1]]
    return [e / s for e in es]


def h_softmax(op, node, x):
    x = oarr(x)
    out = np.empty(x.shape, dtype=object)
    if x.ndim == 1:
        x2, o2 = x[None], out[None]
    else:
        x2, o2 = x, out
    for i in range(x2.shape[0]):
        for j, v in enumerate(softmax_row(x2[i].tolist())):
            o2[i, j] = v
    return [out.view(SArr)]


def h_softmax_bias(op, node, x, b):
    return h_softmax(op, node, arr(x) + arr(b))


def h_softmaxgrad(op, node, dy, sm):
    dy, sm = oarr(dy), oarr(sm)
    t = dy * sm
    s = t.sum(axis=t.ndim - 1)
    return [oarr(t - np.asarray(oarr(s))[..., None] * np.asarray(sm))]


def h_join(op, node, axis, *xs):
    axis = int(arr(axis)[()] if arr(axis).ndim == 0 else arr(axis).ravel()[0])
    xs = [arr(x) for x in xs]
    if any(is_obj(x) for x in xs):
        return [np.concatenate([np.asarray(oarr(x)) for x in xs], axis=axis).view(SArr)]
    return [np.concatenate(xs, axis=axis)]


def h_alloc(op, node, v, *shape):
    shape = tuple(int(arr(s)[()]) for s in shape)
    v = arr(v)
    return [np.array(np.broadcast_to(np.asarray(v), shape)).view(SArr) if v.dtype == object
            else np.array(np.broadcast_to(v, shape))]


def h_allocempty(op, node, *shape):
    shape = tuple(int(arr(s)[()]) for s in shape)
    return [np.empty(shape, dtype=object).view(SArr)]


def h_shape(op, node, x):
    return [np.asarray(arr(x).shape, dtype='int64')]


def h_shape_i(op, node, x):
    return [np.asarray(arr(x).shape[op.i], dtype='int64')]


def h_makevector(op, node, *xs):
    if any(is_obj(arr(x)) for x in xs):
        return [obj_array([arr(x)[()] for x in xs])]
    return [np.asarray([arr(x)[()] for x in xs], dtype=op.dtype)]


def h_same(op, node, x, *rest):
    return [arr(x)]


def h_nonzero(op, node, x):
    x = arr(x)
    if x.dtype == object:
        x = np.array([bool(e) for e in x.ravel().tolist()], dtype=bool).reshape(x.shape)
    return [np.asarray(i, dtype='int64') for i in np.nonzero(x)]


def h_argmax(op, node, x, *rest):
    raise Unsupported('argmax of symbolic values')


def first_max(l):
    best = 0
    for i in range(1, len(l)):
        if bool(l[i] > l[best]):
            best = i
    return best


def h_maxargmax(op, node, x, *rest):
    x = oarr(x)
    axis = getattr(op, 'axis', None)
    if axis is None:
        axis = tuple(range(x.ndim))
    elif isinstance(axis, int):
        axis = (axis,)
    axis = tuple(axis)
    keep = [i for i in range(x.ndim) if i not in axis]
    y = np.transpose(np.asarray(x), keep + list(axis)).reshape([x.shape[i] for i in keep] + [-1])
    mx = np.empty(y.shape[:-1], dtype=object)
    am = np.empty(y.shape[:-1], dtype='int64')
    for i in np.ndindex(*am.shape):
        l = y[i].tolist()
        b = first_max(l)
        mx[i], am[i] = l[b], b
    return [mx.view(SArr), am][:len(node.outputs)] if len(node.outputs) == 2 else [am]


def h_batched_dot(op, node, a, b):
    a, b = np.asarray(oarr(a)), np.asarray(oarr(b))
    return [np.stack([np.dot(x, y) for x, y in zip(a, b)]).view(SArr)]


def h_conv2d(op, node, img, kern):
    """AbstractConv2d, NCHW"""
    img, kern = np.asarray(oarr(img)), np.asarray(oarr(kern))
    flip = op.filter_flip
    bm = op.border_mode
    kh, kw = kern.shape[2:]
    if bm == 'valid':
        ph = pw = 0
    elif bm == 'full':
        ph, pw = kh - 1, kw - 1
    elif bm == 'half':
        ph, pw = kh // 2, kw // 2
    elif isinstance(bm, int):
        ph = pw = bm
    elif all(isinstance(e, int) for e in bm):
        ph, pw = bm
    else:
        raise Unsupported('border mode %r' % (bm,))
    if tuple(op.filter_dilation) != (1, 1) or getattr(op, 'num_groups', 1) != 1:
        raise Unsupported('dilated or grouped convolution')
    n, c, h, w = img.shape
    pad = np.empty((n, c, h + 2 * ph, w + 2 * pw), dtype=object)
    pad[...] = 0.0
    pad[:, :, ph:ph + h, pw:pw + w] = img
    if flip:
        kern = kern[:, :, ::-1, ::-1]
    sh, sw = op.subsample
    oh = (pad.shape[2] - kh) // sh + 1
    ow = (pad.shape[3] - kw) // sw + 1
    out = np.empty((n, kern.shape[0], oh, ow), dtype=object)
    for b in range(n):
        for f in range(kern.shape[0]):
            for i in range(oh):
                for j in range(ow):
                    win = pad[b, :, i * sh:i * sh + kh, j * sw:j * sw + kw]
                    out[b, f, i, j] = (win * kern[f]).sum()
    return [out.view(SArr)]


def h_sparse_block_gemv(op, node, o, W, h, in_idx, out_idx):
    o, W, h = oarr(o).copy(), oarr(W), oarr(h)
    in_idx, out_idx = dense_index(in_idx), dense_index(out_idx)
    for b in range(o.shape[0]):
        for j in range(o.shape[1]):
            oj = out_idx[b, j]
            for i in range(h.shape[1]):
                ii = in_idx[b, i]
                o[b, j] = o[b, j] + np.dot(np.asarray(h[b, i]), np.asarray(W[ii, oj]))
    return [o.view(SArr)]


def h_arange(op, node, a, b, c):
    return [np.arange(int(arr(a)[()]), int(arr(b)[()]), int(arr(c)[()]), dtype=op.dtype)]


def h_scan(op, node, *args):
    n_steps = int(arr(args[0])[()])
    seqs = [arr(a) for a in args[1:1 + op.n_seqs]]
    for s in seqs:
        if s.shape[0] < n_steps:
            raise ValueError('a sequence of a scan is shorter than the number of steps')
    n_outs = op.n_mit_mot + op.n_mit_sot + op.n_sit_sot
    base = 1 + op.n_seqs
    bufs = [oarr(a).copy() for a in args[base:base + n_outs]]
    store = [b.shape[0] for b in bufs]
    shared = list(args[base + n_outs:base + n_outs + op.n_shared_outs])
    off = base + n_outs + op.n_shared_outs
    nit_len = [int(arr(a)[()]) for a in args[off:off + op.n_nit_sot]]
    nits = [[None] * n for n in nit_len]
    other = list(args[off + op.n_nit_sot:])
    pos = [(-min(op.tap_array[j])) % store[j] if store[j] else 0 for j in range(n_outs)]
    npos = [0] * op.n_nit_sot
    if op.as_while:
        raise Unsupported('scan with a condition')
    for i in range(n_steps):
        ins = [s[i] for s in seqs]
        for j in range(n_outs):
            for tap in op.tap_array[j]:
                ins.append(arr(bufs[j][(pos[j] + tap) % store[j]]))
        ins += shared
        ins += other
        env = {v: x for v, x in zip(op.inputs, ins)}
        outs = evaluate(op.outputs, env)
        k = 0
        for j in range(op.n_mit_mot):
            for tap in op.mit_mot_out_slices[j]:
                bufs[j][pos[j] + tap] = unbox(outs[k])
                k += 1
        for j in range(op.n_mit_mot, n_outs):
            bufs[j][pos[j]] = unbox(outs[k])
            k += 1
        for j in range(op.n_nit_sot):
            if nit_len[j]:
                nits[j][npos[j]] = np.asarray(oarr(outs[k]))
                npos[j] = (npos[j] + 1) % nit_len[j]
            k += 1
        shared = list(outs[k:k + op.n_shared_outs])
        for j in range(n_outs):
            if i >= store[j] + min(op.tap_array[j]) and j >= op.n_mit_mot and i + 1 < n_steps:
                raise Unsupported('scan with a wrapping buffer')
            pos[j] = (pos[j] + 1) % store[j]
    res = list(bufs)
    for j in range(op.n_nit_sot):
        if not nits[j]:
            nd = node.outputs[n_outs + j].ndim
            res.append(np.empty((0,) * nd, dtype=object).view(SArr))
        else:
            if any(e is None for e in nits[j]):
                raise Unsupported('scan output longer than the loop')
            res.append(np.stack(nits[j]).view(SArr))
    return res + shared


def unbox(x):
    x = arr(x)
    return np.asarray(x) if x.ndim else x[()]


def h_eye(op, node, n, m, k):
    return [np.eye(int(arr(n)[()]), int(arr(m)[()]), int(arr(k)[()]))]


def h_split(op, node, x, axis, splits):
    x = arr(x)
    ix = np.cumsum([int(s) for s in arr(splits)])[:-1]
    return [p for p in np.split(np.asarray(x), ix, axis=int(arr(axis)[()]))]


def h_repeat(op, node, x, r):
    return [np.repeat(np.asarray(arr(x)), dense_index(r), axis=op.axis)]


def h_tile(op, node, x, reps):
    return [np.tile(np.asarray(arr(x)), [int(r) for r in arr(reps)])]


def h_scalar(op, node, *xs):
    return [arr(scalar_fn(op)(*[arr(x)[()] for x in xs]))]


# random numbers: hook(shape) -> array
RANDOM = [None]


def h_mrg(op, node, rstate, size):
    shape = tuple(int(s) for s in np.asarray(arr(size)).ravel())
    return [arr(rstate), RANDOM[0](shape)]


def h_multinomial(op, node, pvals, unis, *n):
    """one draw per row: the first index whose cumulative probability exceeds the uniform number"""
    pvals, unis = oarr(pvals), oarr(unis)
    if n and int(arr(n[0])[()]) != 1:
        raise Unsupported('several multinomial draws')
    out = np.zeros(pvals.shape, dtype='int64')
    for i in range(pvals.shape[0]):
        u = unis[i]
        cum = 0.0
        for j in range(pvals.shape[1]):
            cum = cum + pvals[i, j]
            if j == pvals.shape[1] - 1 or bool(cum > u):
                out[i, j] = 1
                break
    return [out]


def h_choice(op, node, pvals, unis, n):
    """draws without replacement: the probability of a drawn class becomes zero, the rest are normalised"""
    pvals, unis = np.array(oarr(pvals), dtype=object), oarr(unis)
    n = int(arr(n)[()])
    if n > pvals.shape[1]:
        raise ValueError('Cannot sample without replacement n samples bigger than the size of the distribution.')
    out = -np.ones((pvals.shape[0], n), dtype='int64')
    for c in range(n):
        for i in range(pvals.shape[0]):
            u = unis[c * pvals.shape[0] + i]
            cum = 0.0
            live = [j for j in range(pvals.shape[1]) if core.is_sym(pvals[i, j]) or pvals[i, j] > 0]
            for j in live:
                cum = cum + pvals[i, j]
                if j == live[-1] or bool(cum > u):
                    out[i, c] = j
                    pvals[i, j] = 0.0
                    rest = sum(pvals[i, k] for k in live if k != j)
                    for k in live:
                        if k != j:
                            pvals[i, k] = pvals[i, k] / rest
                    break
    return [out]


HANDLERS = {
    elemwise.Elemwise: h_elemwise, elemwise.DimShuffle: h_dimshuffle, tb.Reshape: h_reshape, elemwise.CAReduce: h_careduce,
    subtensor.Subtensor: h_subtensor, subtensor.IncSubtensor: h_incsubtensor,
    subtensor.AdvancedSubtensor1: h_advsub, subtensor.AdvancedIncSubtensor1: h_advinc,
    tb.Dot: h_dot, tnn.Softmax: h_softmax, tnn.SoftmaxGrad: h_softmaxgrad, tnn.SoftmaxWithBias: h_softmax_bias,
    tb.Join: h_join, tb.Alloc: h_alloc, tb.AllocEmpty: h_allocempty, theano.compile.ops.Shape: h_shape,
    theano.compile.ops.Shape_i: h_shape_i, topt.MakeVector: h_makevector, tb.Rebroadcast: h_same,
    theano.compile.ops.SpecifyShape: h_same, tb.TensorFromScalar: h_same, tb.ScalarFromTensor: h_same,
    theano.compile.ops.ViewOp: h_same, theano.compile.ops.DeepCopyOp: h_same,
    tb.Nonzero: h_nonzero, tb.ARange: h_arange, Scan: h_scan, tb.Eye: h_eye, tb.Split: h_split, theano.tensor.blas.BatchedDot: h_batched_dot,
    tb.MaxAndArgmax: h_maxargmax, rng_mrg.mrg_uniform: h_mrg, ts.ScalarOp: h_scalar,
    theano.tensor.opt.Assert: h_same,
}
for _mod, _n, _f in ((subtensor, 'AdvancedSubtensor', h_advsub), (subtensor, 'AdvancedIncSubtensor', h_advinc),
                     (subtensor, 'BaseAdvancedSubtensor', h_advsub), (subtensor, 'BaseAdvancedIncSubtensor', h_advinc),
                     (tb, 'Argmax', h_maxargmax), (extra_ops, 'RepeatOp', h_repeat), (tb, 'Tile', h_tile)):
    if hasattr(_mod, _n):
        HANDLERS[getattr(_mod, _n)] = _f
from theano.sandbox import multinomial as _mn
HANDLERS[_mn.MultinomialFromUniform] = h_multinomial
HANDLERS[_mn.ChoiceFromUniform] = h_choice
from theano.tensor.nnet import abstract_conv as _ac, blocksparse as _bs
HANDLERS[_ac.AbstractConv2d] = h_conv2d
HANDLERS[_bs.SparseBlockGemv] = h_sparse_block_gemv
from theano.tensor.nnet.nnet import CrossentropySoftmax1HotWithBiasDx  # noqa: F401 (kept native only)
from theano.gradient import GradClip, DisconnectedGrad, ConsiderConstant  # noqa: F401
HANDLERS[GradClip] = h_same
from theano.sparse import basic as _sp


def h_csm_properties(op, node, m):
    data = m.data
    if not has_sym(data):
        data = np.asarray(data).astype('int32')
    return [data, m.indices, m.indptr, np.array(m.shape, dtype='int32')]


def h_sparse_item(op, node, m, i, j):
    return [arr(m[int(arr(i)[()]), int(arr(j)[()])])]


HANDLERS[_sp.CSMProperties] = h_csm_properties
HANDLERS[_sp.GetItemScalar] = h_sparse_item
HANDLERS[DisconnectedGrad] = h_same
HANDLERS[ConsiderConstant] = h_same


def handler(op):
    for c in type(op).__mro__:
        if c in HANDLERS:
            return HANDLERS[c]
    return None


def run_native(node, ins):
    vals = []
    for v, x in zip(node.inputs, ins):
        if isinstance(x, np.ndarray) and isinstance(v.type, tt.TensorType) and x.dtype != np.dtype(v.type.dtype):
            x = x.astype(v.type.dtype)
        vals.append(x)
    out = [[None] for _ in node.outputs]
    p = node.run_params()
    if p is gof.graph.NoParams:
        node.op.perform(node, vals, out)
    else:
        node.op.perform(node, vals, out, node.params_type.filter(p))
    return [o[0] for o in out]


NATIVE_FIRST = (elemwise.Elemwise, elemwise.CAReduce)
HANDLE_ALWAYS = (Scan, rng_mrg.mrg_uniform, tnn.Softmax, tb.AllocEmpty)
FLOAT_UF = (ts.Log, ts.Exp, ts.Tanh, ts.Sqrt, _sigm.ScalarSigmoid, _sigm.ScalarSoftplus, ts.Log1p, ts.Pow, ts.Log2, ts.Log10)


def apply_node(node, ins):
    op = node.op
    h = handler(op)
    obj = any(is_obj(x) for x in ins)
    if not obj and not isinstance(op, HANDLE_ALWAYS):
        if isinstance(op, (elemwise.Elemwise,)) and isinstance(op.scalar_op, FLOAT_UF):
            return h(op, node, *ins)
        try:
            return run_native(node, ins)
        except NotImplementedError:
            pass
    if h is None:
        raise Unsupported('Theano op %s' % type(op).__name__)
    outs = h(op, node, *ins)
    if len(outs) != len(node.outputs):
        raise Unsupported('op %s gave %d outputs' % (op, len(outs)))
    # arrays of plain numbers become native again (indices, masks, shapes)
    res = []
    for o, v in zip(outs, node.outputs):
        if isinstance(o, np.ndarray) and o.dtype == object and isinstance(v.type, tt.TensorType) \
                and np.dtype(v.type.dtype).kind in 'iub' and not has_sym(o) and all(e is not None for e in o.ravel().tolist()):
            o = np.asarray(o).astype(v.type.dtype)
        res.append(o)
    return res


def value_of(var):
    e = _store.get(id(var))
    if e is not None:
        return e[1]
    return _real_get(var)


_real_get = SharedVariable.get_value
_real_set = SharedVariable.set_value


def evaluate(outputs, env):
    """values of the variables, given values of some variables"""
    env = dict(env)

    def need(v):
        return v not in env
    for out in outputs:
        stack = [out]
        while stack:
            v = stack[-1]
            if not need(v):
                stack.pop()
                continue
            if isinstance(v, gof.Constant):
                d = v.data
                env[v] = np.asarray(d) if isinstance(d, (np.ndarray, float, int, np.number, bool)) else d
                stack.pop()
                continue
            if isinstance(v, SharedVariable):
                x = value_of(v)
                env[v] = x if not isinstance(x, (float, int)) else np.asarray(x)
                stack.pop()
                continue
            if v.owner is None:
                if v.name is None and isinstance(v.type, gof.type.Generic):
                    env[v] = None
                    stack.pop()
                    continue
                raise theano.gof.MissingInputError('no value for %s' % v)
            todo = [i for i in v.owner.inputs if need(i)]
            if todo:
                stack.extend(todo)
                continue
            res = apply_node(v.owner, [env[i] for i in v.owner.inputs])
            for o, r in zip(v.owner.outputs, res):
                env[o] = r
            stack.pop()
    return [env[o] for o in outputs]


class GraphFunction(object):
    def __init__(self, inputs, outputs=None, updates=None, givens=None, **kw):
        self.inputs = [i.variable if isinstance(i, theano.compile.io.In) else i for i in inputs]
        self.single = outputs is not None and not isinstance(outputs, (list, tuple))
        outs = [] if outputs is None else ([outputs] if self.single else list(outputs))
        self.outputs = [o.variable if isinstance(o, theano.compile.io.Out) else o for o in outs]
        self.updates = list(updates.items() if hasattr(updates, 'items') else (updates or []))
        seen = set()
        for var, expr in self.updates:
            if not isinstance(var, SharedVariable):
                raise TypeError('update target must be a SharedVariable')
            if var in seen:
                raise ValueError('this shared variable already has an update expression', (var, expr))
            seen.add(var)
        self.givens = list(givens.items() if hasattr(givens, 'items') else (givens or []))
        self.kw = kw
        # the same complaint about unused inputs as Theano's
        roots = [tt.as_tensor_variable(e) if not isinstance(e, gof.Variable) else e
                 for e in self.outputs + [x for _, x in self.updates]]
        rep = {k: (tt.as_tensor_variable(v) if not isinstance(v, gof.Variable) else v) for k, v in self.givens}
        self.givens = list(rep.items())
        used = set()
        stack = list(roots)
        while stack:
            v = stack.pop()
            if v in used:
                continue
            used.add(v)
            if v in rep:
                stack.append(rep[v])
                # theano also needs the replaced variable itself when it is an input
                continue
            if v.owner:
                stack.extend(v.owner.inputs)
        for i in self.inputs:
            if i not in used and kw.get('on_unused_input', 'raise') == 'raise':
                raise theano.compile.UnusedInputError('theano.function was asked to create a function computing outputs '
                                                      'given certain inputs, but the provided input variable %s is not '
                                                      'part of the computational graph' % i)
        for v in used:
            if v.owner is None and not isinstance(v, (gof.Constant, SharedVariable)) and v not in rep and v not in self.inputs \
                    and not isinstance(v.type, gof.type.Generic):
                raise gof.MissingInputError('Undeclared input', v)

    def __call__(self, *args, **kw):
        if kw:
            raise Unsupported('keyword arguments of a Theano function')
        if len(args) != len(self.inputs):
            raise TypeError('Wrong number of arguments: %d instead of %d' % (len(args), len(self.inputs)))
        env = {}
        for v, a in zip(self.inputs, args):
            a = arr(a) if not isinstance(a, list) else (obj_array(a) if has_sym(a) else np.asarray(a))
            if isinstance(v.type, tt.TensorType):
                if a.ndim != v.type.ndim:
                    raise TypeError('Bad input argument %s: wrong number of dimensions: expected %d, got %d'
                                    % (v, v.type.ndim, a.ndim))
                if a.dtype != object:
                    if np.dtype(v.type.dtype).kind in 'iub' and a.dtype.kind == 'f':
                        raise TypeError('Bad input argument %s: float array for an integer input' % v)
                    a = a.astype(v.type.dtype)
            env[v] = a
        # givens may refer to inputs, shared variables and constants
        gv = evaluate([e for _, e in self.givens], env)
        env2 = dict(env)
        for (v, _), x in zip(self.givens, gv):
            env2[v] = x
        exprs = self.outputs + [tt.as_tensor_variable(e) if not isinstance(e, gof.Variable) else e for _, e in self.updates]
        vals = evaluate(exprs, env2)
        k = len(self.outputs)
        for (var, _), x in zip(self.updates, vals[k:]):
            _store[id(var)] = (var, arr(x))
        outs = [wrap(o) for o in vals[:k]]
        if self.single:
            return outs[0]
        return outs


def wrap(o):
    """Theano returns 0-d arrays for scalars"""
    if isinstance(o, np.ndarray):
        return o.view(SArr) if o.dtype == object else o
    return o


def _mrg_perform(self, node, inp, out, params):
    rstate, size = inp
    out[0][0] = rstate
    out[1][0] = RANDOM[0](tuple(int(s) for s in np.asarray(size).ravel())).astype(node.outputs[1].dtype)


def _conv_perform(self, node, inp, out):
    # SciPy, which Theano's Python implementation needs, is not installed
    out[0][0] = np.asarray(h_conv2d(self, node, *inp)[0]).astype(node.outputs[0].dtype)


@contextlib.contextmanager
def theano_env(ctx, name='u'):
    """symbolic: graph functions and shared-variable table; both modes: the
    uniform random numbers of the generator are inputs chosen by the solver"""
    count = [0]
    draws = []

    def draw(shape):
        k = count[0]
        count[0] += 1
        a = np.empty(shape, dtype=object)
        for n, i in enumerate(np.ndindex(*shape)):
            a[i] = ctx.real('%s%d_%d' % (name, k, n), 0, core.Fraction(9999999, 10000000))
        draws.append(a)
        return a.view(SArr) if ctx.symbolic else a.astype('float64')

    if not ctx.symbolic:
        # compiled functions may be cached over runs, so that they refer to the current generator indirectly
        old = RANDOM[0]
        RANDOM[0] = draw
        try:
            with mock.patch.object(rng_mrg.mrg_uniform, 'perform', _mrg_perform), \
                    mock.patch.object(_ac.AbstractConv2d, 'perform', _conv_perform):
                yield draws
        finally:
            RANDOM[0] = old
        return

    def get_value(self, borrow=False, return_internal_type=False):
        e = _store.get(id(self))
        if e is None:
            return _real_get(self, borrow, return_internal_type)
        x = e[1]
        return x if borrow else (x.copy() if isinstance(x, np.ndarray) else x)

    def set_value(self, new_value, borrow=False):
        if has_sym(new_value) or is_obj(new_value):
            _store[id(self)] = (self, arr(new_value) if borrow else arr(new_value).copy())
        else:
            _store.pop(id(self), None)
            _real_set(self, new_value, borrow)

    def shared(value, *a, **k):
        if isinstance(value, SSparse):
            v = real_shared(value.pattern(), *a, **k)
            _store[id(v)] = (v, value)
            return v
        if not (has_sym(value) or is_obj(value)):
            return real_shared(value, *a, **k)
        x = arr(value)
        dtype = theano.config.floatX
        if x.size and all(isinstance(e, (int, np.integer, SInt)) and not isinstance(e, bool) for e in x.ravel().tolist()):
            dtype = 'int32'
        if not has_sym(x):
            return real_shared(np.asarray(x).astype(dtype), *a, **k)
        v = real_shared(np.zeros(x.shape, dtype=dtype), *a, **k)
        _store[id(v)] = (v, x.copy())
        return v

    real_shared = theano.shared
    saved = dict(_store)
    _store.clear()
    old = RANDOM[0]
    core.engine().naming = True
    RANDOM[0] = draw
    try:
        with mock.patch.object(SharedVariable, 'get_value', get_value), \
                mock.patch.object(SharedVariable, 'set_value', set_value), \
                mock.patch.object(theano, 'shared', shared), \
                mock.patch.object(theano, 'function', GraphFunction):
            yield draws
    finally:
        core.engine().naming = core.engine().name_softmax = core.engine().floats = False
        core.engine().exp_points = ()
        RANDOM[0] = old
        _store.clear()
        _store.update(saved)

"""Neural network structure: what a prediction depends on, padding, stepwise
evaluation, output distribution, layer functions, model files."""
import contextlib
import io
import itertools
import logging

import numpy as np
import theano

from symx.runner import scenario, assume_note
from symx.shim import patched, obj_array
from symx.fakeh5 import new_state
from symx import tgraph
from symx.tgraph import theano_env

from theanolm.network import Network, Architecture, RecurrentState
from theanolm.backend import IncompatibleStateError
from theanolm.vocabulary import Vocabulary

NOTE = ('Theano graphs built by the real code are evaluated op by op on symbolic arrays (scan loops unrolled); replay uses real '
        'Theano functions')
for _p in ('N01', 'N02', 'N03', 'N04', 'N05', 'N06'):
    assume_note(_p, NOTE)

HEAD = 'input type=word name=word_input\nlayer type=projection name=proj input=word_input size=2\n'
ARCHS = {
    'fc': HEAD + 'layer type=tanh name=h input=proj size=2\nlayer type=softmax name=out input=h\n',
    'relu': HEAD + 'layer type=fc activation=relu name=h input=proj size=2\nlayer type=softmax name=out input=h\n',
    'leaky': HEAD + 'layer type=fc activation=leakyrelu name=h input=proj size=2\nlayer type=softmax name=out input=h\n',
    'lstm': HEAD + 'layer type=lstm name=h input=proj size=2\nlayer type=softmax name=out input=h\n',
    'gru': HEAD + 'layer type=gru name=h input=proj size=2\nlayer type=softmax name=out input=h\n',
    'deep': HEAD + 'layer type=gru name=g input=proj size=2\nlayer type=lstm name=l input=g size=2\n'
                   'layer type=softmax name=out input=l\n',
    'highway': HEAD + 'layer type=highwaytanh name=h input=proj\nlayer type=softmax name=out input=h\n',
    'add': HEAD + 'layer type=gru name=g input=proj size=2\nlayer type=add name=h input=proj input=g\n'
                  'layer type=softmax name=out input=h\n',
    'glu': HEAD + 'layer type=glu name=h input=proj size=2 filter_size=2\nlayer type=softmax name=out input=h\n',
    'dropout': HEAD + 'layer type=dropout name=d input=proj dropout_rate=0.25\nlayer type=lstm name=h input=d size=2\n'
                      'layer type=dropout name=e input=h\nlayer type=softmax name=out input=e\n',
    'two': 'input type=word name=w\ninput type=class name=c\nlayer type=projection name=pw input=w size=1\n'
           'layer type=projection name=pc input=c size=1\nlayer type=lstm name=h input=pw input=pc size=2\n'
           'layer type=softmax name=out input=h input=pw\n',
    'class': 'input type=class name=c\nlayer type=projection name=p input=c size=2\nlayer type=gru name=h input=p size=2\n'
             'layer type=softmax name=out input=h\n',
    'hsoftmax': HEAD + 'layer type=gru name=h input=proj size=2\nlayer type=hsoftmax name=out input=h\n',
    'fc-hsoftmax': HEAD + 'layer type=tanh name=h input=proj size=2\nlayer type=hsoftmax name=out input=h\n',
    'blstm': HEAD + 'layer type=blstm name=h input=proj size=4\nlayer type=softmax name=out input=h\n',
    'bgru': HEAD + 'layer type=bgru name=h input=proj size=4\nlayer type=softmax name=out input=h\n',
}
UNI = ['fc', 'relu', 'lstm', 'gru', 'deep', 'highway', 'add', 'glu', 'dropout', 'two', 'hsoftmax']
STEP = ['fc', 'leaky', 'lstm', 'gru', 'deep', 'highway', 'add', 'dropout', 'two', 'hsoftmax']
BI = ['blstm', 'bgru']


class Text(io.StringIO):
    name = 'text'


def vocabulary():
    """a, b in one class, c in another, the special tokens"""
    return Vocabulary.from_file(Text('a 0\nb 0\nc 1\n'), 'classes')


_nets = {}


def network(arch, voc=None, minibatch=True, fresh=False, **k):
    key = (arch, minibatch, tuple(sorted(k.items())))
    if fresh or key not in _nets:
        voc = voc or vocabulary()
        np.random.seed(1)
        a = Architecture.from_description(Text(ARCHS.get(arch, arch)))
        n = Network(a, voc, mode=Network.Mode(minibatch=minibatch), **k)
        if fresh:
            return n
        _nets[key] = n
    return _nets[key]


def set_params(ctx, nets, prefix='w', bound=3):
    """the same arbitrary values to the parameters of all the networks"""
    for k, path in enumerate(sorted(nets[0].get_variables())):
        var = nets[0].get_variables()[path]
        shape = var.get_value().shape
        a = np.empty(shape, dtype=object)
        for n, i in enumerate(np.ndindex(*shape)):
            a[i] = ctx.real('%s%d_%d' % (prefix, k, n), -bound, bound)
        for net in nets:
            v = net.get_variables()[path]
            ctx.check(v.get_value().shape == shape, 'parameters of both networks have the same shape')
            v.set_value(a.view(tgraph.SArr) if ctx.symbolic else a.astype('float64'))


def ids(ctx, name, t, s, n):
    a = np.empty((t, s), dtype=object)
    for i in np.ndindex(t, s):
        a[i] = ctx.int('%s_%d_%d' % ((name,) + i), 0, n - 1)
    return mat(ctx, a)


def mat(ctx, a):
    a = np.array(a, dtype=object)
    return a.view(tgraph.SArr) if ctx.symbolic else a.astype('int64')


def ones(t, s):
    return np.ones((t, s), dtype='int8')


_fns = {}


def probs_fn(ctx, net):
    """output probabilities of a mini-batch at inference"""
    def make():
        return theano.function([net.input_word_ids, net.input_class_ids, net.mask], net.output_probs(),
                               givens=[(net.is_training, np.int8(0))], on_unused_input='ignore')
    return cached(ctx, net, 'probs', make)


def cached(ctx, net, what, make):
    if ctx.symbolic:
        return make()
    key = (id(net), what)
    if key not in _fns:
        _fns[key] = (net, make())
    return _fns[key][1]


@contextlib.contextmanager
def env(ctx):
    with theano_env(ctx) as draws:
        yield draws


def pick(a, i):
    return a[i]


def check_same(ctx, a, b, label, tol=1e-7):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    ctx.check(a.shape == b.shape, label + ': shape', '%r %r' % (a.shape, b.shape))
    for i in np.ndindex(*a.shape):
        ctx.check_eq(a[i], b[i], label, tol=tol)


NW, NC = 6, 5       # shortlist words, classes of vocabulary()


def causal(arch):
    def fn(ctx):
        T, S = 3, 2
        s = ctx.choice('s', [0, 1])
        with env(ctx):
            net = network(arch)
            set_params(ctx, [net])
            x, c = ids(ctx, 'x', T, S, NW), ids(ctx, 'c', T, S, NC)
            y, d = ids(ctx, 'y', T, S, NW), ids(ctx, 'd', T, S, NC)
            t = ctx.choice('t', [0, 1])
            f = probs_fn(ctx, net)
            p = f(x, c, ones(T, S))
            y[:t + 1, s] = x[:t + 1, s]
            d[:t + 1, s] = c[:t + 1, s]
            q = f(y, d, ones(T, S))
            check_same(ctx, p[:t + 1, s], q[:t + 1, s], 'a prediction depends on later words or on another sequence')
            ctx.reach('done')
    return fn


for _a in UNI:
    scenario('N01', 'architecture %s: 2 sequences of 3 words, all word and class IDs, all parameter values in [-3, 3] (layer sizes 1-2, '
             '6 words, 5 classes)' % _a, name='causal_' + _a, reach=['done'], validate=2)(causal(_a))


def bidirectional(arch):
    def fn(ctx):
        T, S = 4, 2
        s = ctx.choice('s', [0, 1])
        t = ctx.choice('t', [0, 1, 2])
        with env(ctx):
            net = network(arch)
            set_params(ctx, [net])
            x, c = ids(ctx, 'x', T, S, NW), ids(ctx, 'c', T, S, NC)
            y, d = ids(ctx, 'y', T, S, NW), ids(ctx, 'd', T, S, NC)
            f = probs_fn(ctx, net)
            p = f(x, c, ones(T, S))
            # everything of the sequence but the word to be predicted
            keep = [i for i in range(T) if i != t + 1]
            for i in keep:
                y[i, s], d[i, s] = x[i, s], c[i, s]
            q = f(y, d, ones(T, S))
            check_same(ctx, p[t, s], q[t, s], 'a prediction depends on the predicted word or on another sequence')
            ctx.reach('done')
    return fn


for _a in BI:
    scenario('N01', 'architecture %s: 2 sequences of 4 words, all word and class IDs, all parameter values in [-3, 3]' % _a,
             name='target_' + _a, reach=['done'], validate=2)(bidirectional(_a))


def padding(arch):
    def fn(ctx):
        T, S = 3, 2
        s = ctx.choice('s', [0, 1])
        n = ctx.choice('n', [1, 2])
        with env(ctx):
            net = network(arch)
            set_params(ctx, [net])
            x, c = ids(ctx, 'x', T, S, NW), ids(ctx, 'c', T, S, NC)
            m = ones(T, S)
            m[n:, s] = 0
            f = probs_fn(ctx, net)
            p = f(x, c, m)
            q = f(x[:n, s:s + 1], c[:n, s:s + 1], ones(n, 1))
            check_same(ctx, p[:n, s], q[:, 0], 'padding or the other sequence changes a prediction')
            r = f(x[:, 1 - s:2 - s], c[:, 1 - s:2 - s], ones(T, 1))
            check_same(ctx, p[:, 1 - s], r[:, 0], 'padding of another sequence changes a prediction')
            ctx.reach('done')
    return fn


for _a in UNI + BI:
    scenario('N02', 'architecture %s: a batch of 2 sequences, one of 3 words and one of 1-2 words with arbitrary padding, all IDs, all '
             'parameter values in [-3, 3]' % _a, name='padding_' + _a, reach=['done'], validate=2)(padding(_a))


def step_fn(ctx, net):
    def make():
        return theano.function([net.input_word_ids, net.input_class_ids] + net.recurrent_state_input,
                               [net.output_probs()] + net.recurrent_state_output,
                               givens=[(net.is_training, np.int8(0))], on_unused_input='ignore')
    return cached(ctx, net, 'step', make)


def stepwise(arch):
    def fn(ctx):
        T, S = (3, 1) if arch == 'deep' else (3, 2)
        with env(ctx):
            net, one = network(arch), network(arch, minibatch=False)
            set_params(ctx, [net, one])
            x, c = ids(ctx, 'x', T, S, NW), ids(ctx, 'c', T, S, NC)
            p = probs_fn(ctx, net)(x, c, ones(T, S))
            f = step_fn(ctx, one)
            # each sequence with its own state, combined for every step
            states = [RecurrentState(one.recurrent_state_size) for _ in range(S)]
            for t in range(T):
                state = RecurrentState.combine_sequences(states)
                out = f(x[t:t + 1], c[t:t + 1], *state.get())
                check_same(ctx, out[0][0], p[t], 'stepwise and mini-batch probabilities differ')
                state.set(out[1:])
                states = [RecurrentState(state.sizes, 1, [np.asarray(v)[:, i:i + 1].view(type(v)) for v in state.get()])
                          for i in range(S)]
            ctx.reach('done')
    return fn


for _a in STEP:
    scenario('N03', 'architecture %s: 2 sequences of 3 words evaluated as a mini-batch and one step at a time, all IDs, all parameter '
             'values in [-3, 3]' % _a, name='step_' + _a, reach=['done'], validate=2)(stepwise(_a))


@scenario('N03', 'recurrent states of 1-3 beams of 1-3 sequences each and 1-2 state variables of different sizes, all values: combining '
          'keeps every state of every sequence in order, and a state of a wrong shape is rejected', reach=['combined', 'rejected'])
def combine(ctx):
    num = [ctx.choice('n%d' % i, [1, 2, 3]) for i in range(ctx.choice('beams', [1, 2, 3]))]
    sizes = ctx.choice('sizes', [[2], [1, 3]])
    with env(ctx):
        def variables(k, n):
            vs = [np.array(ctx.reals('v%d_%d_' % (k, j), n * z, -3, 3), dtype=object).reshape(1, n, z) for j, z in enumerate(sizes)]
            return [v.view(tgraph.SArr) if ctx.symbolic else v.astype('float64') for v in vs]
        values = [variables(k, n) for k, n in enumerate(num)]
        states = [RecurrentState(list(sizes), n, v) for n, v in zip(num, values)]
        got = RecurrentState.combine_sequences(states)
        ctx.check(got.num_sequences == sum(num) and list(got.sizes) == sizes and len(got.get()) == len(sizes),
                  'the number of sequences and the sizes of a combined state')
        for j, z in enumerate(sizes):
            v = got.get(j)
            ctx.check(v.shape == (1, sum(num), z), 'the shape of a combined state')
            k = 0
            for n, vs in zip(num, values):
                for i in range(n):
                    check_same(ctx, v[0, k], vs[j][0, i], 'the state of a sequence in a combined state')
                    k += 1
        fresh = RecurrentState(list(sizes), num[0])
        for j, z in enumerate(sizes):
            v = fresh.get(j)
            ctx.check(v.shape == (1, num[0], z) and all(x == 0 for x in np.asarray(v).flatten()), 'a new state is zero')
        wrong = [values[0] + values[0][:1], [v[:, :, :0] for v in values[0]], [np.concatenate([v, v], axis=0) for v in values[0]],
                 [np.concatenate([v, v], axis=1) for v in values[0]]]
        try:
            fresh.set(wrong[ctx.choice('wrong', [0, 1, 2, 3])])
            bad = False
        except ValueError:
            bad = True
        ctx.check(bad, 'a state of a wrong shape is rejected')
        ctx.reach('rejected')
        fresh.set(values[0])
        check_same(ctx, fresh.get(0)[0, 0], values[0][0][0, 0], 'a state that is set')
    ctx.reach('combined')


# --- N04 output distribution -------------------------------------------------

def out_fn(ctx, net, softmax=True):
    def make():
        outs = [net.output_probs(), net.target_probs()]
        if softmax:
            outs.append(net.unnormalized_logprobs())
        return theano.function([net.input_word_ids, net.input_class_ids, net.mask, net.target_class_ids], outs,
                               givens=[(net.is_training, np.int8(0))], on_unused_input='ignore')
    return cached(ctx, net, 'out', make)


def total(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return r


def element(ctx, row, i):
    """row[i] for a solver-chosen index"""
    r = row[len(row) - 1]
    for k in range(len(row) - 2, -1, -1):
        r = ctx.ite(i == k, row[k], r)
    return r


def distribution(arch, exclude):
    def fn(ctx):
        T, S = (2, 1) if 'hsoftmax' in arch else (2, 2)
        with env(ctx):
            net = network(arch, exclude_unk=exclude)
            soft = 'hsoftmax' not in arch
            set_params(ctx, [net])
            voc = net.vocabulary
            unk = voc.word_id_to_class_id[voc.word_to_id['<unk>']]
            n = voc.num_classes()
            x, c, y = ids(ctx, 'x', T, S, NW), ids(ctx, 'c', T, S, NC), ids(ctx, 'y', T, S, NC)
            if not soft:
                y = mat(ctx, [[int(e) for e in r] for r in y])
            o = out_fn(ctx, net, soft)(x, c, ones(T, S), y)
            p, tp = o[:2]
            full = not soft and (n == 4 or n == 6 or n == 9)
            for t in range(T):
                for s in range(S):
                    row = list(p[t, s])
                    ctx.check(len(row) == n, 'one probability for each class')
                    for k in range(n):
                        if exclude and k == unk:
                            ctx.check_eq(row[k], 0.0, 'the excluded <unk> has zero probability')
                        else:
                            ctx.check(row[k] > 0, 'a probability is positive')
                    if soft or full:
                        ctx.check_eq(total(row), 1.0, 'the probabilities sum to one')
                    else:
                        ctx.check_le(total(row), 1.0, 'the probabilities sum to at most one')
                    ctx.check_eq(tp[t, s], element(ctx, row, y[t, s]), 'the target probability is that of the target class')
            ctx.reach('done')
    return fn


for _a, _e in (('fc', False), ('fc', True), ('two', False), ('two', True), ('fc-hsoftmax', False), ('fc-hsoftmax', True)):
    scenario('N04', 'architecture %s%s: 2 x 2 mini-batch, all word, class and target IDs, all parameter values in [-3, 3]'
             % (_a, ', <unk> excluded' if _e else ''), name='distribution_%s%s' % (_a, '_unk' if _e else ''), reach=['done'],
             validate=3)(distribution(_a, _e))


def unnormalised(arch, exclude):
    def fn(ctx):
        T, S = 2, 2
        t, s = ctx.choice('at', [(0, 0), (1, 0), (1, 1)])
        i, j = ctx.choice('i', range(NC)), ctx.choice('j', range(NC))
        with env(ctx):
            net = network(arch, exclude_unk=exclude)
            set_params(ctx, [net])
            voc = net.vocabulary
            unk = voc.word_id_to_class_id[voc.word_to_id['<unk>']]
            if exclude and unk in (i, j):
                ctx.assume(False)
            x, c, y, z = ids(ctx, 'x', T, S, NW), ids(ctx, 'c', T, S, NC), ids(ctx, 'y', T, S, NC), ids(ctx, 'z', T, S, NC)
            y[t, s], z[t, s] = i, j
            f = out_fn(ctx, net)
            o, q = f(x, c, ones(T, S), y), f(x, c, ones(T, S), z)
            ctx.check_eq(o[1][t, s] * ctx.exp(q[2][t, s]), q[1][t, s] * ctx.exp(o[2][t, s]),
                         'unnormalised log probabilities agree with the probabilities')
            ctx.reach('done')
    return fn


for _a, _e in (('fc', False), ('two', True)):
    scenario('N04', 'architecture %s: unnormalised log probabilities of two target classes at a position of a 2 x 2 mini-batch' % _a,
             name='unnormalised_' + _a, reach=['done'], validate=3)(unnormalised(_a, _e))


# --- N05 layer functions ------------------------------------------------------

class Ops(object):
    """the functions of the oracle"""

    def __init__(self, ctx):
        self.ctx = ctx

    def sig(self, x):
        return tgraph.sigmoid(x) if self.ctx.symbolic else 1.0 / (1.0 + np.exp(-float(x)))

    def tanh(self, x):
        return tgraph.tanh(x) if self.ctx.symbolic else np.tanh(float(x))

    def relu(self, x, slope=0.0):
        # as Theano has it: x for x > 0 and slope * x for x < 0
        return 0.5 * (1 + slope) * x + 0.5 * (1 - slope) * (tgraph.s_abs(x) if self.ctx.symbolic else abs(x))

    def act(self, name):
        return {'tanh': self.tanh, 'relu': self.relu, 'leakyrelu': lambda x: self.relu(x, 0.3)}[name]


def affine(x, W, b=None):
    r = []
    for j in range(W.shape[1]):
        v = total([x[i] * W[i, j] for i in range(len(x))])
        r.append(v if b is None else v + b[j])
    return r


def param(net, path):
    return np.asarray(net.get_variables()['layers/' + path].get_value())


def layer_fn(ctx, net, names, training):
    def make():
        return theano.function([net.input_word_ids, net.input_class_ids, net.mask], [net.layers[n].output for n in names],
                               givens=[(net.is_training, np.int8(training))], on_unused_input='ignore')
    return cached(ctx, net, ('layer', tuple(names), training), make)


def o_fc(activation):
    def f(ops, net, ins, mask):
        W, b = param(net, 'h/input/W'), param(net, 'h/input/b')
        act = ops.act(activation)
        return [[[act(v) for v in affine(x, W, b)] for x in row] for row in ins]
    return f


def o_highway(activation):
    def f(ops, net, ins, mask):
        W, b = param(net, 'h/input/W'), param(net, 'h/input/b')
        n = W.shape[0]
        out = []
        for row in ins:
            o = []
            for x in row:
                pre = affine(x, W, b)
                g = [ops.sig(v) for v in pre[n:]]
                o.append([g[k] * ops.act(activation)(pre[k]) + (1 - g[k]) * x[k] for k in range(n)])
            out.append(o)
        return out
    return f


def run_lstm(ops, W, b, U, seq, mask, activation='tanh'):
    n = U.shape[0]
    C, h = [0.0] * n, [0.0] * n
    out = []
    for t in range(len(seq)):
        pre = [u + v for u, v in zip(affine(h, U), seq[t] if W is None else affine(seq[t], W, b))]
        if mask[t]:
            i = [ops.sig(v) for v in pre[:n]]
            f = [ops.sig(v) for v in pre[n:2 * n]]
            o = [ops.sig(v) for v in pre[2 * n:3 * n]]
            g = [ops.tanh(v) for v in pre[3 * n:]]
            C = [f[k] * C[k] + i[k] * g[k] for k in range(n)]
            h = [o[k] * ops.act(activation)(C[k]) for k in range(n)]
        out.append(h)
    return out


def run_gru(ops, W, b, U, seq, mask):
    n = U.shape[0]
    h = [0.0] * n
    out = []
    for t in range(len(seq)):
        hp, xp = affine(h, U), (seq[t] if W is None else affine(seq[t], W, b))
        if mask[t]:
            r = [ops.sig(hp[k] + xp[k]) for k in range(n)]
            u = [ops.sig(hp[n + k] + xp[n + k]) for k in range(n)]
            g = [ops.tanh(r[k] * hp[2 * n + k] + xp[2 * n + k]) for k in range(n)]
            h = [(1 - u[k]) * h[k] + u[k] * g[k] for k in range(n)]
        out.append(h)
    return out


def o_rec(run, prefix='h/', reverse=False):
    def f(ops, net, ins, mask):
        W, b, U = param(net, prefix + 'layer_input/W'), param(net, prefix + 'layer_input/b'), param(net, prefix + 'step_input/W')
        T, S = len(ins), len(ins[0])
        out = [[None] * S for _ in range(T)]
        for s in range(S):
            seq = [ins[t][s] for t in range(T)]
            m = [mask[t, s] for t in range(T)]
            if not reverse:
                res = run(ops, W, b, U, seq, m)
            else:
                # the input two steps ahead, within the sequence, from the end to the beginning
                n = sum(m)
                pre = [affine(seq[t + 2], W, b) if t + 2 < n else [0.0] * W.shape[1] for t in range(T)]
                res = run(ops, None, None, U, pre[::-1], m[::-1])[::-1]
            for t in range(T):
                out[t][s] = res[t]
        return out
    return f


def o_bi(run):
    def f(ops, net, ins, mask):
        a, b = o_rec(run, 'h/forward/')(ops, net, ins, mask), o_rec(run, 'h/backward/', True)(ops, net, ins, mask)
        return [[x + y for x, y in zip(r, q)] for r, q in zip(a, b)]
    return f


def o_glu(ops, net, ins, mask):
    W, b = param(net, 'h/input/W'), param(net, 'h/input/b')
    k, n = W.shape[0], W.shape[2] // 2
    out = []
    for t in range(len(ins)):
        row = []
        for s in range(len(ins[0])):
            pre = list(b)
            for d in range(k):
                if t - (k - 1) + d >= 0:
                    pre = [p + q for p, q in zip(pre, affine(ins[t - (k - 1) + d][s], W[d]))]
            row.append([pre[j] * ops.sig(pre[n + j]) for j in range(n)])
        out.append(row)
    return out


LAYERS = {
    'tanh': ('layer type=tanh name=h input=proj size=2', o_fc('tanh')),
    'fc': ('layer type=fc name=h input=proj size=3', o_fc('tanh')),
    'relu': ('layer type=fc activation=relu name=h input=proj size=2', o_fc('relu')),
    'leakyrelu': ('layer type=fc activation=leakyrelu name=h input=proj size=2', o_fc('leakyrelu')),
    'highwaytanh': ('layer type=highwaytanh name=h input=proj', o_highway('tanh')),
    'highway_relu': ('layer type=highway activation=relu name=h input=proj', o_highway('relu')),
    'lstm': ('layer type=lstm name=h input=proj size=2', o_rec(run_lstm)),
    'lstm_relu': ('layer type=lstm activation=relu name=h input=proj size=2',
                  o_rec(lambda *a: run_lstm(*a, activation='relu'))),
    'gru': ('layer type=gru name=h input=proj size=2', o_rec(run_gru)),
    'blstm': ('layer type=blstm name=h input=proj size=5', o_bi(run_lstm)),
    'bgru': ('layer type=bgru name=h input=proj size=5', o_bi(run_gru)),
    'glu': ('layer type=glu name=h input=proj size=2 filter_size=3', o_glu),
    'glu5': ('layer type=glu name=h input=proj size=1', o_glu),
}


def as_lists(a):
    return [[list(np.asarray(x)) for x in row] for row in np.asarray(a)]


def layer_scenario(kind):
    desc, oracle = LAYERS[kind]

    def fn(ctx):
        T, S = 3, 2
        ops = Ops(ctx)
        n = ctx.choice('n', [1, 2, 3])
        with env(ctx):
            net = network(HEAD + desc + '\nlayer type=softmax name=out input=h\n')
            set_params(ctx, [net])
            x, c = ids(ctx, 'x', T, S, NW), ids(ctx, 'c', T, S, NC)
            mask = ones(T, S)
            mask[n:, 1] = 0
            proj, h = layer_fn(ctx, net, ['proj', 'h'], 0)(x, c, mask)
            W = param(net, 'proj/W')
            want = [[[element(ctx, W[:, k], x[t, s]) for k in range(W.shape[1])] for s in range(S)] for t in range(T)]
            for t in range(T):
                for s in range(S):
                    check_same(ctx, proj[t, s], want[t][s], 'the projection of a word is a row of the matrix')
            expect = oracle(ops, net, as_lists(proj), mask)
            for t in range(T):
                for s in range(S):
                    if mask[t, s]:
                        check_same(ctx, h[t, s], expect[t][s], 'the layer computes its function')
            ctx.reach('done')
    return fn


for _k in LAYERS:
    scenario('N05', 'layer %s: a mini-batch of two sequences of 3 and 1-3 words, all word IDs, all parameter values in [-3, 3]' % _k,
             name='layer_' + _k, reach=['done'], validate=2)(layer_scenario(_k))


TWO = ('input type=word name=w\ninput type=class name=c\nlayer type=projection name=pw input=w size=2\n'
       'layer type=projection name=pc input=c size=%d\n')
MULTI = {
    'add': (TWO % 2 + 'layer type=add name=h input=pw input=pc\n', 2),
    'add_project': (TWO % 3 + 'layer type=add name=h input=pw input=pc\n', 2),
    'add_size': (TWO % 2 + 'layer type=add name=h input=pw input=pc size=3\n', 3),
    'concat_fc': (TWO % 1 + 'layer type=tanh name=h input=pw input=pc size=2\n', 2),
    'concat_fc_reverse': (TWO % 1 + 'layer type=tanh name=h input=pc input=pw size=2\n', 2),
    'concat_highway': (TWO % 1 + 'layer type=highwaytanh name=h input=pw input=pc\n', 3),
    'concat_gru': (TWO % 1 + 'layer type=gru name=h input=pw input=pc size=2\n', 2),
    'concat_lstm': (TWO % 1 + 'layer type=lstm name=h input=pc input=pw size=2\n', 2),
    'concat_dropout': (TWO % 1 + 'layer type=dropout name=h input=pw input=pc dropout_rate=0.5\n', 3),
}


def multi_scenario(kind):
    desc, size = MULTI[kind]

    def fn(ctx):
        T, S = 2, 2
        ops = Ops(ctx)
        with env(ctx):
            net = network(desc + 'layer type=softmax name=out input=h\n')
            set_params(ctx, [net])
            x, c = ids(ctx, 'x', T, S, NW), ids(ctx, 'c', T, S, NC)
            mask = ones(T, S)
            pw, pc, h = layer_fn(ctx, net, ['pw', 'pc', 'h'], 0)(x, c, mask)
            for out, W, i in ((pw, param(net, 'pw/W'), x), (pc, param(net, 'pc/W'), c)):
                ctx.check(W.shape[0] == (NW if i is x else NC), 'one projection row for each word or class')
                for t in range(T):
                    for s in range(S):
                        check_same(ctx, out[t, s], [element(ctx, W[:, k], i[t, s]) for k in range(W.shape[1])],
                                   'the projection of a word or class is a row of the matrix')
            first, second = (pc, pw) if kind in ('concat_fc_reverse', 'concat_lstm') else (pw, pc)
            both = [[list(a) + list(b) for a, b in zip(r, q)] for r, q in zip(as_lists(first), as_lists(second))]
            if kind.startswith('add'):
                def proj(v, n):
                    if len(v) == size:
                        return v
                    return affine(v, param(net, 'h/input%d/W' % n))
                expect = [[[a + b for a, b in zip(proj(u, 0), proj(v, 1))] for u, v in zip(r, q)]
                          for r, q in zip(as_lists(pw), as_lists(pc))]
            elif kind.startswith('concat_fc'):
                expect = o_fc('tanh')(ops, net, both, mask)
            elif kind == 'concat_highway':
                expect = o_highway('tanh')(ops, net, both, mask)
            elif kind == 'concat_gru':
                expect = o_rec(run_gru)(ops, net, both, mask)
            elif kind == 'concat_lstm':
                expect = o_rec(run_lstm)(ops, net, both, mask)
            else:
                expect = both
            for t in range(T):
                for s in range(S):
                    check_same(ctx, h[t, s], expect[t][s], 'the layer computes its function of all its inputs')
            ctx.reach('done')
    return fn


for _k in MULTI:
    scenario('N05', 'layer %s with two inputs (word and class projection): 2 x 2 mini-batch, all word and class IDs, all parameter values '
             'in [-3, 3]' % _k, name='inputs_' + _k, reach=['done'], validate=2)(multi_scenario(_k))


def dropout_scenario(rate):
    def fn(ctx):
        T, S = 1, 2
        with env(ctx) as draws:
            net = network(HEAD + 'layer type=dropout name=h input=proj%s\nlayer type=softmax name=out input=h\n'
                          % ('' if rate is None else ' dropout_rate=%r' % rate))
            r = 0.5 if rate is None else rate
            set_params(ctx, [net])
            x, c = ids(ctx, 'x', T, S, NW), ids(ctx, 'c', T, S, NC)
            a, b = ctx.choice('pair', [(0, 1), (1, 0), (0, 2), (3, 1)])
            proj, h = layer_fn(ctx, net, ['proj', 'h'], 1)(x, c, ones(T, S))
            p, o = [v for row in as_lists(proj) for e in row for v in e], [v for row in as_lists(h) for e in row for v in e]
            # the random numbers of the generator, one for each element
            us = [u for d in draws for u in d.ravel()]
            ctx.check(len(us) >= len(p), 'a unit is dropped independently at the dropout rate')
            for k in range(len(p)):
                ctx.assume(ctx.not_(p[k] == 0))
                d = o[k] * (1 - r) - p[k]
                ctx.check(ctx.or_(o[k] == 0, ctx.and_(d < 1e-6, d > -1e-6)), 'a unit is either dropped or scaled by the pass rate')
            low, high = min(r, 1 - r), max(r, 1 - r)
            # a unit is dropped for a part "rate" of the random numbers, at one end of the range
            if r < 0.5:
                for k in range(len(p)):
                    ctx.check(ctx.implies(ctx.and_(us[k] > low, us[k] < high), ctx.not_(o[k] == 0)), 'a unit is kept at the pass rate')
            elif r > 0.5:
                for k in range(len(p)):
                    ctx.check(ctx.implies(ctx.and_(us[k] > low, us[k] < high), o[k] == 0), 'a unit is dropped at the dropout rate')
            ctx.check(ctx.implies(ctx.and_(us[a] < low, us[b] > high), ctx.not_((o[a] == 0) == (o[b] == 0))),
                      'a unit is dropped independently at the dropout rate')
            ctx.reach('done')
    return fn


for _r in (None, 0.25, 0.7, 0.95):
    scenario('N05', 'dropout rate %s during training: 1 x 2 mini-batch of 2 units, all outcomes of the random number generator, all '
             'parameter values in [-3, 3]' % _r, name='dropout_%s' % _r, reach=['done'], validate=3)(dropout_scenario(_r))


# --- N06 model files ------------------------------------------------------------

import os
import h5py
import theanolm.network.network
import theanolm.vocabulary.vocabulary
import theanolm.vocabulary.wordclass
from unittest import mock


@contextlib.contextmanager
def files(ctx):
    """HDF5 files by path: in-memory groups, or real files of a scratch directory"""
    if not ctx.symbolic:
        d = ctx.scratch()
        yield lambda name: os.path.join(d, name)
        return
    from symx.fakeh5 import Group
    store = {}

    def File(name=None, mode=None, **k):
        if mode == 'w' or name not in store or k.get('backing_store') is False:
            if mode == 'r':
                raise OSError('Unable to open file ' + name)
            store[name] = Group()
        return store[name]
    with mock.patch.object(h5py, 'File', File):
        yield lambda name: name


def full_vocabulary():
    voc = Vocabulary.from_file(Text('a 0\nb 0\nc 1\n'), 'classes', oos_words=['x', 'y'])
    voc.compute_probs({'a': 3, 'b': 1, 'c': 2, 'x': 4, 'y': 1, '<s>': 3, '</s>': 3})
    return voc


def model_file(arch):
    def fn(ctx):
        T, S = 2, 1
        twice = ctx.choice('twice', [False, True])
        minibatch = ctx.choice('minibatch', [True, False]) if arch not in BI + ['glu'] else True
        exclude = ctx.choice('exclude', [False, True])
        with env(ctx), files(ctx) as path, patched([theanolm.network.network, theanolm.vocabulary.vocabulary,
                                                    theanolm.vocabulary.wordclass] if ctx.symbolic else []):
            net = network(arch, voc=full_vocabulary(), fresh=True)
            with h5py.File(path('model.h5'), 'w') as state:
                if twice:
                    net.vocabulary.get_state(state)
                    net.get_state(state)
                set_params(ctx, [net])
                net.vocabulary.get_state(state)
                net.get_state(state)
            want = {p: v.get_value() for p, v in net.get_variables().items()}
            got = Network.from_file(path('model.h5'), mode=Network.Mode(minibatch=minibatch), exclude_unk=exclude)
            ctx.check(got.exclude_unk == exclude and got.mode.minibatch == minibatch, 'the requested mode is used')
            vs = got.get_variables()
            ctx.check(sorted(vs) == sorted(want), 'the parameters of the network are restored')
            for p in want:
                check_same(ctx, vs[p].get_value(), want[p], 'the parameter values are restored', tol=-1e-12)
            a, b = net.architecture, got.architecture
            ctx.check([dict(d) for d in a.inputs] == [dict(d) for d in b.inputs], 'the inputs of the architecture are restored')
            ctx.check([dict(d) for d in a.layers] == [dict(d) for d in b.layers], 'the layers of the architecture are restored')
            ctx.check(a.output_layer == b.output_layer, 'the output layer is restored')
            ctx.check([str(w) for w in got.vocabulary.id_to_word] == [str(w) for w in net.vocabulary.id_to_word],
                      'the vocabulary is restored')
            va, vb = net.oos_logprobs.get_value(), got.oos_logprobs.get_value()
            check_same(ctx, va, vb, 'the out-of-shortlist probabilities are restored')
            ctx.reach('twice' if twice else 'once')
    return fn


for _a in ('fc', 'two', 'deep', 'highway', 'add', 'glu', 'hsoftmax', 'blstm'):
    scenario('N06', 'architecture %s: model file saved once or twice and read back, all parameter values in [-3, 3], mini-batch or single '
             'step mode, with and without <unk>' % _a, name='model_file_' + _a, reach=['once', 'twice'], validate=3)(model_file(_a))


BASE = ('input type=word name=w\ninput type=class name=c\nlayer type=projection name=p input=w size=2\n'
        'layer type=projection name=q input=c size=2\nlayer type=gru name=g input=p input=q size=2\n'
        'layer type=dropout name=d input=g dropout_rate=0.25\nlayer type=fc name=h input=d size=2\n'
        'layer type=softmax name=out input=h\n')
OTHER = [
    BASE.replace('name=h input=d size=2', 'name=h input=d size=3').replace('size=3', 'size=3'),
    BASE.replace('dropout_rate=0.25', 'dropout_rate=0.5'),
    BASE.replace(' dropout_rate=0.25', ''),
    BASE.replace('layer type=fc name=h', 'layer type=fc activation=relu name=h'),
    BASE.replace('layer type=fc name=h', 'layer type=tanh name=h'),
    BASE.replace('input=p input=q', 'input=q input=p'),
    BASE.replace('input=p input=q', 'input=p').replace('size=2\nlayer type=dropout', 'size=2\nlayer type=dropout'),
    BASE.replace('name=d input=g', 'name=d input=p'),
    BASE.replace('name=out input=h', 'name=out input=h input=d'),
    BASE.replace('layer type=dropout name=d input=g dropout_rate=0.25\n', '').replace('input=d', 'input=g'),
    BASE.replace('layer type=fc name=h', 'layer type=dropout name=e input=d\nlayer type=fc name=h'),
    BASE.replace('layer type=fc name=h', 'layer type=dropout name=e input=d\nlayer type=fc name=h').replace('name=h input=d', 'name=h input=e'),
    BASE.replace('input type=class name=c', 'input type=class name=c\ninput type=class name=c2'),
    BASE.replace('type=class name=c', 'type=class name=cl').replace('input=c ', 'input=cl '),
    BASE.replace('type=gru', 'type=lstm'),
    BASE.replace('type=word name=w', 'type=class name=w'),
]


@scenario('N06', 'a state of one architecture is read into a network of the same or another architecture: 16 pairs that differ in one '
          'respect, in both directions, or that lack one of the parameters', reach=['same', 'other', 'missing'], validate=2)
def incompatible(ctx):
    k = ctx.choice('k', range(-2, len(OTHER)))
    back = ctx.choice('back', [False, True]) if k >= 0 else False
    with env(ctx):
        one = network(BASE)
        if k < 0:
            set_params(ctx, [one])
        two = network(OTHER[k]) if k >= 0 else network(BASE, exclude_unk=False)
        if back:
            one, two = two, one
        state = new_state(ctx)
        one.get_state(state)
        if k == -2:
            path = ctx.choice('path', sorted(one.get_variables()))
            del state[path]
        try:
            two.set_state(state)
            error = None
        except IncompatibleStateError as e:
            error = e
        if k == -1:
            ctx.check(error is None, 'a state of the same architecture is accepted')
            for p, v in two.get_variables().items():
                check_same(ctx, v.get_value(), one.get_variables()[p].get_value(), 'the parameter values are restored', tol=-1e-12)
            ctx.reach('same')
        elif k == -2:
            ctx.check(error is not None, 'a state that lacks a parameter is rejected')
            ctx.reach('missing')
        else:
            ctx.check(error is not None, 'a state of another architecture is rejected')
            ctx.reach('other')


@scenario('N06', 'architecture saved and read back: 1-12 inputs of the network and of a layer, the output layer is the last layer or not',
          reach=['many', 'few', 'output layer'], validate=3)
def architecture_order(ctx):
    n = ctx.int('n', 1, 12)
    m = ctx.int('m', 1, 12)
    ctx.assume(m <= n)
    n, m = int(n), int(m)
    text = ''.join('input type=word name=w%d\n' % i for i in range(n))
    text += ''.join('layer type=projection name=p%d input=w%d size=2\n' % (i, i) for i in range(n))
    text += 'layer type=fc name=h %s size=3\nlayer type=softmax name=out input=h\n' % ' '.join('input=p%d' % i for i in reversed(range(m)))
    a = Architecture.from_description(Text(text))
    ctx.check([i['name'] for i in a.inputs] == ['w%d' % i for i in range(n)], 'the inputs of the description are read in order')
    ctx.check([l['name'] for l in a.layers] == ['p%d' % i for i in range(n)] + ['h', 'out'], 'the layers of the description are read in order')
    ctx.check(a.layers[n]['inputs'] == ['p%d' % i for i in reversed(range(m))], 'the inputs of a layer are read in order')
    state = new_state(ctx)
    a.get_state(state)
    if bool(ctx.bool('other output layer')):
        # an architecture whose output is not the last layer
        a = Architecture(a.inputs, a.layers, 'h')
        c = Architecture(a.inputs, a.layers, 'out')
        try:
            a.check_state(state)
            ok = False
        except IncompatibleStateError:
            ok = True
        ctx.check(ok, 'a state with another output layer is rejected')
        c.check_state(state)
        state = new_state(ctx)
        a.get_state(state)
        ctx.reach('output layer')
    b = Architecture.from_state(state)
    ctx.check([dict(d) for d in a.inputs] == [dict(d) for d in b.inputs], 'the inputs of the architecture are restored')
    ctx.check([dict(d) for d in a.layers] == [dict(d) for d in b.layers], 'the layers of the architecture are restored')
    ctx.check(a.output_layer == b.output_layer, 'the output layer is restored')
    ctx.reach('many' if n > 10 else 'few')


# --- N07 architecture descriptions ---------------------------------------------

import theanolm.network.architecture
from theanolm.backend import InputError

assume_note('N07', 'layer sizes are tokens of symbolic integers in the text of the description')

INPUT = [('type', 'word'), ('name', 'w')]


def arch_env(ctx):
    return patched([theanolm.network.architecture]) if ctx.symbolic else contextlib.nullcontext()


def same_fields(ctx, got, want, label):
    ctx.check(sorted(got) == sorted(want), label + ': the fields that are given, and no other', '%r %r' % (sorted(got), sorted(want)))
    for k in want:
        if k in got:
            if k == 'size':
                ctx.check_eq(got[k], want[k], label + ': size')
            else:
                ctx.check(got[k] == want[k], label + ': ' + k, '%r != %r' % (got[k], want[k]))


@scenario('N07', 'description of 1-2 inputs and 3 layers, with fields in three orders, 1-3 inputs and 0-2 devices per layer, other options (also with '
          'an equality sign in the value), symbolic layer sizes, comments and empty lines anywhere, blanks or tabs', reach=['done'])
def description(ctx):
    two = ctx.choice('two', [False, True])
    order = ctx.choice('order', [0, 1, 2])
    sep = ctx.choice('sep', [' ', '\t', '   '])
    extra = ctx.choice('extra', [[], [('activation', 'relu')], [('option', 'a=b=c'), ('dropout_rate', '0.3')]])
    devices = ctx.choice('devices', [[], ['dev0'], ['dev1', 'dev0']])
    sizes = [ctx.int('size%d' % i, 1, 100000) for i in range(2)]
    noise = ctx.choice('noise', ['', '# input type=word name=no\n', '\n   \n#layer x\n  # comment\n'])
    with arch_env(ctx):
        inputs = [INPUT] + ([[('type', 'class'), ('name', 'c')]] if two else [])
        names = ['w', 'c'][:len(inputs)]
        layers = [[('type', 'projection'), ('name', 'p')] + [('input', n) for n in reversed(names)] + [('size', sizes[0])],
                  [('type', 'lstm'), ('name', 'h'), ('input', 'p'), ('input', 'w'), ('input', 'p'), ('size', sizes[1])]
                  + [('device', d) for d in devices] + extra,
                  [('type', 'softmax'), ('name', 'out'), ('input', 'h')]]

        def line(kind, fields):
            others = [f for f in fields if f[0] not in ('input', 'device')]
            several = [f for f in fields if f[0] in ('input', 'device')]
            fs = [fields, several + others, list(reversed(others)) + several][order]
            return sep.join([kind] + ['%s=%s' % (k, str(v)) for k, v in fs]) + '\n'
        text = noise + ''.join(line('input', i) + noise for i in inputs) + ''.join(line('layer', l) + noise for l in layers)
        got = Architecture.from_description(Text(text))
        ctx.check(len(got.inputs) == len(inputs) and len(got.layers) == 3, 'every input and layer is read')
        for a, b in zip(got.inputs, inputs):
            same_fields(ctx, a, dict(b), 'input')
        for a, b in zip(got.layers, layers):
            want = {k: v for k, v in b if k not in ('input', 'device')}
            want['inputs'] = [v for k, v in b if k == 'input']
            want['devices'] = [v for k, v in b if k == 'device']
            same_fields(ctx, a, want, 'layer')
        ctx.check(got.output_layer == 'out', 'the last layer is the output layer')
    ctx.reach('done')


BAD = ['input type=word', 'input name=w', 'input type=word name', 'layer type=fc name=h size=2', 'layer type=fc input=w size=2',
       'layer name=h input=w size=2', 'layer type=fc name=h input=w size', 'Layer type=fc name=h input=w', 'output type=softmax name=o input=w']


@scenario('N07', 'a description with a defective line (9 defects) in any of 3 places, without inputs or without layers is rejected with InputError, '
          'a correct one of symbolic size is not', reach=['ok', 'bad', 'empty'])
def description_invalid(ctx):
    size = ctx.int('size', 1, 1000)
    kind = ctx.choice('kind', ['ok', 'line', 'no inputs', 'no layers', 'nothing'])
    with arch_env(ctx):
        lines = ['input type=word name=w', 'layer type=fc name=h input=w size=%s' % str(size), 'layer type=softmax name=o input=h']
        if kind == 'line':
            lines.insert(ctx.choice('place', [0, 1, 3]), ctx.choice('bad', BAD))
        elif kind == 'no inputs':
            lines = lines[1:]
        elif kind == 'no layers':
            lines = lines[:1]
        elif kind == 'nothing':
            lines = ['# nothing']
        try:
            got = Architecture.from_description(Text('\n'.join(lines)))
        except InputError:
            ctx.check(kind != 'ok', 'a correct description is read')
            ctx.reach('bad' if kind == 'line' else 'empty')
            return
        ctx.check(kind == 'ok', 'a defective description is rejected', repr(lines))
        if kind == 'ok':
            ctx.check_eq(got.layers[0]['size'], size, 'the size of a layer')
            ctx.reach('ok')


@scenario('N07', 'network of a description: 1-2 inputs, projection and hidden layer of any sizes 1-4, the output layer is the last layer: the size of '
          'each layer is the one given, the size of the output layer is the number of classes whatever is given, and a layer that refers to an '
          'unknown layer or has an unknown type is rejected', reach=['ok', 'bad'])
def description_network(ctx):
    p, h = ctx.int('p', 1, 4), ctx.int('h', 1, 4)
    p, h = int(p), int(h)
    kind = ctx.choice('kind', ['ok', 'sized output', 'no hidden size', 'unknown input', 'unknown type'])
    with env(ctx):
        text = 'input type=word name=w\nlayer type=projection name=p input=w size=%d\n' % p
        text += 'layer type=%s name=h input=%s%s\n' % ('nosuch' if kind == 'unknown type' else 'fc', 'q' if kind == 'unknown input' else 'p',
                                                       '' if kind == 'no hidden size' else ' size=%d' % h)
        text += 'layer type=softmax name=out input=h%s\n' % (' size=77' if kind == 'sized output' else '')
        try:
            net = Network(Architecture.from_description(Text(text)), vocabulary())
        except (InputError, ValueError):
            ctx.check(kind in ('unknown input', 'unknown type'), 'a correct description gives a network', kind)
            ctx.reach('bad')
            return
        ctx.check(kind not in ('unknown input', 'unknown type'), 'a layer that cannot be made is rejected', kind)
        vs = {k: v.get_value().shape for k, v in net.get_variables().items()}
        if kind == 'no hidden size':
            h = p
        ctx.check(vs.get('layers/p/W') == (NW, p), 'the size of the projection layer', repr(vs))
        ctx.check(vs.get('layers/h/input/W') == (p, h), 'the size of the hidden layer', repr(vs))
        ctx.check(vs.get('layers/out/input/W') == (h, NC), 'the size of the output layer is the number of classes', repr(vs))
        ctx.reach('ok')


@scenario('N07', 'the packaged architectures lstm300 and lstm1500: every layer refers to earlier layers and has the documented sizes',
          reach=['done'])
def packaged(ctx):
    size = ctx.choice('name', [300, 1500])
    a = Architecture.from_package('lstm%d' % size)
    names = [i['name'] for i in a.inputs]
    for l in a.layers:
        ctx.check(l['inputs'] and all(i in names for i in l['inputs']), 'a layer refers to earlier layers')
        ctx.check(l['name'] not in names, 'layers have different names')
        names.append(l['name'])
    ctx.check(a.output_layer == a.layers[-1]['name'] and a.layers[-1]['type'].endswith('softmax'), 'the last layer is the output layer')
    ctx.check(any(l['type'] == 'lstm' and l['size'] == size for l in a.layers), 'the size of the LSTM layer is the one in the name')
    ctx.reach('done')

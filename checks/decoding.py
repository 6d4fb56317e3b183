"""Lattice decoding: scores, exactness, recombination, pruning, unknown words."""
import contextlib
import io
import math

import numpy as np

from symx.runner import scenario, assume_note
from symx.shim import patched, pkg, NumpyShim, SArr, sym_float, DecimalShim, obj_array
from symx.ctx import Stub
from symx import core
from symx.core import is_sym, Unsupported

import theano
from theano import tensor

import theanolm.scoring.latticedecoder as ldmod
import theanolm.backend.probfunctions as pfmod
from theanolm.scoring import LatticeDecoder
from theanolm.scoring.lattice import Lattice
from theanolm.vocabulary import Vocabulary
from theanolm.backend import interpolate_linear, interpolate_loglinear

# --------------------------------------------------------------------------
# environment: the network is a table of log probabilities that the solver
# chooses freely, indexed by the whole input history and the target class
# --------------------------------------------------------------------------


class Expr(Stub):
    def __init__(self, fn):
        self._fn = fn

    def __add__(self, o): return Expr(lambda env: self._fn(env) + val(o, env))
    __radd__ = __add__
    def __sub__(self, o): return Expr(lambda env: self._fn(env) - val(o, env))
    def __mul__(self, o): return Expr(lambda env: self._fn(env) * val(o, env))
    __rmul__ = __mul__
    def __truediv__(self, o): return Expr(lambda env: self._fn(env) / val(o, env))


def val(x, env):
    return x._fn(env) if isinstance(x, Expr) else x


class Leaf(Expr):
    def __init__(self, name):
        self.name = name
        Expr.__init__(self, lambda env: env[id(self)])


class LogTable(Expr):
    """probabilities whose logarithms are solver inputs"""
    def __init__(self, logfn):
        self._logfn = logfn
        Expr.__init__(self, lambda env: NumpyShim().exp(logfn(env)))


class TensorStub(Stub):
    def log(self, e):
        if isinstance(e, LogTable):
            return Expr(e._logfn)
        return Expr(lambda env: NumpyShim().log(e._fn(env)))

    def exp(self, e):
        return Expr(lambda env: NumpyShim().exp(e._fn(env)))


class TheanoStub(Stub):
    config = theano.config

    def function(self, inputs, outputs, givens=None, **k):
        single = not isinstance(outputs, (list, tuple))
        outs = [outputs] if single else list(outputs)

        def f(*args):
            if len(args) != len(inputs):
                raise TypeError('wrong number of inputs')
            env = {id(v): np.asarray(a) for v, a in zip(inputs, args)}
            r = [o._fn(env) for o in outs]
            return r[0] if single else r
        return f


class Net(object):
    """full: log probabilities depend on the entire input history, otherwise
    on the previous word only"""

    def __init__(self, ctx, voc, full, maxlen, lo=-30):
        self.ctx, self.vocabulary, self.full = ctx, voc, full
        self.K = voc.num_shortlist_words() + 1
        self.lo = lo
        self.cache = {}
        self.recurrent_state_size = [1]
        if ctx.symbolic:
            mk = Leaf
            for n in ('input_word_ids', 'input_class_ids', 'target_class_ids', 'mask', 'is_training'):
                setattr(self, n, Leaf(n))
            st = Leaf('state')
            self.recurrent_state_input = [st]

            def codes(env):
                w = env[id(self.input_word_ids)]
                s = env[id(st)]
                return [self.next_code(int(s[0, j, 0]), int(w[0, j])) for j in range(w.shape[1])]

            def state(env):
                return np.array([[[float(c)] for c in codes(env)]])

            def logs(env):
                t = env[id(self.target_class_ids)]
                return obj_array([[self.q(c, int(t[0, j])) for j, c in enumerate(codes(env))]])
            self.recurrent_state_output = [Expr(state)]
            self._probs = LogTable(logs)
        else:
            n = self.K ** (maxlen + 1) if full else self.K
            table = np.empty((n, voc.num_classes()))
            for c in range(n):
                for k in range(voc.num_classes()):
                    table[c, k] = math.exp(self.q(c, k))
            fx = theano.config.floatX
            for nm in ('input_word_ids', 'input_class_ids', 'target_class_ids', 'mask'):
                setattr(self, nm, tensor.matrix(nm, dtype='int64'))
            self.is_training = tensor.scalar('is_training', dtype='int8')
            st = tensor.tensor3('state', dtype=fx)
            self.recurrent_state_input = [st]
            w = self.input_word_ids[0] + 1
            code = tensor.cast(st[0, :, 0], 'int64') * self.K + w if full else w
            self.recurrent_state_output = [tensor.cast(code, fx).dimshuffle('x', 0, 'x')]
            tab = theano.shared(table.astype(fx))
            self._probs = tab[code, self.target_class_ids[0]].dimshuffle('x', 0)

    def target_probs(self):
        return self._probs

    def next_code(self, code, word_id):
        return (code * self.K if self.full else 0) + word_id + 1

    def q(self, code, cls):
        k = (code, cls)
        if k not in self.cache:
            self.cache[k] = self.ctx.real('q_%d_%d' % k, self.lo, 0)
        return self.cache[k]


def env(ctx):
    if not ctx.symbolic:
        return contextlib.nullcontext()
    return patched(pkg('theanolm.scoring', 'theanolm.vocabulary', 'theanolm.backend.probfunctions'),
                   extra={'theanolm.scoring.latticedecoder': dict(theano=TheanoStub(), tensor=TensorStub(),
                                                                  logprob_type=sym_float),
                          'theanolm.backend.probfunctions': dict(logprob_type=sym_float, Decimal=DecimalShim)})


OPTS = dict(nnlm_weight=1.0, lm_scale=None, wi_penalty=None, unk_penalty=None, use_shortlist=False, unk_from_lattice=False,
            linear_interpolation=False, max_tokens_per_node=None, beam=None, recombination_order=None)


def vocabulary(probs=True):
    """a and b share a class; c is alone; x and y are out of shortlist"""
    voc = Vocabulary.from_file(io.StringIO('a 0\nb 0\nc 1\n'), 'classes', oos_words=['x', 'y'])
    if probs:
        voc.compute_probs({'a': 1, 'b': 3, 'c': 2, 'x': 1, 'y': 4, '<s>': 2, '</s>': 2, '<unk>': 1})
    return voc


def build(edges, n, finals, initial=0, times=None):
    """edges: (u, v, word, ac, lm)"""
    lat = Lattice()
    lat.nodes = [Lattice.Node(i) for i in range(n)]
    lat.initial_node = lat.nodes[initial]
    for f in finals:
        lat.nodes[f].final = True
    if times is not None:
        for nd, t in zip(lat.nodes, times):
            nd.time = t
    for u, v, w, ac, lm in edges:
        l = lat._add_link(lat.nodes[u], lat.nodes[v])
        l.word, l.ac_logprob, l.lm_logprob = w, ac, lm
    return lat


class Path(object):
    pass


def oracle(ctx, net, lat, o, wip=0, scale=1):
    """all complete paths with their scores by the documented definition"""
    voc = net.vocabulary
    res = []

    def shortlist(w):
        i = voc.word_to_id.get(w)
        if i is None or not voc.in_shortlist(i):
            i = voc.word_to_id['<unk>']
        return i

    oos = voc.get_oos_probs() if o['use_shortlist'] and voc.has_unigram_probs() else None

    def word_score(code, prev, w, lm, final):
        code = net.next_code(code, shortlist(prev))
        t = shortlist(w)
        s = net.q(code, int(voc.word_id_to_class_id[t])) + ctx.log(float(voc.get_word_prob(t)))
        i = voc.word_to_id.get(w)
        inv = i is not None
        ins = inv and voc.in_shortlist(i)
        replacement = None
        if not final:
            if o['unk_from_lattice']:
                replacement = lm
            elif o['unk_penalty'] is not None:
                replacement = o['unk_penalty']
        if oos is not None:
            if inv:
                if not ins:
                    s = s + ctx.log(float(oos[i]))
            elif replacement is not None:
                s = replacement
        elif not ins and replacement is not None:
            s = replacement
        return code, s

    def walk(node, words, code, ac, lm, nn, links):
        if node.final:
            p = Path()
            p.words = words + ('</s>',)
            _, s = word_score(code, words[-1], '</s>', None, True)
            p.ac, p.lm, p.nn = ac, lm, nn + s
            w = o['nnlm_weight']
            if o['linear_interpolation']:
                g = ctx.log(w * ctx.exp(p.nn) + (1 - w) * ctx.exp(p.lm))
            else:
                g = w * p.nn + (1 - w) * p.lm
            p.graph = g * scale + wip * (len(p.words) - 1)
            p.total = p.ac + p.graph
            p.links = links
            res.append(p)
        for l in node.out_links:
            a2 = ac + (l.ac_logprob if l.ac_logprob is not None else 0)
            l2 = lm + (l.lm_logprob if l.lm_logprob is not None else 0)
            if l.word is None:
                walk(l.end_node, words, code, a2, l2, nn, links + [l])
            else:
                c2, s = word_score(code, words[-1], l.word, l.lm_logprob, False)
                walk(l.end_node, words + (l.word,), c2, a2, l2, nn + s, links + [l])
    walk(lat.initial_node, ('<s>',), 0, 0, 0, 0, [])
    return res


def token_words(voc, tok):
    return tuple(tok.history_words(voc))


def matches(ctx, tok, p):
    return ctx.and_(ctx.eq(tok.ac_logprob, p.ac), ctx.eq(tok.lat_lm_logprob, p.lm), ctx.eq(tok.nn_lm_logprob, p.nn),
                    ctx.eq(tok.total_logprob, p.total))


def check_exact(ctx, voc, toks, paths):
    """one token per distinct word sequence, with its best score, best first"""
    by = {}
    for p in paths:
        by.setdefault(p.words, []).append(p)
    got = [token_words(voc, t) for t in toks]
    ctx.check(sorted(got) == sorted(by), 'every word sequence of the lattice is returned once', '%s %s' % (got, sorted(by)))
    for t, w in zip(toks, got):
        if w not in by:
            continue
        ctx.check_eq(t.total_logprob, ctx.max([p.total for p in by[w]]), 'the score of a word sequence is that of its best path')
        ctx.check(ctx.or_(*[matches(ctx, t, p) for p in by[w]]), 'the scores of a result are those of one path')
    for a, b in zip(toks, toks[1:]):
        ctx.check_le(b.total_logprob, a.total_logprob, 'results are in the order of decreasing probability')


TOPO = {
    'parallel': (3, [(0, 1), (0, 1), (1, 2)], [2]),
    'diamond': (4, [(0, 1), (0, 2), (1, 3), (2, 3)], [3]),
    'skip': (3, [(0, 1), (1, 2), (0, 2)], [2]),
    'two finals': (4, [(0, 1), (1, 2), (1, 3)], [2, 3]),
    'middle final': (3, [(0, 1), (1, 2)], [1, 2]),
    'reversed ids': (4, [(3, 1), (3, 2), (2, 1), (1, 0)], [0]),
    'chain': (4, [(0, 1), (1, 2), (2, 3)], [3]),
}


def symbolic_edges(ctx, pairs, words, scores=True):
    return [(u, v, words[k], ctx.real('ac%d' % k, -50, 0) if scores else 0.0, ctx.real('lm%d' % k, -50, 0) if scores else 0.0)
            for k, (u, v) in enumerate(pairs)]


def initial_of(name):
    return 3 if name == 'reversed ids' else 0


def _exact(name):
    n, pairs, finals = TOPO[name]

    def fn(ctx):
        pools = [['a', 'c', None], ['a', 'b'], ['a', None], ['b']]
        if ctx.tier == 'thorough':
            pools = [['a', 'c', None], ['a', 'b', None], ['a', 'b', None], ['a', 'b']]
        words = [ctx.choice('w%d' % k, pools[k]) for k in range(len(pairs))]
        o = dict(OPTS)
        o['nnlm_weight'] = ctx.choice('weight', [1.0, 0.25])
        o['recombination_order'] = None
        lat = build(symbolic_edges(ctx, pairs, words), n, finals, initial_of(name))
        with env(ctx):
            voc = vocabulary()
            net = Net(ctx, voc, True, 4)
            paths = oracle(ctx, net, lat, o)
            toks, recomb = LatticeDecoder(net, o).decode(lat)
            check_exact(ctx, voc, toks, paths)
            for r in recomb:
                ctx.check(tuple(r[0].history) == tuple(r[1]), 'only identical histories are recombined')
        if len(set(p.words for p in paths)) < len(paths):
            ctx.reach('recombined')
        if len(paths) > 1:
            ctx.reach('several paths')
    scenario('D01', '%s lattice (%d nodes, %d links): every word labelling over the given pools incl. null links, link scores and '
             'all network log probabilities symbolic, weight 1 or 1/4, no pruning' % (name, n, len(pairs)),
             name='exact_' + name.replace(' ', '_'),
             reach=[] if name in ('chain',) else ['several paths'])(fn)


for _n in TOPO:
    _exact(_n)


@scenario('D01', 'score of a path: one path of 3 links (one null), every score, network log probability, NNLM weight, LM scale and '
          'word insertion penalty symbolic, given as options and/or in the lattice', reach=['option', 'lattice', 'default'])
def score_formula(ctx):
    o = dict(OPTS)
    lin = ctx.choice('linear', [False, True])
    o['linear_interpolation'] = lin
    o['nnlm_weight'] = ctx.real('weight', 0.125, 0.875)
    src = ctx.choice('source', ['option', 'lattice', 'both', 'default'])
    pairs = [(0, 1), (1, 2), (2, 3)]
    lat = build(symbolic_edges(ctx, pairs, ['a', None, 'b']), 4, [3])
    scale, wip = 1, 0
    if src in ('lattice', 'both'):
        lat.lm_scale = ctx.real('lat_scale', 0, 20)
        lat.wi_penalty = ctx.real('lat_wip', -10, 10)
        scale, wip = lat.lm_scale, lat.wi_penalty
    if src in ('option', 'both'):
        o['lm_scale'] = ctx.real('opt_scale', 0, 20)
        o['wi_penalty'] = ctx.real('opt_wip', -10, 10)
        scale, wip = o['lm_scale'], o['wi_penalty']
    with env(ctx):
        voc = vocabulary()
        net = Net(ctx, voc, True, 4, lo=-10)
        paths = oracle(ctx, net, lat, o, wip, scale)
        toks, _ = LatticeDecoder(net, o).decode(lat)
        ctx.check(len(toks) == 1, 'one result')
        t, p = toks[0], paths[0]
        ctx.check(token_words(voc, t) == p.words, 'words of the path')
        ctx.check_eq(t.ac_logprob, p.ac, 'acoustic score is the sum over links')
        ctx.check_eq(t.lat_lm_logprob, p.lm, 'lattice LM score is the sum over links')
        ctx.check_eq(t.nn_lm_logprob, p.nn, 'NNLM score is the sum over predicted words')
        ctx.check_eq(t.graph_logprob, p.graph, 'graph score: scaled interpolated LM score plus insertion penalties')
        ctx.check_eq(t.total_logprob, p.total, 'total score')
    ctx.reach(src)


class GivenNet(Net):
    """depends on the previous word only, with given log probabilities"""

    def q(self, code, cls):
        return -0.5 - ((code * 7 + cls * 3) % 11) / 4.0


@scenario('D01', 'a lattice of 7 segments with two words in each (up to 128 hypotheses in a node), given link and network scores, symbolic word '
          'insertion penalty, LM scale absent or 3: no pruning, or limits that nothing exceeds', reach=['all'], validate=4)
def wide(ctx):
    o = dict(OPTS)
    o['nnlm_weight'] = ctx.choice('weight', [1.0, 0.25])
    o['wi_penalty'] = ctx.real('wip', -10, 10)
    o['lm_scale'] = ctx.choice('scale', [None, 3.0])
    limits = ctx.choice('limits', [{}, dict(max_tokens_per_node=128, beam=10000.0), dict(recombination_order=20)])
    o.update(limits)
    n = 7
    words = ['c', 'd', 'e']
    edges = [(i, i + 1, words[(i + k) % 3], -2.0 ** (i - 3) * k - 0.375 * i, -0.125 * (i + 1) - 0.015625 * k) for i in range(n) for k in (0, 1)]
    with env(ctx):
        voc = Vocabulary.from_file(io.StringIO('c\nd\ne\n'), 'words')
        net = GivenNet(ctx, voc, False, 2)
        lat = build(edges, n + 1, [n])
        paths = oracle(ctx, net, lat, o, 0, o['lm_scale'] or 1)
        toks, _ = LatticeDecoder(net, o).decode(lat)
        ctx.check(len(toks) == len(paths) == 2 ** n, 'every path is a result')
        got = [token_words(voc, t) for t in toks]
        ctx.check(sorted(got) == sorted(p.words for p in paths), 'every path is a result once')
        want = {p.words: p for p in paths}
        prev = None
        for w, t in zip(got, toks):
            p = want.get(w)
            if p is None:
                continue
            ctx.check_eq(t.total_logprob, p.total + o['wi_penalty'] * (n + 1), 'the score of a path')
            ctx.check_eq(t.nn_lm_logprob, p.nn, 'NNLM score of a path')
            if prev is not None:
                ctx.check_le(p.total, prev, 'results are sorted')
            prev = p.total
        ctx.reach('all')


@scenario('D01', 'missing scores: links without acoustic and/or LM scores, infinite (-inf) link scores', reach=['inf'])
def missing_scores(ctx):
    o = dict(OPTS)
    o['nnlm_weight'] = ctx.choice('weight', [1.0, 0.5, 0.0])
    ac = [ctx.choice('hasac%d' % k, [True, False]) for k in range(2)]
    lm = [ctx.choice('haslm%d' % k, ['yes', 'no', 'inf']) for k in range(2)]
    edges = [(k, k + 1, 'a', ctx.real('ac%d' % k, -50, 0) if ac[k] else None,
              {'yes': ctx.real('lm%d' % k, -50, 0), 'no': None, 'inf': float('-inf')}[lm[k]]) for k in range(2)]
    lat = build(edges, 3, [2])
    with env(ctx):
        voc = vocabulary()
        net = Net(ctx, voc, True, 4)
        toks, _ = LatticeDecoder(net, o).decode(lat)
        t = toks[0]
        wac = sum((e[3] for e in edges if e[3] is not None), 0)
        ctx.check_eq(t.ac_logprob, wac, 'acoustic score is the sum over links')
        if 'inf' in lm:
            ctx.reach('inf')
            ctx.check_eq(t.lat_lm_logprob, float('-inf'), 'an impossible link makes the lattice LM score -inf')
            if o['nnlm_weight'] == 1.0:
                ctx.check_eq(t.total_logprob, wac + t.nn_lm_logprob, 'zero-weight scores are ignored even if infinite')
            else:
                ctx.check_eq(t.total_logprob, float('-inf'), 'total score of an impossible path')
        else:
            wlm = sum((e[4] for e in edges if e[4] is not None), 0)
            w = o['nnlm_weight']
            ctx.check_eq(t.total_logprob, wac + w * t.nn_lm_logprob + (1 - w) * wlm, 'total score')


@scenario('D01', 'recombination order 1 or 2 with a network that depends on the previous word only: 6 paths in a 5-node lattice, all '
          'scores symbolic', reach=['recombined'], max_s=200)
def recombination(ctx):
    o = dict(OPTS)
    order = ctx.choice('order', [1, 2])
    o['recombination_order'] = order
    words = ['a', 'c', ctx.choice('w2', ['b', 'a']), ctx.choice('w3', ['c', 'b']), 'c']
    pairs = [(0, 1), (0, 1), (1, 2), (1, 2), (2, 3)]
    edges = [(u, v, words[k], ctx.real('ac%d' % k, -50, 0), 0.0) for k, (u, v) in enumerate(pairs)]
    lat = build(edges, 4, [3])
    with env(ctx):
        voc = vocabulary()
        net = Net(ctx, voc, False, 4)
        paths = oracle(ctx, net, lat, o)
        toks, recomb = LatticeDecoder(net, o).decode(lat)
        best = ctx.max([p.total for p in paths])
        ctx.check_eq(toks[0].total_logprob, best, 'recombination keeps the best path when the network needs no more history')
        keys = [tuple(t.history[-order:]) for t in toks]
        ctx.check(len(set(keys)) == len(keys), 'results with the same recent words are recombined')
        for t in toks:
            cand = [p for p in paths if p.words == token_words(voc, t)]
            ctx.check(len(cand) > 0, 'a result is a path of the lattice')
            ctx.check(ctx.or_(*[matches(ctx, t, p) for p in cand]), 'the scores of a result are those of its path')
        # best per suffix
        for k, t in zip(keys, toks):
            suffix = tuple(token_words(voc, t)[-order:])
            ctx.check_eq(t.total_logprob, ctx.max([p.total for p in paths if p.words[-order:] == suffix]),
                         'the best path of each group of recombined paths is kept')
        for tok, hist, nn in recomb:
            ctx.check(tuple(tok.history[-order:]) == tuple(hist[-order:]), 'recombined tokens share the recent words')
            ctx.reach('recombined')


# --------------------------------------------------------------------------
# unknown and out-of-shortlist words
# --------------------------------------------------------------------------

@scenario('D03', 'two words, each any of: shortlist word, 2 out-of-shortlist words, out-of-vocabulary word; shortlist option, '
          'unk-from-lattice option, unk penalty none/symbolic, unigram probabilities present or not; all scores symbolic',
          reach=['oov', 'oos', 'shortlist'])
def unknown_words(ctx):
    o = dict(OPTS)
    o['nnlm_weight'] = 0.5
    o['use_shortlist'] = ctx.choice('shortlist', [False, True])
    o['unk_from_lattice'] = ctx.choice('unk_from_lattice', [False, True])
    pen = ctx.choice('penalty', ['none', 'value', 'zero'])
    o['unk_penalty'] = {'none': None, 'value': ctx.real('penalty_value', -20, 0), 'zero': 0.0}[pen]
    uni = ctx.choice('unigram', [True, False])
    words = [ctx.choice('w0', ['a', 'x', 'y', 'oov']), ctx.choice('w1', ['b', 'x', 'y', 'oov', 'other'])]
    lat = build(symbolic_edges(ctx, [(0, 1), (1, 2)], words), 3, [2])
    with env(ctx):
        voc = vocabulary(probs=uni)
        net = Net(ctx, voc, True, 3)
        paths = oracle(ctx, net, lat, o)
        toks, _ = LatticeDecoder(net, o).decode(lat)
        t, p = toks[0], paths[0]
        ctx.check(token_words(voc, t) == p.words, 'unknown words appear in the result as they are in the lattice')
        ctx.check_eq(t.nn_lm_logprob, p.nn, 'NNLM score with unknown words')
        ctx.check_eq(t.total_logprob, p.total, 'total score with unknown words')
    if 'oov' in words:
        ctx.reach('oov')
    if 'x' in words:
        ctx.reach('oos')
        if o['use_shortlist']:
            ctx.reach('shortlist')


@scenario('D03', 'two parallel out-of-vocabulary words and a shortlist word before a common word: different unknown words stay different '
          'results', reach=['two'])
def unknown_words_distinct(ctx):
    o = dict(OPTS)
    w = [ctx.choice('w0', ['oov1', 'x']), ctx.choice('w1', ['oov2', 'y', 'a']), 'b']
    lat = build(symbolic_edges(ctx, [(0, 1), (0, 1), (1, 2)], w), 3, [2])
    with env(ctx):
        voc = vocabulary()
        net = Net(ctx, voc, True, 3)
        paths = oracle(ctx, net, lat, o)
        toks, _ = LatticeDecoder(net, o).decode(lat)
        check_exact(ctx, voc, toks, paths)
        if len(toks) == 2:
            ctx.reach('two')


# --------------------------------------------------------------------------
# pruning
# --------------------------------------------------------------------------

def prefixes(ctx, net, lat, o, paths):
    """total score of every partial hypothesis: {node id: {word history: [totals]}} and the prefix
    totals (node id, words, total) of every complete path"""
    voc = net.vocabulary

    def partial(links):
        words = ('<s>',)
        code, tot = 0, 0
        for l in links:
            tot = tot + l.ac_logprob
            if l.word is not None:
                code = net.next_code(code, voc.word_to_id[words[-1]])
                t = voc.word_to_id[l.word]
                tot = tot + net.q(code, int(voc.word_id_to_class_id[t])) + ctx.log(float(voc.get_word_prob(t)))
                words = words + (l.word,)
        return words, tot

    hyp = {}
    pre = []
    for p in paths:
        mine = []
        for k in range(len(p.links) + 1):
            node = p.links[k - 1].end_node.id if k else lat.initial_node.id
            words, tot = partial(p.links[:k])
            hyp.setdefault(node, {}).setdefault(tuple(id(l) for l in p.links[:k]), (words, tot))
            mine.append((node, words, tot))
        pre.append(mine)
    return hyp, pre


def pruned_lattice(ctx, timed):
    pairs = [(0, 1), (0, 1), (1, 2), (1, 2), (0, 2)]
    words = ['a', 'c', 'a', 'b', 'c'] if ctx.tier == 'thorough' else ['a', 'c', 'a', 'b']
    words[3] = ctx.choice('last', ['b', None])
    edges = [(u, v, words[k], ctx.real('ac%d' % k, -50, 0), None) for k, (u, v) in enumerate(pairs[:len(words)])]
    return build(edges, 3, [2], times=[0, 1, 2] if timed else None)


def check_sound(ctx, voc, toks, paths):
    ctx.check(len(toks) > 0, 'pruning leaves at least one result')
    got = [token_words(voc, t) for t in toks]
    ctx.check(len(set(got)) == len(got), 'every word sequence is returned at most once')
    for t, w in zip(toks, got):
        cand = [p for p in paths if p.words == w]
        ctx.check(len(cand) > 0, 'a result is a path of the lattice')
        ctx.check(ctx.or_(*[matches(ctx, t, p) for p in cand]), 'the scores of a result are those of its path')
    for a, b in zip(toks, toks[1:]):
        ctx.check_le(b.total_logprob, a.total_logprob, 'results are in the order of decreasing probability')


def _pruned(ctx, beam, limit, extra=None, times=(True, False)):
    o = dict(OPTS)
    lat = pruned_lattice(ctx, ctx.choice('timed', list(times)))
    o['beam'] = beam
    o['max_tokens_per_node'] = limit
    if extra:
        o.update(extra)
    with env(ctx):
        voc = vocabulary()
        net = Net(ctx, voc, False, 3, lo=-20)
        paths = oracle(ctx, net, lat, o)
        hyp, pre = prefixes(ctx, net, lat, o, paths)
        toks, _ = LatticeDecoder(net, o).decode(lat)
        check_sound(ctx, voc, toks, paths)
        every = [t for h in hyp.values() for _, t in h.values()]
        beam = o.get('abs_min_beam') if extra else beam
        limit = max(1, o.get('abs_min_max_tokens', 0)) if extra else limit
        got = [token_words(voc, t) for t in toks]
        sure = {}       # links of a prefix: the condition under which it certainly survives
        for p, mine in zip(paths, pre):
            safe = []
            for k, (node, words, tot) in enumerate(mine):
                before = ctx.and_(*safe) if safe else True
                if beam is not None:
                    safe += [tot > b - beam for b in every]
                if limit is not None:
                    rivals = [ctx.ite(b >= tot, 1, 0) for w, b in hyp[node].values() if w != words]
                    safe.append(sum(rivals, 0) <= limit - 1)
                # a prefix reaches its node when the prefixes before it survive
                sure[tuple(id(l) for l in p.links[:k])] = (node, tot, before)
            ctx.check(ctx.implies(ctx.and_(*safe), toks[0].total_logprob >= p.total - (0 if ctx.symbolic else 1e-6)),
                      'a path whose every prefix is within the limits is not lost')
        if beam is not None and not extra:
            for p, mine in zip(paths, pre):
                if p.words not in got:
                    continue
                for node, words, tot in mine:
                    for n2, t2, arrives in sure.values():
                        if n2 == node:
                            ctx.check(ctx.implies(arrives, tot >= t2 - beam - (0 if ctx.symbolic else 1e-6)),
                                      'a path that falls outside the beam at a node is pruned')
        if len(toks) < len(paths):
            ctx.reach('pruned')
        if len(toks) == len(paths):
            ctx.reach('all kept')


@scenario('D02', 'decoding 4 (thorough 5) paths with a symbolic beam, with and without node times, symbolic scores',
          reach=['pruned', 'all kept'])
def decode_beam(ctx):
    _pruned(ctx, ctx.real('beam', 0, 200), None)


@scenario('D02', 'decoding 4 (thorough 5) paths with at most 1 or 2 tokens per node, symbolic scores', reach=['pruned'])
def decode_limit(ctx):
    _pruned(ctx, None, ctx.choice('limit', [1, 2]), times=(False,))


@scenario('D02', 'at most 2 tokens per node and recombination order 1: 5 paths over 3 nodes meet at one node with 2 different last words, '
          'symbolic scores', reach=['both'])
def decode_limit_recombination(ctx):
    o = dict(OPTS)
    o['recombination_order'] = 1
    o['max_tokens_per_node'] = 2
    first = [ctx.real('ac%d' % i, -50, 0) for i in range(2)] + [-25.0]
    edges = [(0, 1 + i, w, first[i], 0.0) for i, w in enumerate(('a', 'b', 'c'))]
    for i in range(3):
        edges += [(1 + i, 4, 'a', -1.0, 0.0)] + [(1 + i, 4, 'b', -2.0, 0.0)] * (i != 1)
    edges.append((4, 5, 'c', 0.0, 0.0))
    lat = build(edges, 6, [5])
    with env(ctx):
        voc = vocabulary()
        net = Net(ctx, voc, False, 4)
        paths = oracle(ctx, net, lat, o)
        # nowhere are there more than two groups of recombined tokens, so the limit removes nothing
        toks, _ = LatticeDecoder(net, o).decode(lat)
        check_sound(ctx, voc, toks, paths)
        ctx.check_eq(toks[0].total_logprob, ctx.max([p.total for p in paths]), 'the best path is found when recombination alone meets the limit')
        ctx.reach('both')


@scenario('D02', 'limits tightened relative to lattice size (factor 1-4): symbolic beam and absolute minimum beam, token limit 3, '
          'absolute minimum 1, 2, 0 or not given (one token is kept all the same)', reach=['pruned'])
def decode_relative(ctx):
    extra = dict(prune_extra_limit=ctx.choice('factor', [1, 4]), abs_min_beam=ctx.real('min_beam', 0, 100))
    n = ctx.choice('min_tokens', [1, 2, 0, None])
    if n is not None:
        extra['abs_min_max_tokens'] = n
    _pruned(ctx, ctx.real('beam', 0, 200), 3, extra, times=(False,))


@scenario('D02', 'one pruning step: 3 tokens with symbolic scores and recombination keys (3 words of history), 4 nodes with '
          'non-decreasing, missing or symbolic times and symbolic best scores, symbolic beam or none, token limit none/1/2, limits relative to the '
          'lattice size or not',
          reach=['beam', 'limit', 'recombined', 'untimed'])
def prune_step(ctx):
    o = dict(OPTS)
    use_beam = ctx.choice('use_beam', [True, False])
    o['beam'] = ctx.real('beam', 0, 100) if use_beam else None
    o['max_tokens_per_node'] = ctx.choice('limit', [None, 1, 2])
    o['recombination_order'] = 1
    # limits relative to the size: tightened at least to a half, at most to the number of nodes plus one
    relative = use_beam and ctx.choice('relative', [False, True])
    if relative:
        o.update(prune_extra_limit=1, abs_min_beam=ctx.real('min_beam', 0, 100), abs_min_max_tokens=1)
    hist = [(1, ctx.choice('h%d' % i, [1, 2])) for i in range(2)] + [(1, 3)]
    hist = [(10 + i,) + h for i, h in enumerate(hist)]
    tot = [ctx.real('total%d' % i, -100, 0) for i in range(3)]
    if use_beam:
        times = (0, 1, 1, 2) if relative else ctx.choice('times', [(0, 1, 1, 2), (0, 1, 2, 3), (0, None, 1, 2), (None, None, None, None), (0, 1, None, 2)])
    else:
        times = (None,) * 4
    best = [ctx.real('best%d' % i, -100, 0) for i in range(4)]
    unvisited = ctx.choice('unvisited', [False, True]) if use_beam and not relative else False
    for t in tot:
        ctx.assume(t <= best[2])
    with env(ctx):
        voc = vocabulary()
        net = Net(ctx, voc, False, 3)
        dec = LatticeDecoder(net, o)
        nodes = [Lattice.Node(i) for i in range(4)]
        for nd, t, b in zip(nodes, times, best):
            nd.time, nd.best_logprob = t, b
        if unvisited:
            nodes[3].best_logprob = None
        toks = []
        for i in range(3):
            k = LatticeDecoder.Token(history=hist[i], nn_lm_logprob=-float(i))
            k.recompute_hash(1)
            k.total_logprob = tot[i]
            toks.append(k)
        table = [[], [], list(toks), []]
        recomb = []
        dec._prune(nodes[2], nodes, table, recomb)
        kept = table[2]
        ctx.check(len(kept) > 0, 'at least one token is kept')
        ctx.check(all(any(k is t for t in toks) for k in kept) and len(set(map(id, kept))) == len(kept), 'tokens are not invented')
        best_tot = ctx.max(tot)
        ctx.check_eq(kept[0].total_logprob, best_tot, 'the best token is kept and is first')
        for a, b in zip(kept, kept[1:]):
            ctx.check(a.total_logprob >= b.total_logprob, 'kept tokens are sorted')
        keys = [k.history[-1] for k in kept]
        ctx.check(len(set(keys)) == len(keys), 'tokens with the same recent words are recombined')
        # reference
        first = 2 if times[2] is None else [i for i in range(4) if times[i] is not None and times[i] >= times[2]][0]
        ref = [best[i] for i in range(first, 4) if not (unvisited and i == 3)]
        top = ctx.max(ref) if use_beam else None
        wide = narrow = o['beam']
        limit = o['max_tokens_per_node']
        if relative:
            wide, narrow = [ctx.max([wide / d, o['abs_min_beam']]) for d in (2, 5)]
            limit = limit and 1
        if limit is not None:
            ctx.check(len(kept) <= limit, 'the token limit is respected')
        for k in kept[1:]:
            if use_beam:
                ctx.check(k.total_logprob > top - wide - (0 if ctx.symbolic else 1e-6), 'tokens outside the beam are pruned')
        dropped = [t for t in toks if not any(t is k for k in kept)]
        rec = [r[0] for r in recomb]
        for t in dropped:
            same = [k for k in toks if k is not t and k.history[-1] == t.history[-1]]
            why = [k.total_logprob >= t.total_logprob for k in same]
            if any(t is r for r in rec):
                ctx.check(len(same) > 0, 'only tokens with the same recent words are recombined')
                ctx.check(ctx.or_(*why), 'recombination keeps the best token')
                r = [r for r in recomb if r[0] is t][0]
                ctx.check(any(tuple(r[1]) == k.history and ctx.eq(r[2], k.nn_lm_logprob) for k in same),
                          'the kept token is recorded')
                ctx.reach('recombined')
                continue
            if use_beam:
                why = [t.total_logprob <= top - narrow + (0 if ctx.symbolic else 1e-6)]
                ctx.reach('beam')
            else:
                why = []
            if limit is not None and len(kept) == limit:
                why.append(ctx.and_(*[k.total_logprob >= t.total_logprob for k in kept]))
                ctx.reach('limit')
            ctx.check(ctx.or_(*why) if why else False, 'a token is dropped only because of recombination, the beam or the limit')
        if times[2] is None:
            ctx.reach('untimed')


# --------------------------------------------------------------------------
# interpolation
# --------------------------------------------------------------------------

def pf_env(ctx):
    if not ctx.symbolic:
        return contextlib.nullcontext()

    class Underflow(NumpyShim):
        """float64 exp() is zero below -746"""
        def exp(self, x):
            if is_sym(x):
                return 0.0 if bool(x < -746) else core.fn_exp(x)
            return np.exp(x)
    return patched(pkg('theanolm.backend.probfunctions'), np_shim=Underflow(),
                   extra={'theanolm.backend.probfunctions': dict(logprob_type=sym_float, Decimal=DecimalShim)})


def lp(ctx, name, lo):
    if ctx.choice(name + '_inf', [False, True]):
        return float('-inf')
    return ctx.real(name, lo, 0)


@scenario('D05', 'linear interpolation: log probabilities symbolic in [-5000, 0] or -inf (also below the underflow limit), weight symbolic '
          'in [0, 1]', reach=['underflow', 'inf', 'normal'])
def linear(ctx):
    a, b = lp(ctx, 'a', -5000), lp(ctx, 'b', -5000)
    side = ctx.choice('w', ['0', '1', 'between'])
    w = {'0': 0.0, '1': 1.0, 'between': ctx.real('weight', 0.001, 0.999)}[side]
    with pf_env(ctx):
        got = interpolate_linear(a, b, w)
    if side == '1':
        ctx.check_eq(got, a, 'weight one gives the first probability')
    elif side == '0':
        ctx.check_eq(got, b, 'weight zero gives the second probability')
    elif a == float('-inf') and b == float('-inf'):
        ctx.check_eq(got, float('-inf'), 'two zero probabilities')
    else:
        if ctx.symbolic:
            p = 0
            if a != float('-inf'):
                p = p + w * ctx.exp(a)
            if b != float('-inf'):
                p = p + (1 - w) * ctx.exp(b)
            want = ctx.log(p)
        else:
            m = max(a, b)
            want = m + math.log(w * math.exp(a - m) + (1 - w) * math.exp(b - m))
        ctx.check_eq(got, want, 'linear interpolation is the weighted sum of the probabilities')
    if a == float('-inf'):
        ctx.reach('inf')
    elif a < -800:
        ctx.reach('underflow')
    elif a > -700:
        ctx.reach('normal')


POINTS = [0.0, -1e-3, -5.0, -88.0, -100.0, -103.0, -700.0, -708.5, -720.0, -740.0, -744.5, -745.0, -745.2, -746.0, -1234.567, -5000.0,
          float('-inf')]


@scenario('D05', 'linear interpolation around the limits of floating-point numbers: every pair of 17 log probabilities from 0 to -inf '
          '(single and double precision subnormal numbers included) and weights 0, 0.001, 0.25, 0.5, 0.75, 1, in machine arithmetic', reach=['done'])
def limits(ctx):
    a, b = ctx.choice('a', POINTS), ctx.choice('b', POINTS)
    w = ctx.choice('w', [0.0, 0.001, 0.25, 0.5, 0.75, 1.0])
    got = float(interpolate_linear(np.float64(a), np.float64(b), np.float64(w)))
    terms = [(x, y) for x, y in ((a, w), (b, 1 - w)) if y > 0 and x != float('-inf')]
    if not terms:
        ctx.check(got == float('-inf'), 'two zero probabilities')
    else:
        m = max(x for x, _ in terms)
        want = m + math.log(sum(y * math.exp(x - m) for x, y in terms))
        ctx.check(abs(got - want) <= 1e-6 * max(1.0, abs(want)), 'linear interpolation is the weighted sum of the probabilities',
                  'a=%r b=%r w=%r: %r != %r' % (a, b, w, got, want))
    ctx.reach('done')


@scenario('D05', 'log-linear interpolation: log probabilities symbolic or -inf, weights symbolic or zero', reach=['inf', 'ok'])
def loglinear(ctx):
    a, b = lp(ctx, 'a', -5000), lp(ctx, 'b', -5000)
    w1 = ctx.real('w1', 0.001, 2) if ctx.choice('w1z', [False, True]) else 0.0
    w2 = ctx.real('w2', 0.001, 2) if ctx.choice('w2z', [False, True]) else 0.0
    with pf_env(ctx):
        got = interpolate_loglinear(a, b, w1, w2)
    want = 0
    inf = False
    for w, x in ((w1, a), (w2, b)):
        if not (not is_sym(w) and w == 0):
            if x == float('-inf'):
                inf = True
            else:
                want = want + w * x
    if inf:
        ctx.check_eq(got, float('-inf'), 'an impossible event with a nonzero weight')
        ctx.reach('inf')
    else:
        ctx.check_eq(got, want, 'log-linear interpolation is the weighted sum of log probabilities')
        ctx.reach('ok')

"""Word lattices: ordering, reading, writing, batches, rescored lattices."""
import contextlib
import io
import itertools
import math
import os

import numpy as np

from symx.runner import scenario, assume_note
from symx.shim import patched, pkg, sym_float
from symx.core import is_sym

import theanolm.scoring.slflattice
import theanolm.scoring.kaldilattice
import theanolm.scoring.latticebatch
import theanolm.scoring.rescoredlattice
from theanolm.backend import InputError
from theanolm.scoring.lattice import Lattice
from theanolm.scoring.slflattice import SLFLattice
from theanolm.scoring.kaldilattice import KaldiLattice
from theanolm.scoring.latticebatch import LatticeBatch
from theanolm.scoring import RescoredLattice, LatticeDecoder
from checks import decoding as D


def env(ctx):
    if not ctx.symbolic:
        return contextlib.nullcontext()
    mods = pkg('theanolm.scoring')
    return patched(mods, extra={m.__name__: dict(logprob_type=sym_float) for m in mods if hasattr(m, 'logprob_type')})


# --------------------------------------------------------------------------
# topological order
# --------------------------------------------------------------------------

def reach_set(n, edges, start):
    seen, todo = {start}, [start]
    while todo:
        u = todo.pop()
        for a, b in edges:
            if a == u and b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


def has_cycle(nodes, edges):
    indeg = {u: 0 for u in nodes}
    es = [(a, b) for a, b in edges if a in nodes and b in nodes]
    for a, b in es:
        indeg[b] += 1
    todo = [u for u in nodes if indeg[u] == 0]
    k = 0
    while todo:
        u = todo.pop()
        k += 1
        for a, b in es:
            if a == u:
                indeg[b] -= 1
                if indeg[b] == 0:
                    todo.append(b)
    return k < len(nodes)


def _graph(ctx, n, extra_edges, relabel, timed):
    """any subset of the forward edges (plus the extra ones) under a relabelling of the node IDs"""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)] + list(extra_edges)
    edges = [(relabel[a], relabel[b]) for a, b in pairs if bool(ctx.bool('e%d_%d' % (a, b)))]
    lat = Lattice()
    lat.nodes = [Lattice.Node(i) for i in range(n)]
    lat.initial_node = lat.nodes[relabel[0]]
    for a, b in edges:
        lat._add_link(lat.nodes[a], lat.nodes[b])
    if timed:
        for i, nd in enumerate(lat.nodes):
            nd.time = ctx.real('t%d' % i, 0, 10) if timed == 'all' or i % 2 == 0 else None
    return lat, edges, relabel[0]


def check_order(ctx, lat, edges, start):
    n = len(lat.nodes)
    with env(ctx):
        reachable = reach_set(n, edges, start)
        cyc = has_cycle(reachable, edges)
        try:
            order = lat.sorted_nodes()
        except InputError:
            ctx.check(cyc, 'a lattice without cycles is accepted')
            ctx.reach('rejected')
            return
        ctx.check(not cyc, 'a cycle is rejected')
        ids = [nd.id for nd in order]
        ctx.check(sorted(ids) == sorted(reachable), 'every reachable node is returned exactly once', '%s %s' % (ids, reachable))
        pos = {u: k for k, u in enumerate(ids)}
        for a, b in edges:
            if a in pos and b in pos:
                ctx.check(pos[a] < pos[b], 'a node comes after all its predecessors')
        # among the nodes whose predecessors have been visited, the earliest one is next
        done = set()
        for u in ids:
            ready = [v for v in reachable if v not in done and all(a in done for a, b in edges if b == v and a in reachable)]
            for v in ready:
                tu, tv = lat.nodes[u].time, lat.nodes[v].time
                if tv is not None and v != u:
                    ctx.check(tu is not None and tu <= tv, 'among available nodes the earliest is next')
                    ctx.reach('timed')
            done.add(u)
        if len(reachable) < n:
            ctx.reach('unreachable')
        ctx.reach('sorted')


@scenario('L01', 'every acyclic graph on 4 nodes (any subset of links, two node numberings), no times; initial node first in the order',
          reach=['sorted', 'unreachable'])
def acyclic4(ctx):
    relabel = ctx.choice('relabel', [[0, 1, 2, 3], [2, 3, 0, 1], [3, 0, 2, 1]])
    check_order(ctx, *_graph(ctx, 4, [], relabel, None))


@scenario('L01', 'every acyclic graph on 4 nodes, times symbolic reals on all or every second node', reach=['sorted', 'timed'])
def timed4(ctx):
    timed = ctx.choice('timed', ['all', 'some'])
    check_order(ctx, *_graph(ctx, 4, [], [0, 1, 2, 3], timed))


@scenario('L01', 'every graph on 3 nodes with any forward and backward links and a self loop: cycles are rejected when reachable',
          reach=['sorted', 'rejected'])
def cyclic3(ctx):
    check_order(ctx, *_graph(ctx, 3, [(1, 0), (2, 1), (2, 0), (1, 1)], [0, 1, 2], None))


@scenario('L01', 'parallel links: 3 nodes with 1-2 links between each pair, times symbolic', reach=['sorted'])
def parallel3(ctx):
    lat = Lattice()
    lat.nodes = [Lattice.Node(i) for i in range(3)]
    lat.initial_node = lat.nodes[0]
    edges = []
    for a, b in ((0, 1), (1, 2), (0, 2)):
        for _ in range(int(ctx.int('m%d%d' % (a, b), 0, 2))):
            lat._add_link(lat.nodes[a], lat.nodes[b])
            edges.append((a, b))
    for i, nd in enumerate(lat.nodes):
        nd.time = ctx.real('t%d' % i, 0, 10)
    check_order(ctx, lat, edges, 0)


@scenario('L01', 'every acyclic graph on 5 nodes', tiers=('thorough',), reach=['sorted'])
def acyclic5(ctx):
    check_order(ctx, *_graph(ctx, 5, [], [0, 1, 2, 3, 4], None))


# --------------------------------------------------------------------------
# SLF
# --------------------------------------------------------------------------

def slf_score(ctx, v, base):
    if base is None:
        return v
    if base == 0:
        return ctx.log(v)
    return v * ctx.log(float(base))


@scenario('L02', 'SLF reading: 4 nodes, 4 links with symbolic scores and times, logarithm base absent/10/2/linear probabilities, words on '
          'links or nodes (null words included), short or long field names, explicit or implied initial node',
          reach=['linear', 'node words', 'null', 'implied'])
def slf_read(ctx):
    base = ctx.choice('base', [None, 10, 2, 0])
    where = ctx.choice('where', ['link', 'node'])
    long_ = ctx.choice('long', [True, False])
    explicit = ctx.choice('explicit', [True, False])
    ws = ctx.choice('words', [['a', 'b', "it's", '!NULL'], ['!NULL', 'b', 'x y', 'ä'], ['!ENTER', '!EXIT', 'a', 'b']])
    f = dict(time='time', W='WORD', S='START', E='END', a='acoustic', l='language', N='NODES', L='LINKS', U='UTTERANCE') if long_ \
        else dict(time='t', W='W', S='S', E='E', a='a', l='l', N='N', L='L', U='U')
    lo, hi = (0.001, 1) if base == 0 else (-50, 0)
    ac = [ctx.real('ac%d' % i, lo, hi) for i in range(4)]
    lm = [ctx.real('lm%d' % i, lo, hi) for i in range(4)]
    times = [ctx.real('t%d' % i, 0, 10) for i in range(4)]
    wip = ctx.real('wip', 0.01, 0.9) if base == 0 else ctx.real('wip', -5, 5)
    scale = ctx.real('scale', 0, 20)
    pairs = [(0, 1), (0, 2), (1, 3), (2, 3)]
    with env(ctx):
        t = ['# comment line', 'VERSION=1.0', '%s="utt 1"' % f['U']]
        head = ['lmscale=%s wdpenalty=%s' % (scale, wip)]
        if base is not None:
            # the fields of the header may come in any order
            head.insert(long_, 'base=%s' % base)
        t += head
        if explicit:
            t.append('start=0 end=3')
        t += ['%s=4' % f['N'], '%s=4' % f['L']] if long_ else ['%s=4 %s=4' % (f['N'], f['L'])]
        q = lambda w: '"%s"' % w if ' ' in w else w
        nodew = ['!NULL', ws[0], ws[1], ws[2]]
        t += ['', '  # J=9 S=0 E=3 a=1 l=1', '\t# I=7 W=zz']
        for i in range(4):
            t.append('I=%d\t%s=%s%s' % (i, f['time'], times[i], '\t%s=%s' % (f['W'], q(nodew[i])) if where == 'node' else ''))
        for k, (u, v) in enumerate(pairs):
            t.append('J=%d %s=%d %s=%d%s %s=%s %s=%s' % (
                k, f['S'], u, f['E'], v, ' %s=%s' % (f['W'], q(ws[k])) if where == 'link' else '',
                f['a'], ac[k], f['l'], lm[k]))
        lat = SLFLattice(io.StringIO('\n'.join(t) + '\n'))
        null = lambda w: None if w.startswith('!') else w
        ctx.check(lat.utterance_id == 'utt 1', 'utterance ID')
        ctx.check_eq(lat.lm_scale, scale, 'LM scale')
        ctx.check_eq(lat.wi_penalty, slf_score(ctx, wip, base), 'word insertion penalty in natural logarithm')
        ctx.check(len(lat.nodes) == 4 and len(lat.links) == 4, 'numbers of nodes and links')
        ctx.check(lat.initial_node is lat.nodes[0], 'initial node')
        ctx.check([nd.final for nd in lat.nodes] == [False, False, False, True], 'final node')
        for i, nd in enumerate(lat.nodes):
            ctx.check(nd.id == i, 'node ID')
            ctx.check_eq(nd.time, times[i], 'node time')
            ctx.check(sorted((l.start_node.id, l.end_node.id) for l in nd.out_links) == [p for p in pairs if p[0] == i], 'outgoing links')
            ctx.check(sorted((l.start_node.id, l.end_node.id) for l in nd.in_links) == [p for p in pairs if p[1] == i], 'incoming links')
        for k, (u, v) in enumerate(pairs):
            l = lat.links[k]
            ctx.check((l.start_node.id, l.end_node.id) == (u, v), 'end points of a link')
            ctx.check_eq(l.ac_logprob, slf_score(ctx, ac[k], base), 'acoustic score in natural logarithm')
            ctx.check_eq(l.lm_logprob, slf_score(ctx, lm[k], base), 'LM score in natural logarithm')
            ctx.check(l.word == null(ws[k] if where == 'link' else nodew[v]), 'word of a link', repr(l.word))
    if base == 0:
        ctx.reach('linear')
    if where == 'node':
        ctx.reach('node words')
    if any(l.word is None for l in lat.links):
        ctx.reach('null')
    if not explicit:
        ctx.reach('implied')


@scenario('L02', 'SLF structure: every acyclic graph on 4 nodes with one final node (any subset of links) followed by a fifth node, node '
          'numbering in two permutations, words in nodes or links, explicit or implied initial and final node, node lines before or after '
          'the link lines', reach=['join', 'node words', 'renumbered', 'explicit'])
def slf_structure(ctx):
    perm = ctx.choice('numbering', [[0, 1, 2, 3, 4], [3, 0, 4, 2, 1]])
    where = ctx.choice('where', ['node', 'link'])
    explicit = ctx.choice('explicit', [True, False])
    late = ctx.choice('nodes after links', [False, True])
    pairs = [(i, j) for i in range(4) for j in range(i + 1, 4) if j == i + 1 or bool(ctx.bool('e%d_%d' % (i, j)))] + [(3, 4)]
    words = ['!NULL', 'a', 'b', '!NULL', 'c']
    ac = [ctx.real('ac%d' % k, -50, 0) for k in range(len(pairs))]
    with env(ctx):
        t = ['UTTERANCE=u']
        if explicit:
            t.append('start=%d end=%d' % (perm[0], perm[4]))
        t.append('N=5 L=%d' % len(pairs))
        nl = ['I=%d%s' % (perm[i], ' W=%s' % words[i] if where == 'node' else '') for i in range(5)]
        ll = ['J=%d S=%d E=%d%s a=%s' % (k, perm[u], perm[v], ' W=w%d' % k if where == 'link' else '', ac[k])
              for k, (u, v) in enumerate(pairs)]
        lat = SLFLattice(io.StringIO('\n'.join(t + (ll + nl if late else nl + ll)) + '\n'))
        ctx.check([nd.id for nd in lat.nodes] == [0, 1, 2, 3, 4], 'node IDs')
        ctx.check(lat.initial_node is lat.nodes[perm[0]], 'initial node')
        ctx.check([nd.final for nd in lat.nodes] == [i == perm[4] for i in range(5)], 'final node')
        ctx.check(len(lat.links) == len(pairs), 'number of links')
        for k, (u, v) in enumerate(pairs):
            l = lat.links[k]
            w = 'w%d' % k if where == 'link' else {'!NULL': None}.get(words[v], words[v])
            ctx.check((l.start_node.id, l.end_node.id) == (perm[u], perm[v]), 'end points of a link')
            ctx.check(l.word == w, 'word of a link', '%r %r' % (l.word, w))
            ctx.check_eq(l.ac_logprob, ac[k], 'acoustic score')
            ctx.check(l in lat.nodes[perm[u]].out_links and l in lat.nodes[perm[v]].in_links, 'links are attached to their nodes')
        for nd in lat.nodes:
            ctx.check(len(nd.out_links) == sum(perm[u] == nd.id for u, v in pairs), 'outgoing links')
            ctx.check(len(nd.in_links) == sum(perm[v] == nd.id for u, v in pairs), 'incoming links')
    if len(pairs) > 4:
        ctx.reach('join')
    if where == 'node':
        ctx.reach('node words')
    if perm[0]:
        ctx.reach('renumbered')
    if explicit:
        ctx.reach('explicit')


WORDS = ['a', None, "it's", 'c#', '"q', 'x=y', 'b\\c', 'ä', 'a b', '-1']


def _links_equal(ctx, a, b, what):
    ctx.check(len(a.nodes) == len(b.nodes), what + ': number of nodes')
    ctx.check(len(a.links) == len(b.links), what + ': number of links')


@scenario('L02', 'SLF writing and reading back: 3 nodes and 3 links, words from a pool with quotes, comment characters, blanks and '
          'backslashes, symbolic or missing scores and times, LM scale and penalty present or not', reach=['odd word', 'missing'])
def slf_roundtrip(ctx):
    k = int(ctx.int('word', 0, len(WORDS) - 1))
    words = [WORDS[k], 'b', WORDS[(k + 3) % len(WORDS)]]
    missing = ctx.choice('missing', [False, True])
    hdr = ctx.choice('header', [True, False])
    pairs = [(0, 1), (0, 2), (1, 2)]
    edges = [(u, v, words[i], None if missing and i == 0 else ctx.real('ac%d' % i, -50, 0),
              None if missing and i != 1 else ctx.real('lm%d' % i, -50, 0)) for i, (u, v) in enumerate(pairs)]
    lat = D.build(edges, 3, [2], times=[ctx.real('t%d' % i, 0, 10) if not (missing and i == 1) else None for i in range(3)])
    lat.utterance_id = ctx.choice('utt', ['utt-1', 'utt "2" #x'])
    if hdr:
        lat.lm_scale = ctx.real('scale', 0, 20)
        lat.wi_penalty = ctx.real('wip', -5, 5)
    with env(ctx):
        out = io.StringIO()
        lat.write_slf(out)
        got = SLFLattice(io.StringIO(out.getvalue()))
        ctx.check(got.utterance_id == lat.utterance_id, 'utterance ID survives', repr(got.utterance_id))
        ctx.check((got.lm_scale is None) == (not hdr) and (got.wi_penalty is None) == (not hdr), 'header fields survive')
        if hdr:
            ctx.check_eq(got.lm_scale, lat.lm_scale, 'LM scale survives')
            ctx.check_eq(got.wi_penalty, lat.wi_penalty, 'penalty survives')
        ctx.check(got.initial_node.id == 0 and [nd.final for nd in got.nodes] == [False, False, True], 'initial and final node survive')
        ctx.check(len(got.nodes) == 3 and len(got.links) == 3, 'numbers of nodes and links survive')
        for a, b in zip(lat.nodes, got.nodes):
            ctx.check((a.time is None) == (b.time is None), 'node times survive')
            if a.time is not None:
                ctx.check_eq(b.time, a.time, 'node times survive')
        for a, b in zip(lat.links, got.links):
            ctx.check((b.start_node.id, b.end_node.id) == (a.start_node.id, a.end_node.id), 'end points survive')
            ctx.check(b.word == a.word, 'words survive', '%r %r' % (a.word, b.word))
            for n in ('ac_logprob', 'lm_logprob'):
                x, y = getattr(a, n), getattr(b, n)
                ctx.check((x is None) == (y is None), 'missing scores survive')
                if x is not None:
                    ctx.check_eq(y, x, 'scores survive')
    if missing:
        ctx.reach('missing')
    if words[0] in ('"q', 'c#'):
        ctx.reach('odd word')


# --------------------------------------------------------------------------
# Kaldi
# --------------------------------------------------------------------------

KWORDS = ['<eps>', '<s>', '</s>', 'a', 'b', 'c', '#0']


@scenario('L03', 'Kaldi reading: 3 states, 3 arcs and a final weight, symbolic costs written completely, partly or not at all, transition '
          'strings, epsilon arcs, arcs in two orders', reach=['partial', 'eps'])
def kaldi_read(ctx):
    forms = ['full', 'graph', 'none']
    form = [ctx.choice('form%d' % k, forms) for k in range(2)]
    w1 = ctx.choice('w1', [3, 0])
    rev = ctx.choice('order', [False, True])
    g = [ctx.real('g%d' % i, 0, 50) for i in range(4)]
    a = [ctx.real('a%d' % i, -50, 50) for i in range(4)]
    with env(ctx):
        def weight(i, fm):
            if fm == 'full':
                return '%s,%s,%d_2' % (g[i], a[i], i)
            if fm == 'graph':
                return '%s' % g[i]
            return ','
        fm = [form[0], 'full', 'full', form[1]]
        arcs = ['0 1 %d %s' % (w1, weight(0, fm[0])), '0 2 4 %s' % weight(1, fm[1]), '1 2 5 %s' % weight(2, fm[2])]
        if rev:
            arcs = [arcs[1], arcs[0], arcs[2]]
        fin = '2' if fm[3] == 'none' else '2 %s' % weight(3, fm[3])
        lat = KaldiLattice(['utt1'] + arcs + [fin], KWORDS)
        ctx.check(lat.utterance_id == 'utt1', 'utterance ID')
        ctx.check(len(lat.nodes) == 4, 'one node per state and a final node')
        ctx.check(lat.initial_node.id == 0, 'initial node')
        ctx.check([nd.final for nd in lat.nodes] == [False, False, False, True], 'final node')
        ctx.check([nd.id for nd in lat.nodes] == [0, 1, 2, 3], 'node IDs')
        want = {(0, 1): (0, None if w1 == 0 else 'a'), (0, 2): (1, 'b'), (1, 2): (2, 'c'), (2, 3): (3, None)}
        got = {(l.start_node.id, l.end_node.id): l for l in lat.links}
        ctx.check(sorted(got) == sorted(want) and len(lat.links) == 4, 'links')
        for key, (i, w) in want.items():
            l = got.get(key)
            if l is None:
                continue
            ctx.check(l.word == w, 'word of an arc')
            ctx.check_eq(l.lm_logprob, -g[i] if fm[i] != 'none' else 0, 'graph cost')
            ctx.check_eq(l.ac_logprob, -a[i] if fm[i] == 'full' else 0, 'acoustic cost')
            ctx.check(l.transitions == ('%d_2' % i if fm[i] == 'full' else ''), 'transition IDs')
            ctx.check(l in l.start_node.out_links and l in l.end_node.in_links, 'links are attached to their nodes')
    if 'graph' in form:
        ctx.reach('partial')
    if w1 == 0:
        ctx.reach('eps')


@scenario('L03', 'Kaldi structure: every acyclic graph on 4 states (any subset of arcs, at least one from the initial state) with any subset '
          'of final states, states numbered in three ways (the initial state is the first one listed), weights with one, two or three '
          'components', reach=['renumbered', 'several final', 'two components'])
def kaldi_structure(ctx):
    perm = ctx.choice('numbering', [[0, 1, 2, 3], [2, 0, 3, 1], [1, 3, 5, 4]])
    parts = ctx.choice('components', [3, 2, 1])
    pairs = [(0, 1)] + [(i, j) for i in range(4) for j in range(i + 1, 4) if (i, j) != (0, 1) and bool(ctx.bool('e%d_%d' % (i, j)))]
    final = [i for i in range(1, 4) if i == 3 or bool(ctx.bool('f%d' % i))]
    g = [ctx.real('g%d' % k, 0, 50) for k in range(len(pairs) + len(final))]
    a = [ctx.real('a%d' % k, -50, 50) for k in range(len(pairs) + len(final))]
    with env(ctx):
        def weight(k):
            return ','.join(['%s' % g[k], '%s' % a[k], '%d_2' % k][:parts])
        lines = ['%d %d %d %s' % (perm[u], perm[v], 3 + k % 3, weight(k)) for k, (u, v) in enumerate(pairs)]
        lines += ['%d %s' % (perm[i], weight(len(pairs) + k)) for k, i in enumerate(final)]
        lat = KaldiLattice(['u'] + lines, KWORDS)
        n = max(perm[i] for p in pairs + [(i, i) for i in final] for i in p) + 2
        ctx.check([nd.id for nd in lat.nodes] == list(range(n)), 'one node per state and a final node')
        ctx.check(lat.initial_node is lat.nodes[perm[0]], 'the initial node is the first state of the file')
        ctx.check([nd.final for nd in lat.nodes] == [False] * (n - 1) + [True], 'final node')
        want = [(perm[u], perm[v], KWORDS[3 + k % 3]) for k, (u, v) in enumerate(pairs)] + [(perm[i], n - 1, None) for i in final]
        ctx.check([(l.start_node.id, l.end_node.id, l.word) for l in lat.links] == want, 'links')
        for k, l in enumerate(lat.links[:len(want)]):
            ctx.check_eq(l.lm_logprob, -g[k], 'graph cost')
            ctx.check_eq(l.ac_logprob, -a[k] if parts > 1 else 0, 'acoustic cost')
            ctx.check(l.transitions == ('%d_2' % k if parts > 2 else ''), 'transition IDs')
            ctx.check(l in l.start_node.out_links and l in l.end_node.in_links, 'links are attached to their nodes')
    if perm[0]:
        ctx.reach('renumbered')
    if len(final) > 1:
        ctx.reach('several final')
    if parts == 2:
        ctx.reach('two components')


@scenario('L03', 'Kaldi files with sentence boundary or back-off symbols, a wrong number of fields, or no arcs are rejected', reach=['ok', 'bad'])
def kaldi_invalid(ctx):
    kind = ctx.choice('kind', ['ok', '<s>', '</s>', '#0', 'fields', 'empty'])
    with env(ctx):
        word = {'<s>': 1, '</s>': 2, '#0': 6}.get(kind, 3)
        arc = '0 1 %d 0.5,1.5,1' % word
        if kind == 'fields':
            arc = '0 1 3'
        lines = ['u', arc, '1 0,0,'] if kind != 'empty' else ['u']
        try:
            KaldiLattice(lines, KWORDS)
            bad = False
        except InputError:
            bad = True
        ctx.check(bad == (kind != 'ok'), 'invalid lattices and only they are rejected', kind)
        ctx.reach('bad' if bad else 'ok')


@scenario('L03', 'Kaldi vocabulary: 4 words of a pool with grammar tags, symbols and words that start with a digit or a hash sign, IDs '
          'symbolic in [0, 10^6] in any order, separated by blanks or tabs, with or without empty lines; lines of other than two fields are '
          'rejected', reach=['ok', 'bad'])
def kaldi_vocabulary(ctx):
    names = ['<eps>', ctx.choice('w1', ['#tag', '3', 'a#0']), '#0', ctx.choice('w4', ['word', '0', '\u00e4'])]
    ids = [ctx.int('id%d' % i, 0, 10 ** 6) for i in range(4)]
    sep = ctx.choice('sep', [' ', '\t', '  \t'])
    end = ctx.choice('end', ['\n', ' \n\n', '\r\n'])
    bad = ctx.choice('bad', [None, 'x', 'x 1 2'])
    with env(ctx):
        lines = [w + sep + str(i) + end for w, i in zip(names, ids)]
        if bad:
            lines.insert(2, bad + '\n')
        text = ''.join(lines)
        try:
            got = theanolm.scoring.kaldilattice.read_kaldi_vocabulary(io.StringIO(text, newline=None))
        except InputError:
            ctx.check(bad is not None, 'a correct vocabulary is read')
            ctx.reach('bad')
            return
        ctx.check(bad is None, 'a line that does not contain exactly a word and an ID is rejected')
        ctx.check(set(got) == set(names), 'every word is read, and nothing else', sorted(got))
        for w, i in zip(names, ids):
            if w in got:
                ctx.check_eq(got[w], i, 'a word has the ID that is given in the file')
    ctx.reach('ok')


@scenario('L03', 'Kaldi writing and reading back: 3 states with symbolic scores, epsilon arcs, transition strings and final weight', reach=['eps'])
def kaldi_roundtrip(ctx):
    ws = [ctx.choice('w%d' % i, ['a', None]) for i in range(2)] + ['b', None]
    pairs = [(0, 1), (0, 2), (1, 2), (2, 3)]
    edges = [(u, v, ws[i], ctx.real('ac%d' % i, -50, 50), ctx.real('lm%d' % i, -50, 50)) for i, (u, v) in enumerate(pairs)]
    lat = D.build(edges, 4, [3])
    lat.utterance_id = 'utt-1'
    for i, l in enumerate(lat.links):
        l.transitions = ['1_2', '', '3_4_5', '6'][i]
    with env(ctx):
        out = io.StringIO()
        lat.write_kaldi(out, {w: i for i, w in enumerate(KWORDS)})
        text = out.getvalue()
        ctx.check(text.endswith('\n\n'), 'an empty line ends the lattice')
        lines = text.rstrip('\n').split('\n')
        got = KaldiLattice(lines, KWORDS)
        ctx.check(got.utterance_id == 'utt-1', 'utterance ID survives')
        key = lambda l: (l.start_node.id, l.end_node.id)
        gl = {key(l): l for l in got.links}
        ctx.check(sorted(gl) == sorted(key(l) for l in lat.links) and len(got.links) == 4, 'links survive')
        for l in lat.links:
            m = gl.get(key(l))
            if m is None:
                continue
            ctx.check(m.word == l.word, 'words survive')
            ctx.check_eq(m.ac_logprob, l.ac_logprob, 'acoustic scores survive')
            ctx.check_eq(m.lm_logprob, l.lm_logprob, 'LM scores survive')
            ctx.check(m.transitions == l.transitions, 'transition IDs survive')
        if None in ws[:2]:
            ctx.reach('eps')


SLF_DEFECTS = [
    (None, None),
    ('no counts', lambda h, n, l: (['UTTERANCE=u'], n, l)),
    ('no links count', lambda h, n, l: (['UTTERANCE=u', 'N=3'], n, l)),
    ('a link is missing', lambda h, n, l: (h, n, l[:-1])),
    ('too many links', lambda h, n, l: (h, n, l + ['J=3 S=0 E=2 W=x a=-1 l=-1'])),
    ('header field', lambda h, n, l: (['UTTERANCE u'] + h, n, l)),
    ('link field', lambda h, n, l: (h, n, l[:-1] + [l[-1] + ' x'])),
    ('sub-lattice', lambda h, n, l: (['SUBLAT=s'] + h, n, l)),
    ('no start node', lambda h, n, l: (h, n, l[:-1] + [' '.join(f for f in l[-1].split() if not f.startswith('S='))])),
    ('no end node', lambda h, n, l: (h, n, l[:-1] + [' '.join(f for f in l[-1].split() if not f.startswith('E='))])),
    ('words in nodes and links', lambda h, n, l: (h, n[:-1] + [n[-1] + ' W=y'], l)),
    ('no initial node', lambda h, n, l: (h, n, [l[0].replace('S=0', 'S=1').replace('E=1', 'E=0'), l[1].replace('E=2', 'E=1')] + l[2:])),
]


@scenario('L02', 'SLF files of 3 nodes and 3 links with symbolic scores, fields named in the short or the long way, correct or with one of '
          '11 defects: a defective file is rejected with InputError', reach=['ok', 'bad'])
def slf_invalid(ctx):
    a = [ctx.real('a%d' % i, -50, 50) for i in range(3)]
    long_ = ctx.choice('long', [False, True])
    name, change = ctx.choice('defect', SLF_DEFECTS)
    with env(ctx):
        links = ['J=%d S=%d E=%d W=w%d a=%s l=-1' % (i, u, v, i, str(x)) for i, ((u, v), x) in enumerate(zip([(0, 1), (1, 2), (0, 2)], a))]
        parts = ['UTTERANCE=u', 'N=3 L=3'], ['I=%d t=%d' % (i, i) for i in range(3)], links
        if change:
            parts = change(*parts)
        text = '\n'.join(x for part in parts for x in part) + '\n'
        if long_:
            for x, y in (('N=', 'NODES='), ('L=', 'LINKS='), (' S=', ' START='), (' E=', ' END='), (' W=', ' WORD='), (' a=', ' acoustic='),
                         (' l=', ' language='), (' t=', ' time=')):
                text = ('\n' + text).replace('\n' + x, '\n' + y).replace(' ' + x.strip(), ' ' + y.strip())[1:]
        try:
            lat = SLFLattice(io.StringIO(text))
        except InputError:
            ctx.check(name is not None, 'a correct file is read')
            ctx.reach('bad')
            return
        ctx.check(name is None, 'a defective file is rejected', name)
        if name is None:
            got = {l.word: l for l in lat.links}
            ctx.check(sorted(got) == ['w0', 'w1', 'w2'], 'every link is read')
            for i, x in enumerate(a):
                ctx.check_eq(got['w%d' % i].ac_logprob, x, 'the acoustic score of a link')
                ctx.check_eq(got['w%d' % i].lm_logprob, -1.0, 'the LM score of a link')
        ctx.reach('ok')


# --------------------------------------------------------------------------
# batches of lattices
# --------------------------------------------------------------------------

@scenario('L04', '0-3 lattice paths on the command line and 0-3 in a list file with blank lines and surrounding blanks, 1-4 jobs',
          reach=['several jobs', 'empty job'])
def jobs(ctx):
    n1, n2 = int(ctx.int('n_args', 0, 3)), int(ctx.int('n_list', 0, 3))
    if n1 + n2 == 0:
        return
    nj = ctx.int('num_jobs', 1, 4)
    d = ctx.scratch()
    names = []
    for i in range(n1 + n2):
        p = os.path.join(d, 'lat%d' % i)
        with open(p, 'w') as f:
            f.write('UTTERANCE=u%d\nN=2 L=1\nI=0\nI=1\nJ=0 S=0 E=1 W=a a=-1 l=-1\n' % i)
        names.append(p)
    with env(ctx):
        seen = []
        for j in range(int(nj)):
            lst = io.StringIO('\n'.join(' %s ' % p for p in names[n1:]) + '\n\n \n') if n2 or bool(ctx.bool('list%d' % j)) else None
            batch = LatticeBatch(list(names[:n1]), lst, 'slf', num_jobs=nj, job_id=j)
            got = [l.utterance_id for l in batch]
            ctx.check(got == sorted(got), 'lattices of a job are in the given order')
            if not got:
                ctx.reach('empty job')
            seen += got
        ctx.check(sorted(seen) == ['u%d' % i for i in range(n1 + n2)], 'every lattice is processed by exactly one job', str(seen))
        sizes = n1 + n2
        if int(nj) > 1:
            ctx.reach('several jobs')


@scenario('L04', 'number of jobs and job index symbolic in [-2, 4]: invalid combinations are rejected', reach=['ok', 'rejected'])
def job_index(ctx):
    nj, j = ctx.int('num_jobs', -2, 4), ctx.int('job', -2, 4)
    with env(ctx):
        try:
            LatticeBatch(['x', 'y'], None, 'slf', num_jobs=nj, job_id=j)
            ctx.check(ctx.and_(nj >= 1, j >= 0, j < nj), 'an invalid job is rejected')
            ctx.reach('ok')
        except ValueError:
            ctx.check(ctx.not_(ctx.and_(nj >= 1, j >= 0, j < nj)), 'a valid job is accepted')
            ctx.reach('rejected')


@scenario('L04', 'Kaldi archives: up to 3 lattices in 1-2 files, separated by 1-2 empty lines, with or without a final empty line',
          reach=['several'])
def archive(ctx):
    n = [int(ctx.int('n%d' % k, 0, 2)) for k in range(2)]
    gap = ctx.choice('gap', ['\n', '\n\n', ' \n'])
    tail = ctx.choice('tail', [True, False])
    d = ctx.scratch()
    want = []
    for k in range(2):
        items = []
        for i in range(n[k]):
            u = 'u%d%d' % (k, i)
            want.append(u)
            items.append('%s\n0 1 3 0.5,1.5,1_2\n1 0.5,0.5,3\n' % u)
        text = gap.join(items)
        if tail and items:
            text += gap
        with open(os.path.join(d, 'l%d' % k), 'w') as f:
            f.write(text)
    voc = io.StringIO('<eps> 0\n<s> 1\n</s> 2\na 3\n')
    with env(ctx):
        batch = LatticeBatch([os.path.join(d, 'l%d' % k) for k in range(2)], None, 'kaldi', voc)
        lats = [l for l in batch]
        ctx.check([l.utterance_id for l in lats] == want, 'every lattice of an archive is returned once')
        for l in lats:
            ctx.check(len(l.links) == 2 and l.links[0].word == 'a', 'lattice contents')
    if len(want) > 1:
        ctx.reach('several')


# --------------------------------------------------------------------------
# rescored lattices
# --------------------------------------------------------------------------

def all_paths(lat):
    res = []

    def walk(node, words, ac, lm, tr):
        if node.final:
            res.append((words, ac, lm, tr))
        for l in node.out_links:
            walk(l.end_node, words + ((l.word,) if l.word is not None else ()),
                 ac + (l.ac_logprob if l.ac_logprob is not None else 0), lm + (l.lm_logprob if l.lm_logprob is not None else 0),
                 tr + ([l.transitions] if l.transitions else []))
    walk(lat.initial_node, (), 0, 0, [])
    return res


def check_rescored(ctx, lat, o, full, tr=True, drop=lambda p: False):
    with D.env(ctx):
        voc = D.vocabulary()
        net = D.Net(ctx, voc, full, 4)
        paths = D.oracle(ctx, net, lat, o)
        toks, recomb = LatticeDecoder(net, o).decode(lat)
        new = RescoredLattice(lat, toks, recomb, voc)
        got = all_paths(new)
        want = {p.words[1:-1]: p for p in paths}
        ctx.check(sorted(w for w, _, _, _ in got) == sorted(want), 'the rescored lattice has exactly the word sequences of the original',
                  '%s %s' % ([w for w, _, _, _ in got], sorted(want)))
        for w, ac, lm, trans in got:
            p = want.get(w)
            if p is None:
                continue
            ctx.check_eq(ac, p.ac, 'acoustic score of a path')
            ctx.check_eq(lm, p.lm + p.nn, 'the LM score of a path is the original score plus the network score')
            if tr:
                ctx.check('_'.join(trans) == '_'.join(l.transitions for l in p.links if l.transitions),
                          'transition IDs of a path', '_'.join(trans))
        ctx.check([n.id for n in new.nodes] == list(range(len(new.nodes))), 'nodes are numbered')
        ctx.check(new.initial_node is new.nodes[0], 'initial node')
        # and the result can be written
        with env(ctx):
            new.utterance_id = 'u'
            out = io.StringIO()
            new.write_slf(out)
            back = SLFLattice(io.StringIO(out.getvalue()))
            ctx.check(len(back.links) == len(new.links), 'the rescored lattice can be written and read')
            out = io.StringIO()
            new.write_kaldi(out, {w: i for i, w in enumerate(KWORDS + ['oov', 'x'])})
            lines = out.getvalue().split('\n')
            ctx.check(len([l for l in lines[1:] if l]) == len(new.links), 'every link is written')
        if recomb:
            ctx.reach('recombined')
        return got


def _with_transitions(lat):
    for i, l in enumerate(lat.links):
        l.transitions = '%d_%d' % (10 * i + 1, 10 * i + 2)
    return lat


@scenario('D04', 'determinised lattices (diamond, skip, chain, two branches, two null links from a node) with symbolic scores, transition IDs, unknown words, ending in '
          'a final weight (one or two null links with scores) or in a word, an optional null link in the middle; no recombination order',
          reach=['final weight', 'null'])
def rescored(ctx):
    shape = ctx.choice('shape', ['diamond', 'skip', 'chain', 'parallel', 'nulls', 'nulls2'])
    pairs, words, n = {
        # two null links leave node 1, one leads to the end and one to a word
        'nulls': ([(0, 1), (1, 2), (2, 3), (3, 5), (1, 4), (4, 5)], ['a', None, 'b', None, None, None], 6),
        'nulls2': ([(0, 1), (1, 4), (4, 5), (1, 2), (2, 3), (3, 5)], ['a', None, None, None, 'b', None], 6),
        'diamond': ([(0, 1), (0, 2), (1, 3), (2, 3)], ['a', 'b', 'c', 'a'], 4),
        'skip': ([(0, 1), (0, 2), (1, 2)], ['a', 'oov', 'b'], 3),
        'chain': ([(0, 1), (1, 2)], ['x', 'a'], 3),
        'parallel': ([(0, 1), (0, 1), (1, 2)], ['a', 'b', 'c'], 3),
    }[shape]
    null = fw = 0
    if 'nulls' not in shape:
        null = ctx.choice('null', [False, True])
        fw = ctx.choice('final weight', [0, 1, 2])
    pairs, words = list(pairs), list(words)
    if null:
        # the last node is reached through a null link followed by a word
        pairs += [(n - 1, n), (n, n + 1)]
        words += [None, 'c']
        n += 2
        ctx.reach('null')
    for _ in range(fw):
        pairs.append((n - 1, n))
        words.append(None)
        n += 1
        ctx.reach('final weight')
    lat = _with_transitions(D.build(D.symbolic_edges(ctx, pairs, words), n, [n - 1]))
    check_rescored(ctx, lat, dict(D.OPTS), True)


@scenario('D04', 'recombination order 1 or 2 with a network that depends on the previous word only: 4-node lattice whose paths join at the '
          'same word from different nodes, symbolic scores', reach=['recombined'])
def rescored_recombination(ctx):
    o = dict(D.OPTS)
    o['recombination_order'] = ctx.choice('order', [1, 2])
    shape = ctx.choice('shape', ['join', 'join then word', 'late join', 'chained', 'unknown word'])
    pairs, words, n = {
        'join': ([(0, 1), (0, 2), (1, 3), (2, 3)], ['a', 'b', 'c', 'c'], 4),
        'join then word': ([(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)], ['a', 'b', 'c', 'c', 'a'], 5),
        'unknown word': ([(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)], ['a', 'b', 'oov', 'oov', 'c'], 5),
        'late join': ([(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (3, 4)], ['a', 'b', 'a', 'b', 'c', 'b'], 5),
        'chained': ([(0, 1), (0, 1), (1, 2), (0, 3), (2, 4), (3, 4)], ['a', 'b', 'c', 'x', 'b', 'b'], 5),
    }[shape]
    lat = _with_transitions(D.build(D.symbolic_edges(ctx, pairs, words), n, [n - 1]))
    check_rescored(ctx, lat, o, False)

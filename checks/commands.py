"""Command line: theanolm decode, theanolm score."""
import argparse
import contextlib
import io
import logging
import os
import sys
from unittest import mock

import numpy as np

from symx.runner import scenario, assume_note
from symx.shim import patched, pkg, sym_float
from symx.ctx import Stub
from symx.core import is_sym

import theanolm.commands.decode as dcmd
from theanolm.scoring.kaldilattice import KaldiLattice
from theanolm.network import Network
from theanolm.scoring import LatticeDecoder
from theanolm.scoring.slflattice import SLFLattice
from checks import decoding as D

assume_note('D06', 'Network.from_file is replaced by a network whose log probabilities the solver chooses freely; everything else of the '
            'command runs, from argument parsing to the output file')


class Keep(io.StringIO):
    def close(self):
        pass


def num(ctx, text):
    """the number behind a piece of output"""
    return sym_float(text) if ctx.symbolic else float(text)


def run_decode(ctx, net, argv, lattices, out, vocabulary=None):
    """the real command on lattice files given as text"""
    d = ctx.scratch()
    paths = []
    for i, t in enumerate(lattices):
        p = os.path.join(d, 'l%d.slf' % i)
        with open(p, 'w') as f:
            f.write(t)
        paths.append(p)
    if vocabulary is not None:
        with open(os.path.join(d, 'words.txt'), 'w', encoding='utf-8') as f:
            f.write(vocabulary)
        argv = list(argv) + ['--kaldi-vocabulary', os.path.join(d, 'words.txt')]
    parser = argparse.ArgumentParser()
    with mock.patch.object(Network, 'from_file', lambda *a, **k: net), \
            mock.patch.object(logging, 'basicConfig', lambda *a, **k: None), \
            mock.patch('gc.collect', lambda *a: 0):
        dcmd.add_arguments(parser)
        name = os.path.join(d, 'out.txt')
        args = parser.parse_args(['model', '--output-file', name, '--lattices'] + paths + [str(a) for a in argv])
        try:
            dcmd.decode(args)
        finally:
            args.output_file.close()
    with open(name, encoding='utf-8') as f:
        out.write(f.read())


@contextlib.contextmanager
def env(ctx):
    with D.env(ctx):
        if ctx.symbolic:
            mods = pkg('theanolm.scoring')
            with patched(pkg('theanolm.commands', 'theanolm.scoring'),
                         extra={m.__name__: dict(logprob_type=sym_float) for m in mods if hasattr(m, 'logprob_type')}):
                yield
        else:
            lvl = logging.root.level
            yield
            logging.root.setLevel(lvl)


def slf(edges, n, header=()):
    t = list(header) + ['N=%d L=%d' % (n, len(edges))] + ['I=%d' % i for i in range(n)]
    for k, (u, v, w, ac, lm) in enumerate(edges):
        t.append('J=%d S=%d E=%d W=%s a=%s l=%s' % (k, u, v, w or '!NULL', ac, lm))
    return '\n'.join(t) + '\n'


DIAMOND = [(0, 1), (0, 2), (1, 3), (2, 3)]
DWORDS = ['a', 'oov', 'c', 'b']


@scenario('D06', 'theanolm decode on a lattice with 2 paths (one with an unknown word) and a 1-path lattice, all scores symbolic: output '
          'format ref/trn/full, n-best 1-3, utterance ID present or not, log base absent or 10', reach=['full', 'several'])
def nbest(ctx):
    fmt = ctx.choice('format', ['ref', 'trn', 'full'])
    n = ctx.choice('n', [1, 2, 3])
    utt = ctx.choice('utt', [True, False])
    base = ctx.choice('base', [None, 10]) if fmt == 'full' else None
    edges = D.symbolic_edges(ctx, DIAMOND, DWORDS)
    two = [(0, 1, 'c', ctx.real('ac_t', -50, 0), 0.0)]
    o = dict(D.OPTS)
    with env(ctx):
        voc = D.vocabulary()
        net = D.Net(ctx, voc, True, 4)
        lats = [slf(edges, 4, ['U=first'] if utt else []), slf(two, 2)]
        out = Keep()
        argv = ['--output', fmt, '--n-best', n]
        if base:
            argv += ['--log-base', base]
        run_decode(ctx, net, argv, lats, out)
        lines = out.getvalue().split('\n')
        ctx.check(lines[-1] == '', 'every line is terminated')
        lines = lines[:-1]
        ids = ['first' if utt else '0', '1']
        pos = 0
        for lat, uid in zip((D.build(edges, 4, [3]), D.build(two, 2, [1])), ids):
            paths = D.oracle(ctx, net, lat, o)
            count = min(n, len(paths))
            mine = lines[pos:pos + count]
            pos += count
            ctx.check(len(mine) == count, 'the number of results of an utterance')
            seen, prev = [], None
            for line in mine:
                f = line.split(' ')
                if fmt == 'trn':
                    ctx.check(f[-1] == '(%s)' % uid, 'utterance ID')
                    words = f[:-1]
                else:
                    ctx.check(f[0] == uid, 'utterance ID')
                    words = f[5:] if fmt == 'full' else f[1:]
                cand = [p for p in paths if list(p.words) == words]
                ctx.check(len(cand) == 1, 'a result is a path of the lattice', line)
                if len(cand) != 1:
                    return
                p = cand[0]
                seen.append(tuple(words))
                if fmt == 'full':
                    s = ctx.log(float(base)) if base else 1
                    ctx.check_eq(num(ctx, f[1]) * s, p.ac, 'acoustic score in the requested base')
                    ctx.check_eq(num(ctx, f[2]) * s, p.graph, 'language score in the requested base')
                    ctx.check_eq(num(ctx, f[3]) * s, p.total, 'total score in the requested base')
                    ctx.check(f[4] == str(len(words)), 'number of words')
                    ctx.reach('full')
                if prev is not None:
                    ctx.check_le(p.total, prev, 'results are printed best first')
                prev = p.total
            ctx.check(len(set(seen)) == len(seen), 'different results')
            for p in paths:
                if p.words not in seen and prev is not None:
                    ctx.check_le(p.total, prev, 'the best paths are printed')
            if count > 1:
                ctx.reach('several')
        ctx.check(pos == len(lines), 'nothing else is printed')


@scenario('D06', 'theanolm decode, score options: NNLM weight, LM scale, word insertion penalty (in the log base given), unknown-word '
          'penalty given or not, all symbolic; lattice with its own LM scale and penalty or not; shortlist / unk-from-lattice / linear '
          'interpolation switches', reach=['base', 'own', 'unk'])
def options(ctx):
    group = ctx.choice('group', ['scores', 'unknown', 'linear'])
    edges = [(0, 1, 'a' if group != 'unknown' else ctx.choice('w', ['oov', 'x']), ctx.real('ac0', -50, 0), ctx.real('lm0', -20, 0)),
             (1, 2, 'b', ctx.real('ac1', -50, 0), ctx.real('lm1', -20, 0))]
    o = dict(D.OPTS)
    argv, hdr = ['--output', 'full'], ['U=u']
    scale, wip, s = 1, 0, 1
    with env(ctx):
        w = ctx.real('weight', 0.125, 0.875)
        argv += ['--nnlm-weight', w]
        o['nnlm_weight'] = w
        if group != 'linear' and ctx.choice('base', [False, True]):
            argv += ['--log-base', 10]
            s = ctx.log(10.0)
            ctx.reach('base')
        if group == 'scores':
            if ctx.choice('own', [True, False]):
                scale, wip = ctx.real('lat_scale', 0, 20), ctx.real('lat_wip', -5, 5)
                hdr.append('lmscale=%s wdpenalty=%s' % (scale, wip))
                ctx.reach('own')
            if ctx.choice('scale given', [True, False]):
                scale = ctx.real('opt_scale', 0, 20)
                argv += ['--lm-scale', scale]
            if ctx.choice('penalty given', [True, False]):
                wip = ctx.real('opt_wip', -5, 5)
                argv += ['--wi-penalty', wip]
                wip = wip * s
        elif group == 'unknown':
            ctx.reach('unk')
            if ctx.choice('shortlist', [False, True]):
                argv += ['--shortlist']
                o['use_shortlist'] = True
            if ctx.choice('from lattice', [False, True]):
                argv += ['--unk-from-lattice']
                o['unk_from_lattice'] = True
            if ctx.choice('penalty', [False, True]):
                o['unk_penalty'] = ctx.real('unk_penalty', -20, 5)
                argv += ['--unk-penalty', o['unk_penalty']]
        else:
            argv += ['--linear-interpolation']
            o['linear_interpolation'] = True
        voc = D.vocabulary()
        net = D.Net(ctx, voc, True, 4, lo=-10)
        out = Keep()
        run_decode(ctx, net, argv, [slf(edges, 3, hdr)], out)
        p = D.oracle(ctx, net, D.build(edges, 3, [2]), o, wip, scale)[0]
        f = out.getvalue().strip('\n').split(' ')
        ctx.check(f[0] == 'u' and f[5:] == list(p.words), 'the words of the only path are printed', str(f))
        ctx.check_eq(num(ctx, f[1]) * s, p.ac, 'acoustic score')
        ctx.check_eq(num(ctx, f[2]) * s, p.graph, 'language score with the given options')
        ctx.check_eq(num(ctx, f[3]) * s, p.total, 'total score with the given options')


@scenario('D06', 'theanolm decode, pruning options: beam (symbolic), token limit, recombination order, relative pruning with its minima, '
          'each given or not: the results are those of the decoder with these options', reach=['relative', 'pruned'])
def pruning(ctx):
    kind = ctx.choice('kind', ['none', 'beam', 'limit', 'order', 'relative beam', 'relative limit', 'relative default'])
    pairs = [(0, 1), (0, 1), (1, 2), (1, 2)]
    words = ['a', 'c', 'a', 'b']
    edges = [(u, v, words[k], ctx.real('ac%d' % k, -500, 0), 0.0) for k, (u, v) in enumerate(pairs)]
    o = dict(D.OPTS)
    argv = ['--output', 'full', '--n-best', 100]
    with env(ctx):
        if kind == 'beam':
            o['beam'] = ctx.real('beam', 0, 200)
            argv += ['--beam', o['beam']]
        elif kind == 'limit':
            o['max_tokens_per_node'] = ctx.choice('limit', [1, 2])
            argv += ['--max-tokens-per-node', o['max_tokens_per_node']]
        elif kind == 'order':
            o['recombination_order'] = 1
            argv += ['--recombination-order', 1]
        elif kind.startswith('relative'):
            o['prune_extra_limit'] = 1
            argv += ['--prune-relative', 1]
            ctx.reach('relative')
            if kind == 'relative beam':
                o['beam'] = ctx.real('beam', 50, 200)
                o['abs_min_beam'] = ctx.real('min_beam', 0, 50)
                argv += ['--beam', o['beam'], '--abs-min-beam', o['abs_min_beam']]
            elif kind == 'relative limit':
                o['max_tokens_per_node'] = 4
                o['abs_min_max_tokens'] = ctx.choice('min tokens', [1, 2])
                argv += ['--max-tokens-per-node', 4, '--abs-min-max-tokens', o['abs_min_max_tokens']]
            else:
                o['beam'], o['abs_min_beam'], o['abs_min_max_tokens'] = 400.0, 150, 30
                o['max_tokens_per_node'] = 2
                argv += ['--beam', 400, '--max-tokens-per-node', 2]
        voc = D.vocabulary()
        net = D.Net(ctx, voc, False, 3, lo=-5)
        out = Keep()
        run_decode(ctx, net, argv, [slf(edges, 3, ['U=u'])], out)
        toks, _ = LatticeDecoder(net, o).decode(D.build(edges, 3, [2]))
        got = [l.split(' ') for l in out.getvalue().strip('\n').split('\n')]
        ctx.check([tuple(f[5:]) for f in got] == [D.token_words(voc, t) for t in toks],
                  'the results are those of the decoder with the given limits', '%s %s' % (got, [D.token_words(voc, t) for t in toks]))
        for f, t in zip(got, toks):
            ctx.check_eq(num(ctx, f[3]), t.total_logprob, 'scores')
        if len(toks) < 4:
            ctx.reach('pruned')


@scenario('D06', 'theanolm decode to a rescored lattice: LM scale and penalty options symbolic, log base absent or 10, SLF output read '
          'back', reach=['base'])
def rescored(ctx):
    edges = D.symbolic_edges(ctx, DIAMOND, ['a', 'c', 'c', 'b'])
    argv = ['--output', 'slf']
    s = 1
    with env(ctx):
        if ctx.choice('base', [False, True]):
            argv += ['--log-base', 10]
            s = ctx.log(10.0)
            ctx.reach('base')
        scale, wip = ctx.real('scale', 0, 20), ctx.real('wip', -5, 5)
        argv += ['--lm-scale', scale, '--wi-penalty', wip]
        voc = D.vocabulary()
        net = D.Net(ctx, voc, True, 4)
        out = Keep()
        run_decode(ctx, net, argv, [slf(edges, 4, ['U=utt'])], out)
        lat = SLFLattice(io.StringIO(out.getvalue()))
        ctx.check(lat.utterance_id == 'utt', 'utterance ID')
        ctx.check_eq(lat.lm_scale, scale, 'LM scale of the rescored lattice')
        ctx.check_eq(lat.wi_penalty, wip * s, 'word insertion penalty of the rescored lattice')
        paths = D.oracle(ctx, net, D.build(edges, 4, [3]), dict(D.OPTS), wip * s, scale)
        from checks.lattices import all_paths
        got = all_paths(lat)
        ctx.check(sorted(w for w, _, _, _ in got) == sorted(p.words[1:-1] for p in paths), 'paths of the rescored lattice')
        for w, ac, lm, _ in got:
            for p in paths:
                if p.words[1:-1] == w:
                    ctx.check_eq(ac, p.ac, 'acoustic scores')
                    ctx.check_eq(lm, p.lm + p.nn, 'LM scores')


KALDI = [('<eps>', 0), ('a', 3), ('oov', 7), ('b', 2), ('c', 4), ('x', 1), ('<s>', 5), ('</s>', 6)]


@scenario('D06', 'theanolm decode of an archive of 2 Kaldi lattices or of an SLF lattice to Kaldi lattices or an n-best list, all scores symbolic, '
          'vocabulary in any order, with or without unused word IDs in between; a Kaldi vocabulary is required', reach=['rescored', 'best', 'missing', 'gaps'])
def kaldi(ctx):
    source = ctx.choice('source', ['kaldi', 'slf'])
    target = ctx.choice('target', ['kaldi', 'full', 'none'])
    gap = ctx.choice('gap', [0, 10])
    if target != 'none' and source == 'slf' and target == 'full':
        return
    edges = D.symbolic_edges(ctx, DIAMOND, DWORDS)
    two = [(0, 1, 'c', ctx.real('ac_t', -50, 0), ctx.real('lm_t', -50, 0)), (1, 2, 'x', ctx.real('ac_u', -50, 0), 0.0)]
    with env(ctx):
        ids = {w: i + (gap if i > 3 else 0) for w, i in KALDI}
        voc = D.vocabulary()
        net = D.Net(ctx, voc, True, 4)
        out = Keep()
        if source == 'slf':
            lats, argv = [slf(edges, 4, ['U=u']), slf(two, 3, ['U=v'])], []
        else:
            text = ''
            for name, es, n in (('u', edges, 4), ('v', two, 3)):
                text += name + '\n' + ''.join('%d %d %d %s,%s,%d_1\n' % (u, v, ids[w], str(-lm), str(-ac), 10 + k)
                                              for k, (u, v, w, ac, lm) in enumerate(es)) + '%d 0,0,\n\n' % (n - 1)
            lats, argv = [text], ['--lattice-format', 'kaldi']
        argv += ['--output', target if target != 'none' else 'kaldi', '--n-best', 1]
        text = ''.join('%s %d\n' % (w, ids[w]) for w, _ in KALDI)
        if target == 'none':
            try:
                with contextlib.redirect_stderr(io.StringIO()):
                    run_decode(ctx, net, argv, lats, out)
                code = 0
            except (SystemExit, ValueError):
                code = 1
            ctx.check(code == 1 and out.getvalue() == '', 'Kaldi lattices cannot be used without a vocabulary')
            ctx.reach('missing')
            return
        run_decode(ctx, net, argv, lats, out, text)
        both = [('u', D.oracle(ctx, net, D.build(edges, 4, [3]), dict(D.OPTS))), ('v', D.oracle(ctx, net, D.build(two, 3, [2]), dict(D.OPTS)))]
        if target == 'full':
            lines = out.getvalue().strip('\n').split('\n')
            ctx.check(len(lines) == 2, 'one result for each lattice')
            for (name, paths), line in zip(both, lines):
                f = line.split(' ')
                cand = [p for p in paths if list(p.words) == f[5:]]
                ctx.check(f[0] == name and len(cand) == 1, 'a result is a path of the lattice', line)
                for p in cand:
                    ctx.check_eq(num(ctx, f[1]), p.ac, 'acoustic score')
                    ctx.check_eq(num(ctx, f[3]), p.total, 'total score')
                    for q in paths:
                        ctx.check_le(q.total, p.total, 'the best path is printed')
            ctx.reach('best')
            return
        from checks.lattices import all_paths
        words = [None] * (max(ids.values()) + 1)
        for w, i in ids.items():
            words[i] = w
        parts = out.getvalue().split('\n\n')
        ctx.check(len(parts) == 3 and parts[2] == '', 'one lattice for each lattice of the archive')
        for (name, paths), part in zip(both, parts):
            lat = KaldiLattice(part.split('\n'), words)
            ctx.check(lat.utterance_id == name, 'utterance ID')
            got = all_paths(lat)
            ctx.check(sorted(w for w, _, _, _ in got) == sorted(p.words[1:-1] for p in paths), 'paths of the rescored lattice')
            for w, ac, lm, _ in got:
                for p in paths:
                    if p.words[1:-1] == w:
                        ctx.check_eq(ac, p.ac, 'acoustic scores')
                        ctx.check_eq(lm, p.lm + p.nn, 'LM scores')
        ctx.reach('rescored')
        if gap:
            ctx.reach('gaps')

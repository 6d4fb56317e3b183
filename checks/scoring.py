"""Scoring text: log probabilities, perplexity, theanolm score, text sampling."""
import contextlib
import io
import math

import numpy as np
import theano
import theano.tensor as tensor

from symx.runner import scenario, assume_note
from symx.shim import patched, obj_array
from symx import tgraph
from symx.ctx import Stub
from symx.tgraph import theano_env

import theanolm.scoring.textscorer as tsmod
import theanolm.vocabulary.vocabulary as vmod
import theanolm.vocabulary.wordclass as wcmod
import theanolm.parsing.functions as fnmod
from theanolm.backend import NumberError
from theanolm.scoring import TextScorer
from theanolm.vocabulary import Vocabulary

assume_note('S01', 'the network is one whose probability is an arbitrary function of the input word, input class and target class')

SHORT = ['a', 'b', '<s>', '</s>', '<unk>']
OOS = ['x', 'y']


class Text(io.StringIO):
    name = 'text'


def vocabulary(zero=True):
    """a and b share a class (b with zero probability), x and y are out of the shortlist"""
    voc = Vocabulary.from_file(Text('a 0\nb 0\n'), 'classes', oos_words=OOS)
    voc.compute_probs({'a': 3, 'b': 0 if zero else 1, 'x': 3, 'y': 1, '<s>': 3, '</s>': 3}, update_class_probs=True)
    return voc


class TableNetwork(object):
    """P(target class | input) = A[input word, target class] * B[input class]"""

    def __init__(self, ctx, voc, unigram=True, tiny=None):
        self.vocabulary = voc
        nw, nc = voc.num_shortlist_words(), voc.num_classes()
        self.nc = nc
        self.input_word_ids = tensor.matrix('input_word_ids', dtype='int64')
        self.input_class_ids = tensor.matrix('input_class_ids', dtype='int64')
        self.target_class_ids = tensor.matrix('target_class_ids', dtype='int64')
        self.mask = tensor.matrix('mask', dtype='int8')
        self.is_training = tensor.scalar('is_training', dtype='int8')
        self.oos = voc.get_oos_probs()
        self.oos_logprobs = theano.shared(np.log(np.asarray(self.oos, dtype='float64')), 'oos') if unigram else None
        self.A = [ctx.real('A%d' % i, 0.01, 0.99) for i in range(nw * nc)]
        self.B = [ctx.real('B%d' % i, 0.01, 0.99) for i in range(nc)]
        if tiny is not None:
            self.B[int(voc.word_id_to_class_id[voc.word_to_id['<unk>']])] = tiny
        self._a, self._b = theano.shared(np.zeros(nw * nc), 'A'), theano.shared(np.zeros(nc), 'B')
        for var, val in ((self._a, self.A), (self._b, self.B)):
            v = np.array(val, dtype=object)
            var.set_value(v.view(tgraph.SArr) if ctx.symbolic else v.astype('float64'))

    def target_probs(self):
        p = self._a[(self.input_word_ids * self.nc + self.target_class_ids).flatten()]
        return (p * self._b[self.input_class_ids.flatten()]).reshape(self.target_class_ids.shape)

    def prob(self, prev, target):
        """oracle, from words"""
        voc = self.vocabulary
        p, t = [w if w in SHORT else '<unk>' for w in (prev, target)]
        cp, ct = [int(voc.word_id_to_class_id[voc.word_to_id[w]]) for w in (p, t)]
        return self.A[int(voc.word_to_id[p]) * self.nc + ct] * self.B[cp]


def expected(ctx, net, prev, word, shortlist, exclude, unigram=True):
    """(log probability, None when the word is excluded, -inf when it has zero membership probability)"""
    if shortlist and unigram:
        if word not in SHORT + OOS or word == '<unk>':
            return None
    elif exclude and (word not in SHORT or word == '<unk>'):
        return None
    lp = ctx.log(net.prob(prev, word))
    if word == 'b':
        return -math.inf
    if shortlist and unigram and word in OOS:
        lp = lp + math.log({'x': 0.75, 'y': 0.25}[word])
    return lp


@contextlib.contextmanager
def env(ctx, *mods):
    with theano_env(ctx):
        if ctx.symbolic:
            with patched([tsmod, vmod, wcmod, fnmod] + list(mods)):
                yield
        else:
            yield


def check_lp(ctx, got, want, label):
    if want is None:
        ctx.check(got is None, label + ': an excluded word has no probability')
    else:
        ctx.check(got is not None, label + ': a word that is not excluded has a probability')
        if got is None:
            return
        if want == -math.inf:
            ctx.check(got == -math.inf, label + ': a word that has zero membership probability has zero probability')
        else:
            ctx.check_eq(got, want, label, tol=1e-6)


MODES = [(True, False, True), (False, False, True), (False, True, True), (True, False, False), (True, True, False)]
WORDS = ['a', 'b', '</s>', '<unk>', 'x', 'y']


def batch(voc, seqs):
    T = max(len(s) for s in seqs)
    w = np.ones((T, len(seqs)), dtype='int64') * int(voc.word_to_id['<unk>'])
    m = np.zeros((T, len(seqs)), dtype='int8')
    for k, s in enumerate(seqs):
        w[:len(s), k] = [int(i) for i in voc.words_to_ids(s)]
        m[:len(s), k] = 1
    return w, m


@scenario('S01', 'mini-batch of a sequence of 3 words (any of 6: shortlist, zero probability, <unk>, out of shortlist) and one of 1-3 words, '
          'every policy for unknown words, all network probabilities', reach=['shortlist', 'plain', 'excluded'], validate=4)
def score_batch(ctx):
    shortlist, exclude, unigram = ctx.choice('mode', MODES)
    one = ['<s>', ctx.choice('w1', WORDS), ctx.choice('w2', WORDS)]
    two = ctx.choice('two', [['<s>'], ['a', 'x'], ['<s>', '<unk>', 'y']])
    with env(ctx):
        voc = vocabulary()
        net = TableNetwork(ctx, voc, unigram)
        scorer = TextScorer(net, use_shortlist=shortlist, exclude_unk=exclude)
        for seqs in ([one, two], [two, one]):
            w, m = batch(voc, seqs)
            cids, probs = voc.get_class_memberships(w)
            out = scorer.score_batch(w, cids, probs, m)
            ctx.check(len(out) == 2, 'one result for each sequence')
            for s, r in zip(seqs, out):
                ctx.check(len(r) == len(s) - 1, 'one log probability for each predicted word')
                for t in range(1, len(s)):
                    check_lp(ctx, r[t - 1], expected(ctx, net, s[t - 1], s[t], shortlist, exclude, unigram),
                             'the log probability of a word is that of its class, its membership and its share of <unk>')
    ctx.reach('excluded' if exclude else 'shortlist' if shortlist else 'plain')


@scenario('S01', 'perplexity of two mini-batches and log probability of a line: 2-3 words (any of 7, also out of vocabulary), every policy '
          'for unknown words, all network probabilities', reach=['perplexity', 'zero'], validate=4)
def totals(ctx):
    shortlist, exclude, unigram = ctx.choice('mode', MODES)
    words = WORDS[:2] + WORDS[3:] + ['zzz']
    one = ['<s>', ctx.choice('w1', words), ctx.choice('w2', words), '</s>']
    two = ctx.choice('two', [['<s>', '</s>'], ['<s>', 'a', 'b', 'x', '</s>']])
    with env(ctx):
        voc = vocabulary()
        net = TableNetwork(ctx, voc, unigram)
        scorer = TextScorer(net, use_shortlist=shortlist, exclude_unk=exclude)

        def total(seq):
            lps = [expected(ctx, net, a, b, shortlist, exclude, unigram) for a, b in zip(seq, seq[1:])]
            lps = [x for x in lps if x is not None and not (isinstance(x, float) and x == -math.inf)]
            return sum(lps), len(lps)
        (l1, n1), (l2, n2) = total(one), total(two)
        batches = []
        # a part of a sentence in which no word is scored
        for seqs in ([['<s>', '<unk>']], [one, two], [two])[0 if exclude or shortlist and unigram else 1:]:
            w, m = batch(voc, seqs)
            batches.append((w, np.zeros_like(w), m))
        ppl = scorer.compute_perplexity(iter(batches))
        ctx.check_eq(ctx.log(ppl) * (n1 + 2 * n2), -(l1 + 2 * l2), 'perplexity is the inverse geometric mean of the word probabilities',
                     tol=1e-6)
        lp = scorer.score_line(' '.join(one[1:-1]) + '\n', voc)
        ctx.check_eq(lp, l1, 'the score of a line is the sum of the log probabilities of its words', tol=1e-6)
        ctx.check(scorer.num_words == len(one), 'the number of words is counted')
        ctx.check(scorer.num_unks == sum(w in ('<unk>', 'zzz') for w in one), 'the number of unknown words is counted')
        ctx.check_eq(scorer.score_line('<s> ' + ' '.join(one[1:]), voc), lp, 'sentence boundaries are not added twice', tol=1e-6)
        ctx.check(scorer.score_line('\n', voc) is None and scorer.score_line('  ', voc) is None, 'an empty line has no score')
        ctx.check(scorer.num_words == 2 * len(one), 'the number of words is counted')
        ctx.reach('zero' if 'b' in one else 'perplexity')


@scenario('S01', 'perplexity of a text in which no word is scored (0-2 mini-batches), or in which the network gives a probability that is zero or not a '
          'number to a word, is an error; all other network probabilities', reach=['empty', 'broken', 'ok'], validate=4)
def no_perplexity(ctx):
    kind = ctx.choice('kind', ['nothing', 'excluded', 'nan', 'zero', 'ok'])
    num = ctx.choice('num', [1, 2])
    with env(ctx):
        voc = vocabulary()
        net = TableNetwork(ctx, voc)
        if kind in ('nan', 'zero'):
            bad = float('nan') if kind == 'nan' else 0.0
            k = int(voc.word_id_to_class_id[voc.word_to_id['</s>']])
            net.A[int(voc.word_to_id['a']) * net.nc + k] = bad
            v = np.array(net.A, dtype=object)
            net._a.set_value(v.view(tgraph.SArr) if ctx.symbolic else v.astype('float64'))
        scorer = TextScorer(net, use_shortlist=False, exclude_unk=True)
        seqs = {'nothing': [], 'excluded': [[['<s>', '<unk>', 'x']]] * num}.get(kind, [[['<s>', 'a', 'a']], [['<s>', 'a', '</s>']]][2 - num:])
        batches = []
        for s in seqs:
            w, m = batch(voc, s)
            batches.append((w, np.zeros_like(w), m))
        try:
            ppl = scorer.compute_perplexity(iter(batches))
            error = False
        except (ValueError, NumberError):
            error = True
        ctx.check(error == (kind != 'ok'), 'a perplexity that does not exist is an error, and no other', kind)
        ctx.reach({'nothing': 'empty', 'excluded': 'empty', 'ok': 'ok'}.get(kind, 'broken'))


# --- S02 theanolm score ---------------------------------------------------------

import argparse
import gzip
import logging
import os
from unittest import mock

import theanolm.commands.score as scmd
from symx.shim import pkg, sym_float
from theanolm.network import Network

assume_note('S02', 'Network.from_file is replaced by a network whose probability is an arbitrary function of the input word, input class and '
            'target class; everything else of the command runs, from argument parsing to the output file')


def run_score(ctx, make, argv, text, gz=''):
    d = ctx.scratch()
    name, out = os.path.join(d, 'text.txt' + gz), os.path.join(d, 'out.txt' + gz)
    opener = gzip.open if gz else open
    with opener(name, 'wt', encoding='utf-8') as f:
        f.write(text)
    parser = argparse.ArgumentParser()
    lvl = logging.root.level
    made = []

    def from_file(path, mode=None, exclude_unk=False, default_device=None):
        made.append((path, exclude_unk))
        return make()
    with mock.patch.object(Network, 'from_file', from_file), mock.patch.object(logging, 'basicConfig', lambda *a, **k: None):
        scmd.add_arguments(parser)
        args = parser.parse_args(['model', name, '--output-file', out] + [str(a) for a in argv])
        try:
            scmd.score(args)
        finally:
            args.output_file.close()
            args.input_file.close()
            logging.root.setLevel(lvl)
    ctx.check(made == [('model', '--exclude-unk' in argv)], 'the requested model is used')
    with opener(out, 'rt', encoding='utf-8') as f:
        return f.read().split('\n')


def num(ctx, text):
    return sym_float(text) if ctx.symbolic else float(text)


@contextlib.contextmanager
def cmd_env(ctx):
    with theano_env(ctx):
        if ctx.symbolic:
            with patched(pkg('theanolm.commands', 'theanolm.scoring', 'theanolm.vocabulary', 'theanolm.parsing')):
                yield
        else:
            yield


POLICY = [['--shortlist'], [], ['--exclude-unk']]


def finite(lps):
    return [x for x in lps if x is not None and not (isinstance(x, float) and x == -math.inf)]


def merged(lps):
    """log probability of a unit that consists of several tokens"""
    if any(x is None for x in lps):
        return None
    if any(isinstance(x, float) and x == -math.inf for x in lps):
        return -math.inf
    return sum(lps)


def info(w):
    return w + (':shortlist' if w in SHORT + ['<w>', 'a+', '+b', '+'] else ':OOS' if w in OOS else ':OOV')


def check_output(ctx, lines, sentences, words, base, num_tokens):
    """sentences: lists of (label of the predicted unit, its tokens, history label, log probability)"""
    pos = 0
    scale = ctx.log(float(base)) if base else 1.0
    if words:
        for k, sent in enumerate(sentences):
            ctx.check(lines[pos] == '# Sentence %d' % (k + 1), 'sentences are numbered')
            pos += 1
            for label, toks, hist, lp in sent:
                tail = '  [' + ' '.join(info(t) for t in toks) + ']'
                line = lines[pos]
                pos += 1
                if lp is None:
                    ctx.check(line == 'p(%s | %s) is not predicted%s' % (label, hist, tail), 'an excluded word is reported', line)
                else:
                    head = 'log(p(%s | %s)) = ' % (label, hist)
                    ok = line.startswith(head) and line.endswith(tail)
                    ctx.check(ok, 'the score of a word is reported with its history', line)
                    if not ok:
                        return
                    v = line[len(head):-len(tail)]
                    if isinstance(lp, float) and lp == -math.inf:
                        ctx.check(v == '-inf', 'a word that has zero probability')
                    else:
                        ctx.check_eq(num(ctx, v) * scale, lp, 'the score of a word in the requested base', tol=1e-6)
            f = finite([x[3] for x in sent])
            if f:
                ctx.check(lines[pos].startswith('Sentence perplexity: '), 'sentence perplexity is reported')
                ctx.check_eq(ctx.log(num(ctx, lines[pos].split(': ')[1])) * len(f), -sum(f), 'sentence perplexity', tol=1e-6)
                pos += 1
            ctx.check(lines[pos] == '', 'sentences are separated')
            pos += 1
    values = {}
    for line in lines[pos:]:
        if line:
            k, v = line.split(': ')
            values[k] = v
    lps = [x[3] for s in sentences for x in s]
    f = finite(lps)
    ctx.check(values.get('Number of sentences') == str(len(sentences)), 'number of sentences')
    ctx.check(values.get('Number of words') == str(len(lps) + len(sentences)), 'number of words')
    ctx.check(values.get('Number of tokens') == str(num_tokens), 'number of tokens')
    ctx.check(values.get('Number of predicted probabilities') == str(len(f)), 'number of predicted probabilities')
    ctx.check(values.get('Number of excluded (OOV) words') == str(sum(x is None for x in lps)), 'number of excluded words')
    ctx.check(values.get('Number of zero probabilities') == str(len(lps) - len(f) - sum(x is None for x in lps)),
              'number of zero probabilities')
    if not f:
        ctx.check('Perplexity' not in values, 'no perplexity without words')
        return
    total = -sum(f)
    ctx.check_eq(num(ctx, values['Cross entropy (base e)']) * len(f), total, 'cross entropy', tol=1e-6)
    if base:
        ctx.check_eq(num(ctx, values['Cross entropy (base %d)' % base]) * len(f) * scale, total, 'cross entropy in the requested base', tol=1e-6)
    ctx.check_eq(ctx.log(num(ctx, values['Perplexity'])) * len(f), total, 'perplexity', tol=1e-6)


@scenario('S02', 'theanolm score, perplexity or word scores, of a text of 1-3 lines with 2 arbitrary words (of 6: shortlist, zero probability, '
          '<unk>, out of shortlist, out of vocabulary), every policy for unknown words, log base absent or 10, all network probabilities',
          reach=['words', 'perplexity'], validate=4)
def score_text(ctx):
    policy = ctx.choice('policy', POLICY)
    words = ctx.choice('detail', [False, True])
    base = ctx.choice('base', [None, 10])
    w1, w2 = ctx.choice('w1', ['a', 'b', 'x', '<unk>', 'zzz']), ctx.choice('w2', ['a', 'zzz', 'y'])
    lines = [[w1, w2], [w1], ['<s>', 'a', 'a', 'x', w2, '</s>']]
    text = ctx.choice('text', ['%s\n\n%s\n' % (' '.join(lines[0]), ' '.join(lines[2])), ' '.join(lines[1])])
    sents = [lines[0], lines[2]] if '\n' in text else [lines[1]]
    sents = [s if s[0] == '<s>' else ['<s>'] + s + ['</s>'] for s in sents]
    with cmd_env(ctx):
        voc = vocabulary()
        net = TableNetwork(ctx, voc)
        argv = ['--output', 'word-scores' if words else 'perplexity'] + policy + (['--log-base', base] if base else [])
        out = run_score(ctx, lambda: net, argv, text)
        want, tokens = [], 0
        for s in sents:
            r = []
            tokens += len(s)
            for t in range(1, len(s)):
                hist = ' '.join((['...'] if t > 3 else []) + s[max(0, t - 3):t])
                r.append((s[t], [s[t]], hist, expected(ctx, net, s[t - 1], s[t], '--shortlist' in policy, '--exclude-unk' in policy)))
            want.append(r)
        check_output(ctx, out, want, words, base, tokens)
    ctx.reach('words' if words else 'perplexity')


@scenario('S02', 'theanolm score, perplexity or word scores, of 18 lines, one of them 120 words, with 3 pairs of words in the first and last '
          'line, plain or gzip-compressed files, every policy for unknown words, all network probabilities, some of them less than 1e-60', reach=['words', 'perplexity'],
          validate=2)
def score_long_text(ctx):
    policy, words = ctx.choice('policy', [(POLICY[0], True), (POLICY[1], False), (POLICY[2], True)])
    w1, w2 = ctx.choice('words', [('a', 'zzz'), ('b', 'a'), ('x', 'zzz')])
    sents = [['<s>', w1, 'a', 'x', '</s>']] + [['<s>', 'a', 'a', 'y', '</s>'][:2 + k % 3] + ['</s>'] for k in range(16)]
    sents = [s for s in sents if s[-2:] != ['</s>', '</s>']] + [['<s>'] + (['a', 'x', 'a'] * 40)[:118] + [w1, w2, '</s>']]
    while len(sents) < 18:
        sents.insert(3, ['<s>', 'a', '</s>'])
    with cmd_env(ctx):
        voc = vocabulary()
        net = TableNetwork(ctx, voc, tiny=1e-60)
        out = run_score(ctx, lambda: net, ['--output', 'word-scores' if words else 'perplexity'] + policy,
                        '\n'.join(' '.join(s[1:-1]) for s in sents) + '\n', gz='' if words else '.gz')
        want = [[(s[t], [s[t]], ' '.join((['...'] if t > 3 else []) + s[max(0, t - 3):t]),
                  expected(ctx, net, s[t - 1], s[t], '--shortlist' in policy, '--exclude-unk' in policy)) for t in range(1, len(s))]
                for s in sents]
        check_output(ctx, out, want, words, None, sum(len(s) for s in sents))
    ctx.reach('words' if words else 'perplexity')


@scenario('S02', 'theanolm score of utterances: 4 lines, one empty and one an empty sentence, with 2 arbitrary words, every policy for unknown words, log base absent or '
          '10, all network probabilities', reach=['base', 'natural'], validate=4)
def score_utterances(ctx):
    policy = ctx.choice('policy', POLICY)
    base = ctx.choice('base', [None, 10])
    w1, w2 = ctx.choice('w1', ['a', 'b', 'x', '<unk>', 'zzz']), ctx.choice('w2', ['a', 'zzz', 'y'])
    sents = [['<s>', w1, w2, '</s>'], ['<s>', w2, '</s>'], ['<s>', '</s>']]
    with cmd_env(ctx):
        voc = vocabulary()
        net = TableNetwork(ctx, voc)
        argv = ['--output', 'utterance-scores'] + policy + (['--log-base', base] if base else [])
        out = run_score(ctx, lambda: net, argv, '%s %s\n\n<s> %s </s>\n<s> </s>\n' % (w1, w2, w2))
        ctx.check(len(out) == 4 and out[3] == '', 'one score for each utterance')
        scale = ctx.log(float(base)) if base else 1.0
        for s, line in zip(sents, out):
            f = finite([expected(ctx, net, a, b, '--shortlist' in policy, '--exclude-unk' in policy) for a, b in zip(s, s[1:])])
            ctx.check_eq(num(ctx, line) * scale, sum(f), 'the score of an utterance in the requested base', tol=1e-6)
    ctx.reach('base' if base else 'natural')


def sub_vocabulary(marking):
    words = {'word-boundary': 'a\nb\n<w>\n', 'prefix-affix': 'a+\n+b\na\nb\n'}[marking]
    voc = Vocabulary.from_file(Text(words), 'words', oos_words=[])
    voc.compute_probs({w: 1 for w in words.split() + ['<s>', '</s>']})
    return voc


def merge_oracle(toks, lps, marking):
    """list of (tokens, log probability)"""
    units = []
    if marking == 'word-boundary':
        cur, lp = [], []
        for w, l in zip(toks[1:], lps):
            lp.append(l)
            if w == '<w>':
                if cur:
                    units.append((cur, lp))
                cur, lp = [], []
            else:
                cur.append(w)
        if cur:
            units.append((cur, lp))
        return [(['<unk>'] if '<unk>' in c else c, merged(p)) for c, p in units]
    for w, l in zip(toks[1:], lps):
        if units and units[-1][0][-1].endswith('+') and w.startswith('+'):
            units[-1][0].append(w)
            units[-1][1].append(l)
        else:
            units.append(([w], [l]))
    return [(c, merged(p)) for c, p in units]


def subwords(marking):
    def fn(ctx):
        alphabet = ['a', '<w>', 'b', '<unk>'] if marking == 'word-boundary' else ['a+', '+b', 'a', '<unk>']
        n = ctx.choice('n', [3, 2, 1])
        toks = ['<s>'] + [ctx.choice('t%d' % i, alphabet) for i in range(n)] + ['</s>']
        exclude = ctx.choice('exclude', [False, True])
        with cmd_env(ctx):
            voc = sub_vocabulary(marking)
            net = TableNetwork(ctx, voc)
            out = run_score(ctx, lambda: net, ['--output', 'word-scores', '--subwords', marking] + (['--exclude-unk'] if exclude else []),
                            ' '.join(toks[1:-1]) + '\n')

            def lp(a, b):
                if exclude and b == '<unk>':
                    return None
                return ctx.log(net.A[int(voc.word_to_id[a]) * net.nc + int(voc.word_id_to_class_id[voc.word_to_id[b]])]
                               * net.B[int(voc.word_id_to_class_id[voc.word_to_id[a]])])
            units = [(['<s>'], None)] + merge_oracle(toks, [lp(a, b) for a, b in zip(toks, toks[1:])], marking)
            labels = [' '.join(u) for u, _ in units]
            want = []
            for k in range(1, len(units)):
                hist = ' '.join((['...'] if k > 3 else []) + labels[max(0, k - 3):k])
                want.append((labels[k], units[k][0], hist, units[k][1]))
            check_output(ctx, out, [want], True, None, len(toks))
        ctx.reach('done')
    return fn


for _m in ('word-boundary', 'prefix-affix'):
    scenario('S02', 'theanolm score with %s subwords: 1-3 arbitrary subwords of 4, <unk> predicted or excluded, all network probabilities' % _m,
             name='subwords_' + _m, reach=['done'], validate=4)(subwords(_m))


# --- S03 sampling ---------------------------------------------------------------

from checks import network as N
from theanolm import TextSampler

assume_note('S03', N.NOTE)
assume_note('S03', 'numpy.random.multinomial and choice, and the multinomial op of Theano, choose by inverting the cumulative distribution')


@contextlib.contextmanager
def word_draws(ctx):
    """numpy.random.multinomial(1, probs): the first index whose cumulative probability exceeds the random number"""
    seen = []

    def index(probs):
        probs = [p for p in probs]
        if len(probs) == 1:
            return 0
        u = ctx.real('v%d' % len(seen), 0, 0.9999999)
        cum = 0.0
        for i, p in enumerate(probs):
            cum = cum + p
            if i == len(probs) - 1 or u < cum:
                break
        seen.append((u, i))
        return i

    def multinomial(n, pvals, size=None):
        r = np.zeros(len(pvals), dtype='int64')
        for _ in range(int(n)):
            r[index(pvals)] += 1
        return r

    def choice(a, size=None, replace=True, p=None):
        a = list(range(a)) if isinstance(a, int) else list(a)
        p = [1.0 / len(a)] * len(a) if p is None else p
        if size is None:
            return a[index(p)]
        return np.array([a[index(p)] for _ in range(int(np.prod(size)))]).reshape(size)
    with mock.patch.object(np.random, 'multinomial', multinomial), mock.patch.object(np.random, 'choice', choice):
        yield seen


def check_interval(ctx, u, probs, k, label, slack=0):
    """the random number selects the element k of the distribution"""
    low = N.total(list(probs[:k])) if k else 0.0
    ctx.check(low - slack <= u, label)
    if k < len(probs) - 1:
        ctx.check(u < low + probs[k] + slack, label)


@scenario('S03', 'sampling 2 or 110 tokens after 2 or 3 seed words from a GRU network with given parameter values, all outcomes of the '
          'random number generator in the last step', reach=['done'], validate=2)
def sample_long(ctx):
    length, seed = ctx.choice('seed', [(2, ['b', 'a']), (2, ['c', 'b', 'c']), (110, ['a', 'b'])])
    num = 1
    with N.env(ctx), (patched([vmod, wcmod]) if ctx.symbolic else contextlib.nullcontext()):
        one, net = N.network('gru', minibatch=False), N.network('gru')
        for path in sorted(net.get_variables()):
            v = net.get_variables()[path].get_value()
            for n in (one, net):
                n.get_variables()[path].set_value(((np.arange(v.size) * 7 % 11 - 5) * 0.2).reshape(v.shape))
        if ctx.symbolic:
            ctx.eng.floats = True
        draws, generator = [], tgraph.RANDOM[0]
        last = length + len(seed) - 2

        def draw(shape):
            if len(draws) >= last:
                r = generator(shape)
            else:
                r = ((np.arange(int(np.prod(shape))) * 5 + 3 * len(draws)) % 16 / 16.0 + 0.01).reshape(shape)
            draws.append(np.asarray(r))
            return r
        tgraph.RANDOM[0] = draw
        try:
            sampler = TextSampler(one) if ctx.symbolic else N.cached(ctx, one, 'sampling', lambda: TextSampler(one))
            out = sampler.generate(length, num, seed_sequence=' '.join(seed))
        finally:
            tgraph.RANDOM[0] = generator
        voc = net.vocabulary
        ctx.check(len(out) == num and all(len(s) == length + len(seed) for s in out), 'number and length of the sequences')
        ctx.check(all(s[:1 + len(seed)] == ['<s>'] + seed for s in out), 'a sequence begins with <s> and the seed')
        w = np.array([[int(voc.word_to_id[x]) for x in s] for s in out], dtype='int64').T
        c = np.array([[int(voc.word_id_to_class_id[i]) for i in r] for r in w], dtype='int64')
        p = N.probs_fn(ctx, net)(w[:-1], c[:-1], np.ones_like(w[:-1], dtype='int8'))
        ctx.check(len(draws) == len(w) - 1, 'one class is drawn for each word')
        for t in range(len(seed), min(len(draws), len(w) - 1)):
            for s in range(num):
                check_interval(ctx, draws[t].ravel()[s], list(p[t, s]), int(c[t + 1, s]),
                               'a class is drawn from the distribution given all the preceding words', 1e-9)
    ctx.reach('done')


_oos_nets = {}


def sampling(arch, length, num, seed):
    def fn(ctx):
        tokens = list(seed)
        known = [x if x in ('a', 'b', 'c') else '<unk>' for x in tokens]
        if known != tokens and arch not in _oos_nets:
            # there are words outside the shortlist
            _oos_nets[arch] = [N.network(arch, minibatch=m, voc=N.full_vocabulary(), fresh=True) for m in (False, True)]
        with N.env(ctx) as draws, word_draws(ctx) as words, (patched([vmod, wcmod]) if ctx.symbolic else contextlib.nullcontext()):
            key = 'sampling'
            if known == tokens:
                one, net = N.network(arch, minibatch=False), N.network(arch)
            else:
                one, net = _oos_nets[arch]
            voc = net.vocabulary
            N.set_params(ctx, [net, one], bound=2)
            sampler = TextSampler(one) if ctx.symbolic else N.cached(ctx, one, key, lambda: TextSampler(one))
            out = sampler.generate(length, num, seed_sequence=' '.join(tokens))
            ctx.check(len(out) == num, 'number of generated sequences')
            for s in out:
                ctx.check(len(s) == length + len(tokens), 'length of a generated sequence')
                ctx.check(s[:1 + len(tokens)] in (['<s>'] + tokens, ['<s>'] + known), 'a sequence begins with <s> and the seed')
                s[1:1 + len(tokens)] = known
            w = np.array([[int(voc.word_to_id[x]) for x in s] for s in out], dtype='int64').T
            c = np.array([[int(voc.word_id_to_class_id[i]) for i in r] for r in w], dtype='int64')
            # the mini-batch evaluation of the generated text gives the distributions
            p = N.probs_fn(ctx, net)(w[:-1], c[:-1], np.ones_like(w[:-1], dtype='int8')) if len(w) > 1 else None
            steps = draws[len(tokens):]
            ctx.check(len(steps) == length - 1, 'one class is drawn for each generated word')
            k = 0
            for t in range(length - 1):
                for s in range(num):
                    at = t + len(tokens)
                    cls = int(c[at + 1, s])
                    check_interval(ctx, steps[t].ravel()[s], list(p[at, s]), cls,
                                   'a class is drawn from the distribution given all the preceding words')
                    members = [x for x in ('a', 'b', 'c') if int(voc.word_id_to_class_id[voc.word_to_id[x]]) == cls]
                    if len(members) > 1:
                        ctx.check(k < len(words), 'a word is drawn from its class')
                        if k < len(words):
                            check_interval(ctx, words[k][0], [voc.get_word_prob(voc.word_to_id[x]) for x in members],
                                           members.index(out[s][at + 1]), 'a word is drawn by its membership probability')
                        k += 1
            ctx.reach('done')
    return fn


for _a, _l, _n, _s in (('fc', 3, 1, ()), ('gru', 3, 1, ()), ('lstm', 2, 2, ()), ('gru', 2, 1, ('b',)), ('fc', 2, 1, ('a',)),
                       ('class', 3, 1, ()), ('class', 2, 1, ('c',)), ('fc', 2, 1, ('zz',)), ('class', 2, 1, ('x',))):
    scenario('S03', 'sampling %d sequences of %d tokens%s, architecture %s: all outcomes of the random number generator, all parameter values in '
             '[-2, 2]' % (_n, _l, ' after the seed "%s"' % ' '.join(_s) if _s else '', _a), name='sample_%s_%d_%d%s' % (_a, _l, _n, '_seed' + '_'.join(('',) + _s) if _s else ''),
             reach=['done'], validate=2)(sampling(_a, _l, _n, _s))

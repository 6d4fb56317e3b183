"""Word classes: bigram statistics, likelihood, exchange algorithm, wctool."""
import io
from unittest import mock

import numpy as np
import theano

from symx.runner import scenario, assume_note
from symx import core
from symx.shim import patched, pkg, NumpyShim, SArr
from symx.sparse import SSparse
from symx.ctx import Stub
from symx.tgraph import theano_env

from theanolm.vocabulary import Vocabulary, BigramStatistics
import wordclasses
import wordclasses.wctool
from wordclasses import NumpyBigramOptimizer, TheanoBigramOptimizer

for _p in ('W01', 'W02'):
    assume_note(_p, 'the training text consists of given sentences, each repeated a symbolic number of times; scipy.sparse is replaced by a '
                'matrix of symbolic values with concrete nonzero positions (one path for each set of sentences), replays use scipy; log is '
                'uninterpreted; counts and log likelihoods are exact (no int32 overflow, no rounding)')

VOC = 'a 1\nb 1\nc 2\nd 2\ne 3\n'
SENTENCES = ["a b", "c a a", "b c d", "d e"]


class MaShim(object):
    def log(self, x):
        x = np.asarray(x)
        if x.dtype != object:
            x = x.astype(object)
        mask = np.zeros(x.shape, dtype=bool)
        data = np.zeros(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            if bool(x[i] <= 0):
                mask[i] = True
            else:
                data[i] = core.fn_log(x[i])
        return np.ma.array(data, mask=mask)

    def __getattr__(self, name):
        return getattr(np.ma, name)


def log_scalars(x):
    if isinstance(x, np.ndarray):
        return NumpyShim.log(None, x)
    if not core.is_sym(x) and x == 0:
        return -np.inf
    return core.fn_log(x)


class Reference(object):
    """word statistics and the definition of the likelihood"""

    def __init__(self, ctx, voc, sentences, times):
        self.ctx, self.voc, self.memo = ctx, voc, {}
        n = voc.num_words()
        self.uni = [0] * n
        self.bi = {}
        for s, m in zip(sentences, times):
            ids = [int(voc.word_to_id[w]) for w in ['<s>'] + s.split() + ['</s>']]
            for i in ids:
                self.uni[i] = self.uni[i] + m
            for k in zip(ids, ids[1:]):
                self.bi[k] = self.bi.get(k, 0) + m
        self.assigned = [int(c) for c in voc.word_id_to_class_id]

    def xlogx(self, c):
        if not core.is_sym(c) and c == 0:
            return 0.0
        if not self.ctx.symbolic:
            return c * self.ctx.log(c)
        t = core.canon(core.int_term(c))
        if t.get_id() not in self.memo:
            self.memo[t.get_id()] = (t, c * self.ctx.log(c))
        return self.memo[t.get_id()][1]

    def likelihood(self, moves=()):
        a = list(self.assigned)
        for w, c in moves:
            a[w] = c
        cc, cl = {}, {}
        for (i, j), v in self.bi.items():
            cc[a[i], a[j]] = cc.get((a[i], a[j]), 0) + v
        for w, v in enumerate(self.uni):
            cl[a[w]] = cl.get(a[w], 0) + v
        r = 0.0
        for v in cc.values():
            r = r + self.xlogx(v)
        for v in self.uni:
            r = r + self.xlogx(v)
        for v in cl.values():
            r = r - 2 * self.xlogx(v)
        return r

    def prob(self, w):
        total = 0
        for i, v in enumerate(self.uni):
            if self.assigned[i] == self.assigned[w]:
                total = total + v
        if not core.is_sym(total) and total == 0:
            return 0.0
        return self.uni[w] / total

    def statistics(self, sentences, times):
        if not self.ctx.symbolic:
            text = ''.join((s + '\n') * int(m) for s, m in zip(sentences, times))
            return BigramStatistics([io.StringIO(text)], self.voc)
        n = self.voc.num_words()
        uni = np.empty(n, dtype=object)
        uni[:] = self.uni
        st = Stub()
        st.unigram_counts, st.bigram_counts = uni.view(SArr), SSparse((n, n), self.bi, 'dok')
        return st


class Environment(object):
    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        if self.ctx.symbolic:
            self.t = theano_env(self.ctx)
            self.t.__enter__()
            self.p = patched(pkg('wordclasses'), NumpyShim(overrides={'ma': MaShim()}))
            shim = self.p.__enter__()
            shim.log = log_scalars
        return self

    def __exit__(self, *e):
        if self.ctx.symbolic:
            self.p.__exit__(*e)
            self.t.__exit__(*e)


def create(ctx, cls, sentences=SENTENCES, text=VOC, at_least=1):
    """an optimizer and its reference; the given sentences occur or do not occur"""
    times = []
    for k in range(len(sentences)):
        times.append(ctx.int('m%d' % k, 1, 9) if ctx.choice('s%d' % k, [True, False]) else 0)
    if len([m for m in times if core.is_sym(m) or m != 0]) < at_least:
        return None, None, None
    voc = Vocabulary.from_file(io.StringIO(text), 'classes')
    ref = Reference(ctx, voc, sentences, times)
    opt = {'numpy': NumpyBigramOptimizer, 'theano': TheanoBigramOptimizer}[cls](ref.statistics(sentences, times), voc)
    return voc, ref, opt


def num(x):
    """a scalar of a result"""
    x = np.asarray(x, dtype=object)
    return x.ravel()[0] if x.size == 1 else x


def state(ctx, voc, ref, opt, label):
    ctx.check_eq(num(opt.log_likelihood()), ref.likelihood(), 'log likelihood ' + label, tol=1e-7)
    got = {w: (c, p) for w, c, p in opt.words()}
    ctx.check(set(got) == set(voc.word_to_id), 'all the words are listed')
    for w, (c, p) in got.items():
        i = voc.word_to_id[w]
        ctx.check(int(num(c)) == ref.assigned[i], 'class of a word ' + label)
        ctx.check_eq(num(p), ref.prob(i), 'class membership probability ' + label, tol=1e-7)


def changes(ctx, voc, ref, opt, words, label):
    for w in words:
        i = int(voc.word_to_id[w])
        for c in range(voc.num_normal_classes):
            if c != ref.assigned[i]:
                ctx.check_eq(num(opt._evaluate(i, c)), ref.likelihood([(i, c)]) - ref.likelihood(),
                             'change of the log likelihood ' + label, tol=1e-6)


MOVES = [(('a', 1), ('c', 0)), (('c', 2), ('a', 2)), (('b', 2), ('b', 0))]


def moves(cls, order):
    def fn(ctx):
        with Environment(ctx):
            voc, ref, opt = create(ctx, cls)
            if opt is None:
                return
            state(ctx, voc, ref, opt, 'initially')
            changes(ctx, voc, ref, opt, 'abcd', 'initially')
            for w, c in order:
                i = int(voc.word_to_id[w])
                if not core.is_sym(ref.uni[i]) and ref.uni[i] == 0:
                    continue        # words that do not occur are never moved
                opt._move(i, c)
                ref.assigned[i] = c
                ctx.reach('moved')
            state(ctx, voc, ref, opt, 'after moves')
            changes(ctx, voc, ref, opt, 'abde', 'after moves')
    return fn


for _c in ('numpy', 'theano'):
    for _n, _m in enumerate(MOVES):
        scenario('W01', '%s optimizer, 5 words in 3 classes, any nonempty subset of %d sentences, each repeated 1-9 times, moves %r, every move '
                 'of 4 words evaluated before and after' % (_c, len(SENTENCES), _m), name='moves_%s_%d' % (_c, _n), reach=['moved'], validate=3)(
            moves(_c, _m))


# --------------------------------------------------------------------------
# W02: exchange algorithm
# --------------------------------------------------------------------------

def exchange(cls, sentences, n, text=VOC, first=('a', 'c', 'e', '</s>', '<unk>'), at_least=1):
    def fn(ctx):
        with Environment(ctx):
            voc, ref, opt = create(ctx, cls, sentences, text, at_least)
            if opt is None:
                return
            for k in range(n):
                word = ctx.choice('word%d' % k, list(first) if k == 0 else ['b'])
                i = int(voc.word_to_id[word])
                old = ref.assigned[i]
                before = ref.likelihood()
                others = [c for c in range(voc.num_normal_classes) if c != old]
                diffs = {c: ref.likelihood([(i, c)]) - before for c in others}
                moved = opt.move_to_best_class(word)
                new = int(num(opt.get_word_class(i)))
                ctx.check(bool(moved) == (new != old), 'the result tells if the word was moved')
                if word.startswith('<') or ref.assigned.count(old) < 2:
                    ctx.check(not moved, 'special tokens and the only word of a class are not moved')
                    ctx.reach('fixed')
                elif moved:
                    if not ctx.check(new in others, 'a word is moved to another normal class'):
                        return
                    ctx.check(ctx.not_(diffs[new] <= 0) if core.is_sym(diffs[new]) else diffs[new] > -1e-9, 'a move increases the likelihood')
                    for c in others:
                        ctx.check_le(diffs[c], diffs[new], 'a word is moved to the best class', tol=1e-9)
                    ref.assigned[i] = new
                    ctx.reach('moved')
                else:
                    for c in others:
                        ctx.check_le(diffs[c], 0.0, 'a word is not moved only if no move increases the likelihood', tol=1e-9)
                    ctx.reach('kept')
                for j, c in enumerate(ref.assigned):
                    ctx.check(int(num(opt.get_word_class(j))) == c, 'other words are not moved')
            ctx.check_eq(num(opt.log_likelihood()), ref.likelihood(), 'log likelihood', tol=1e-7)
    return fn


for _c in ('numpy', 'theano'):
    scenario('W02', '%s optimizer, 5 words in 3 classes, any nonempty subset of 3 sentences, each repeated 1-9 times, 2 words offered for moving' % _c,
             name='exchange_' + _c, reach=['moved', 'kept', 'fixed'], validate=3)(exchange(_c, ['a b', 'c a a', 'b c d'], 2))
    scenario('W02', '%s optimizer, 4 words in 2 classes without unused words, 2-3 sentences, each repeated 1-9 times, 1 word offered for moving' % _c,
             name='exchange_used_' + _c, reach=['moved', 'fixed'], validate=3)(
        exchange(_c, ['a b c d', 'c a', 'd d'], 1, 'a 0\nb 0\nc 1\nd 1\n', ('a', 'b', 'd', '<unk>', '<s>'), 2))


# --------------------------------------------------------------------------
# W03: wctool
# --------------------------------------------------------------------------

assume_note('W03', 'the decision whether a word is moved (and to which class) is symbolic; everything else of the optimizer, the files and the '
            'options is real')


def run_wctool(ctx, method, argv, decide):
    """runs the command; decide(optimizer, word) stands for the decision about a word"""
    cls = {'bigram-numpy': NumpyBigramOptimizer, 'bigram-theano': TheanoBigramOptimizer}[method]
    with mock.patch.object(cls, 'move_to_best_class', decide), mock.patch('sys.argv', ['wctool'] + argv), \
            mock.patch('sys.stdout', io.StringIO()), mock.patch('logging.basicConfig', lambda *a, **k: None):
        wordclasses.main()


def tool(method):
    def fn(ctx):
        import gc
        import os
        d = ctx.scratch()
        fmt = ctx.choice('format', ['classes', 'srilm-classes', None])
        freq = ctx.choice('frequency', [1, 2, 5, 9] if method == 'bigram-numpy' else [1, 3])
        given = ctx.choice('vocabulary', [False, True])
        texts = ['a b\nb c d\n', 'c c q\n' if given else 'c c a\n']
        paths = []
        for k, t in enumerate(texts):
            paths.append(os.path.join(d, 'text%d' % k))
            with open(paths[-1], 'w') as f:
                f.write(t)
        out = os.path.join(d, 'out')
        argv = ['--training-set'] + paths + ['--output-file', out, '--output-frequency', str(freq), '--method', method]
        if fmt is not None:
            argv += ['--output-format', fmt]
        if given:
            with open(os.path.join(d, 'voc'), 'w') as f:
                f.write('a 1\nb 1\nc 2\nd 2\n')
            argv += ['--vocabulary', os.path.join(d, 'voc'), '--vocabulary-format', 'classes']
        else:
            argv += ['--num-classes', '2']
        words = ['a', 'b', 'c', 'd', '<s>', '</s>', '<unk>']
        seen, current, iterations, saves = [], {}, [], [0]
        limit = 3

        def decide(self, word):
            if len(seen) % len(words) == 0:
                iterations.append(0)
            seen.append(word)
            for w, c, p in old_words(self):
                current[w] = int(num(c))
            if word not in ('a', 'c') or len(iterations) > limit:
                return False
            if bool(ctx.bool('move%d_%s' % (len(iterations), word))):
                i = self.get_word_id(word)
                # the last word of a class is never moved
                if list(current.values()).count(current[word]) < 2:
                    return False
                self._move(i, 1 - current[word])
                current[word] = 1 - current[word]
                iterations[-1] += 1
                return True
            return False

        def counted(self):
            saves[0] += 1
            return old_words(self)

        from wordclasses.bigramoptimizer import BigramOptimizer
        old_words = BigramOptimizer.words
        with mock.patch.object(BigramOptimizer, 'words', counted):
            run_wctool(ctx, method, argv, decide)
        gc.collect()        # closes the output file
        n = len(words)
        ctx.check(all(sorted(seen[k:k + n]) == sorted(words) for k in range(0, len(seen), n)), 'every word is offered once on an iteration')
        ctx.check(all(m > 0 for m in iterations[:-1]) and iterations[-1] == 0, 'iterations go on as long as words are moved')
        ctx.check(saves[0] == len(iterations) * min(freq, n) + 1, 'classes are saved as often as requested', '%r %r %r' % (saves, iterations, freq))
        counts = {}
        for t in texts:
            for l in t.splitlines():
                for w in ['<s>'] + l.split() + ['</s>']:
                    w = w if w in words else '<unk>'
                    counts[w] = counts.get(w, 0) + 1
        got = {}
        with open(out) as f:
            lines = f.read().splitlines()
        ctx.check(len(lines) == n, 'one line for each word', repr(lines))
        for l in lines:
            t = l.split()
            if not ctx.check(len(t) == (2 if fmt == 'classes' else 3), 'fields of a line', l):
                return
            if fmt == 'classes':
                got[t[0]] = int(t[1])
            else:
                got[t[2]] = int(t[0].split('-')[1])
                total = sum(counts.get(w, 0) for w in words if current[w] == current[t[2]])
                ctx.check(abs(float(t[1]) - (counts.get(t[2], 0) / total if total else 0.0)) < 1e-9, 'class membership probability', l)
        ctx.check(got == current, 'the classes that were found are written', '%r %r' % (got, current))
        if len(iterations) > 2:
            ctx.reach('several')
        ctx.reach('done')
    return fn


for _c in ('bigram-numpy', 'bigram-theano'):
    scenario('W03', 'method %s, 2 training files, vocabulary given or formed from the text, both output formats, saved 1-9 times on an iteration, '
             'two words moved or not on each of at most 3 iterations' % _c, name='tool_' + _c[7:], reach=['done', 'several'], validate=3)(tool(_c))


@scenario('W03', 'iterations of 1-12 words, 1-14 events on an iteration, any word of the first 3 iterations', reach=['done'])
def scheduled(ctx):
    from wordclasses.functions import is_scheduled
    n = ctx.choice('n', list(range(1, 13)))
    f = ctx.choice('f', list(range(1, 15)))
    first = ctx.int('first', 0, 2) * n
    times = [is_scheduled(first + k, f, n) for k in range(1, n + 1)]
    total = 0
    for k, t in enumerate(times):
        total = total + (t._num() if isinstance(t, core.SBool) else int(t))
        # evenly spaced
        ctx.check(ctx.and_(total * n >= (k + 1) * min(f, n) - n + 1, total * n <= (k + 1) * min(f, n)), 'events are evenly spaced')
    ctx.check_eq(total, min(f, n), 'as many events on an iteration as requested')
    ctx.reach('done')

"""Mini-batch iterators and text parsing."""
import contextlib
import gzip
import io
import mmap
import os

import numpy as np

from symx.runner import scenario, assume_note
from symx.shim import patched, NumpyShim, SArr
from symx.fakeh5 import new_state
from symx import core
from symx.core import is_sym

import theanolm.parsing.batchiterator as bimod
import theanolm.parsing.linearbatchiterator as limod
import theanolm.parsing.scoringbatchiterator as scmod
import theanolm.parsing.shufflingbatchiterator as shmod
import theanolm.parsing.functions as fnmod
import theanolm.vocabulary.vocabulary as vmod
from theanolm.backend import TextFileType
from theanolm.vocabulary import Vocabulary
from theanolm.parsing import (LinearBatchIterator, ScoringBatchIterator, ShufflingBatchIterator,
                              utterance_from_line)

MODS = [bimod, limod, scmod, shmod, fnmod]


def sym(ctx, mods=MODS, **k):
    return patched(mods, **k) if ctx.symbolic else contextlib.nullcontext()


def utter(toks):
    if not toks:
        return []
    r = list(toks)
    if r[0] != '<s>':
        r = ['<s>'] + r
    if r[-1] != '</s>':
        r = r + ['</s>']
    return r


def chunks(u, maxlen):
    if maxlen is None:
        return [u]
    return [u[i:i + maxlen] for i in range(0, len(u), maxlen)]


def sequences(lines, maxlen):
    """lines: list of (tokens, file id)"""
    res = []
    for toks, fid in lines:
        for c in chunks(utter(toks), maxlen):
            if len(c) >= 2:
                res.append((c, fid))
    return res


def make_vocabulary(ctx, words, unknown=()):
    """Real vocabulary whose ID assignment is symbolic: w -> any ID in [0, 40);
    the IDs below the (symbolic) shortlist size are shortlist words."""
    known = [w for w in words if w not in unknown and w not in ('<s>', '</s>', '<unk>')]
    voc = Vocabulary.from_file(io.StringIO(''.join(w + '\n' for w in sorted(set(known)))), 'words')
    for i, w in enumerate(sorted(voc.word_to_id)):
        voc.word_to_id[w] = ctx.int('id%d' % i, 0, 39)
    return voc


def expected_id(ctx, voc, w, map_oos, nshort):
    unk = voc.word_to_id['<unk>']
    if w not in voc.word_to_id:
        return unk
    i = voc.word_to_id[w]
    if not map_oos:
        return i
    return ctx.ite(i < nshort, i, unk)


def check_batches(ctx, voc, batches, seqs, batch_size, map_oos, what, scoring=False):
    nshort = voc.num_shortlist_words()
    want = [seqs[i:i + batch_size] for i in range(0, len(seqs), batch_size)]
    ctx.check(len(batches) == len(want), what + ': number of mini-batches', '%d != %d' % (len(batches), len(want)))
    for batch, ss in zip(batches, want):
        if scoring:
            word_ids, words, mask = batch
            file_ids = None
        else:
            word_ids, file_ids, mask = batch
        length = max(len(s) for s, _ in ss)
        ok = word_ids.shape == (length, len(ss)) and mask.shape == (length, len(ss)) and \
            (scoring or file_ids.shape == (length, len(ss)))
        if not ctx.check(ok, what + ': mini-batch shape', '%s %s' % (word_ids.shape, (length, len(ss)))):
            continue
        if scoring:
            ctx.check([list(w) for w in words] == [list(s) for s, _ in ss], what + ': words')
        for j, (s, fid) in enumerate(ss):
            for t in range(length):
                if t < len(s):
                    ctx.check_eq(mask[t, j], 1, what + ': mask is one inside the sequence')
                    ctx.check_eq(word_ids[t, j], expected_id(ctx, voc, s[t], map_oos, nshort), what + ': word ID')
                    if not scoring:
                        ctx.check_eq(file_ids[t, j], fid, what + ': file ID')
                else:
                    ctx.check_eq(mask[t, j], 0, what + ': mask is zero past the sequence end')


def epoch(it):
    """one pass over the iterator (list(it) would call len() first)"""
    return [b for b in it]


def _linear(ctx, scoring, lines, split, bs, maxlen, map_oos, binary):
    allw = [w for l in lines for w in l]
    unknown = allw[1:2]
    voc = make_vocabulary(ctx, allw, unknown)
    text1 = ''.join(' '.join(l) + '\n' for l in lines[:split])
    text2 = '\n'.join(' '.join(l) for l in lines[split:])      # no newline at the end

    def mk(t):
        return io.BytesIO(t.encode()) if binary else io.StringIO(t)
    cls = ScoringBatchIterator if scoring else LinearBatchIterator
    tagged = [(l, 0 if i < split else 1) for i, l in enumerate(lines)]
    with sym(ctx):
        it = cls([mk(text1), mk(text2)], voc, batch_size=bs, max_sequence_length=maxlen, map_oos_to_unk=map_oos)
        first = epoch(it)
        second = epoch(it)
        n = len(it)
        third = epoch(it)
        seqs = sequences(tagged, maxlen)
        b = int(bs)
        check_batches(ctx, voc, first, seqs, b, map_oos, 'first epoch', scoring)
        check_batches(ctx, voc, second, seqs, b, map_oos, 'second epoch', scoring)
        check_batches(ctx, voc, third, seqs, b, map_oos, 'epoch after len()', scoring)
        ctx.check(n == -(-len(seqs) // b), 'len() is the number of mini-batches')
        for _ in range(1):
            try:
                next(it)
            except StopIteration:
                pass
        ctx.check(len(it) == n, 'len() does not depend on how much has been read')
        check_batches(ctx, voc, epoch(it), seqs, b, map_oos, 'epoch after len()', scoring)
        if len(seqs) > b:
            ctx.reach('several batches')
        if any(len(l) == 0 for l in lines):
            ctx.reach('empty line')
        if any(len(u) > len(v) for u, _ in seqs for v, _ in seqs):
            ctx.reach('padding')


def _variants():
    for scoring in (False, True):
        nm = 'scoring' if scoring else 'linear'

        def structure(ctx, scoring=scoring):
            big = ctx.tier == 'thorough'
            lens = [4, 3, 2] if big else [4, 2]
            lines = [['w%d_%d' % (l, k) for k in range(int(ctx.int('len%d' % l, 0, hi)))] for l, hi in enumerate(lens)]
            bs = ctx.int('batch_size', 1, 3)
            maxlen = ctx.choice('maxlen', [None, 1, 2, 3, 4])
            _linear(ctx, scoring, lines, 1, bs, maxlen, False, False)

        def files(ctx, scoring=scoring):
            lines = [['u', 'v'], [], ['x']]
            tag = ctx.choice('tags', ['none', 'both', 'start', 'end'])
            if tag in ('both', 'start'):
                lines[0] = ['<s>'] + lines[0]
            if tag in ('both', 'end'):
                lines[0] = lines[0] + ['</s>']
            split = int(ctx.int('split', 0, 3))
            binary = ctx.choice('binary', [False, True])
            bs = ctx.int('batch_size', 1, 3)
            maxlen = ctx.choice('maxlen', [None, 2, 3])
            _linear(ctx, scoring, lines, split, bs, maxlen, False, binary)

        def mapping(ctx, scoring=scoring):
            lines = [['u%d' % k for k in range(int(ctx.int('len0', 0, 3)))], ['x']]
            _linear(ctx, scoring, lines, 1, 2, None, True, False)

        scenario('B01', '2 lines of 0-4 and 0-2 opaque words in 2 files (thorough: 3 lines of 0-4, 0-3, 0-2), batch size symbolic '
                 '1..3, maximum sequence length none/1/2/3/4, symbolic word IDs, one word not in the vocabulary; four epochs and '
                 'len()', name=nm + '_structure', reach=['empty line', 'several batches', 'padding'])(structure)
        scenario('B01', '3 lines (one empty, one with optional sentence tags) over 2 files with every split, text or bytes, batch '
                 'size 1..3, maximum length none/2/3', name=nm + '_files', reach=['empty line', 'several batches'])(files)
        scenario('B01', 'mapping to <unk>: 2 lines, symbolic IDs on either side of the shortlist boundary for every word',
                 name=nm + '_mapping', reach=['padding'])(mapping)


_variants()


@scenario('B01', 'utterances: up to 3 tokens over {w, <s>, </s>}, surrounding blanks, tabs, str and bytes', reach=['tagged', 'blank'])
def utterance(ctx):
    n = int(ctx.int('n', 0, 3))
    toks = [ctx.choice('t%d' % i, ['w', '<s>', '</s>']) for i in range(n)]
    pre = ctx.choice('pre', ['', ' ', '\t'])
    sep = ctx.choice('sep', [' ', ' \t'])
    post = ctx.choice('post', ['', '\n', ' \r\n'])
    as_bytes = ctx.choice('bytes', [False, True])
    line = pre + sep.join(toks) + post
    got = utterance_from_line(line.encode() if as_bytes else line)
    ctx.check(list(got) == utter(toks), 'utterance of a line', repr((line, got)))
    if n and toks[0] == '<s>':
        ctx.reach('tagged')
    if n == 0 and pre:
        ctx.reach('blank')


# --------------------------------------------------------------------------
# shuffling
# --------------------------------------------------------------------------

class RandomModel(object):
    """numpy.random stand-in: choice() and shuffle() return any outcome their
    documentation allows; outcomes are solver inputs."""

    def __init__(self, ctx, mode='choice', budget=1, name='r'):
        self.ctx, self.mode, self.k, self.budget, self.nm = ctx, mode, 0, budget, name

    def _pick(self, lo, hi):
        if self.budget <= 0:
            return lo
        self.k += 1
        return int(self.ctx.int('%s%d' % (self.nm, self.k), lo, hi))

    def choice(self, a, size=None, replace=True, p=None):
        a = list(range(int(a))) if np.ndim(a) == 0 else list(np.asarray(a).tolist())
        n = 1 if size is None else int(size)
        out = []
        rest = list(a)
        sel = self.mode == 'choice'
        if not replace and n > len(rest):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        for i in range(n):
            if replace:
                out.append(a[self._pick(0, len(a) - 1) if sel else i % len(a)])
            else:
                j = self._pick(0, len(rest) - 1) if sel else 0
                out.append(rest.pop(j))
        if sel:
            self.budget -= 1
        return np.array(out, dtype='int64') if size is not None else out[0]

    def shuffle(self, x):
        if self.mode == 'shuffle' and self.budget > 0:
            y = list(np.asarray(x).tolist())
            out = []
            while y:
                out.append(y.pop(self._pick(0, len(y) - 1)))
            x[:] = out
            self.budget -= 1

    def permutation(self, x):
        a = np.arange(int(x)) if np.ndim(x) == 0 else np.array(x)
        self.shuffle(a)
        return a

    def hooks(self):
        return dict(choice=self.choice, shuffle=self.shuffle, permutation=self.permutation)


@contextlib.contextmanager
def random_env(ctx, rm):
    """random outcomes come from the model in both modes (environment stub)"""
    if ctx.symbolic:
        with patched(MODS, np_shim=NumpyShim(random_hooks=rm.hooks())):
            yield
    else:
        saved = {k: getattr(np.random, k) for k in rm.hooks()}
        for k, v in rm.hooks().items():
            setattr(np.random, k, v)
        try:
            yield
        finally:
            for k, v in saved.items():
                setattr(np.random, k, v)


def write_files(ctx, texts, kind='binary'):
    d = ctx.scratch()
    fs = []
    for i, t in enumerate(texts):
        p = os.path.join(d, 'f%d' % i)
        if kind == 'gz':
            p += '.gz'
            with gzip.open(p, 'wt') as f:
                f.write(t)
        else:
            with open(p, 'w') as f:
                f.write(t)
        fs.append(open(p, 'rb') if kind == 'binary' else TextFileType('r')(p))
        if kind != 'binary' and ctx.choice('used%d' % i, [False, True]):
            # read when the vocabulary was formed
            fs[-1].readline()
    return fs


@scenario('B02', 'files as theanolm train opens them, gzip compressed or not and possibly read before: 2 files of 2 lines, any order',
          reach=['gz', 'plain'])
def shuffle_opened(ctx):
    kind = ctx.choice('kind', ['gz', 'plain'])
    lines0, lines1 = [['a0', 'a1'], ['b0']], [['c0'], ['ö0', 'd1']]
    fs = write_files(ctx, ['\n'.join(' '.join(l) for l in x) for x in (lines0, lines1)], kind)
    words = [w for l in lines0 + lines1 for w in l]
    voc = Vocabulary.from_file(io.StringIO('\n'.join(words)), 'words')
    with random_env(ctx, RandomModel(ctx)):
        it = ShufflingBatchIterator(fs, [], voc, batch_size=2)
        want = sorted((tuple(s), (f,) * len(s)) for s, f in sequences([(l, 0) for l in lines0] + [(l, 1) for l in lines1], None))
        for _ in range(2):
            got = decode_batches(voc, epoch(it))
            ctx.check(sorted(got) == want, 'every sentence is returned exactly once per epoch', '%s %s' % (got, want))
    for f in fs:
        f.close()
    ctx.reach(kind)


@scenario('B01', 'many files: two sentences, in two of 300 files read in linear order or 140 files read in random order', reach=['linear', 'random'])
def many_files(ctx):
    order = ctx.choice('order', ['linear', 'random'])
    at = [ctx.choice('file0', [0, 1, 127]), ctx.choice('file1', [128, 255, 256, 299] if order == 'linear' else [128, 139])]
    texts = ['\n'] * (300 if order == 'linear' else 140)
    texts[at[0]], texts[at[1]] = 'a b\n', 'c\n'
    voc = Vocabulary.from_file(io.StringIO('a\nb\nc\n'), 'words')
    want = [(('<s>', 'a', 'b', '</s>'), (at[0],) * 4), (('<s>', 'c', '</s>'), (at[1],) * 3)]
    with random_env(ctx, RandomModel(ctx, budget=0)):
        if order == 'linear':
            fs = [io.StringIO(t) for t in texts]
            it = LinearBatchIterator(fs, voc, batch_size=2)
        else:
            fs = write_files(ctx, texts)
            it = ShufflingBatchIterator(fs, [], voc, batch_size=2)
        got = decode_batches(voc, epoch(it))
        ctx.check(sorted(got) == sorted(want), 'file IDs of the words', '%s %s' % (got, want))
    for f in fs:
        f.close()
    ctx.reach(order)


def decode_batches(voc, batches):
    """list of (word tuple, file id) sequences found in the batches"""
    inv = {int(v): k for k, v in voc.word_to_id.items()}
    res = []
    for w, f, m in batches:
        for j in range(w.shape[1]):
            n = int(sum(int(m[t, j]) for t in range(w.shape[0])))
            res.append((tuple(inv[int(w[t, j])] for t in range(n)), tuple(int(f[t, j]) for t in range(n))))
    return res


def _shuffle(ctx, mode):
    l0 = int(ctx.int('len0', 0, 2))
    lines0 = [['a%d' % k for k in range(l0)], ['b0', 'b1', 'b2']]
    lines1 = [['c0'], ['d0', 'd1']]
    newline = ctx.choice('newline', ['\n', '', 'short'])
    if newline == 'short':
        # the last line is a single character without a line feed
        newline, lines1 = '', [['c0'], ['d']]
    f0, f1 = write_files(ctx, ['\n'.join(' '.join(l) for l in lines0) + newline,
                               '\n'.join(' '.join(l) for l in lines1) + newline])
    maxlen = ctx.choice('maxlen', [None, 2, 3])
    bs = ctx.int('batch_size', 1, 3)
    words = [w for l in lines0 + lines1 for w in l]
    voc = Vocabulary.from_file(io.StringIO('\n'.join(words)), 'words')
    rm = RandomModel(ctx, mode, budget=2 if mode == 'choice' else 1)
    with random_env(ctx, rm):
        it = ShufflingBatchIterator([f0, f1], [], voc, batch_size=bs, max_sequence_length=maxlen)
        tagged = [(l, 0) for l in lines0] + [(l, 1) for l in lines1]
        want = sorted((tuple(s), (f,) * len(s)) for s, f in sequences(tagged, maxlen))
        for _ in range(2):
            batches = epoch(it)
            got = decode_batches(voc, batches)
            ctx.check(sorted(got) == want, 'every sentence is returned exactly once per epoch', '%s %s' % (got, want))
            b = int(bs)
            ctx.check(all(x[0].shape[1] == b for x in batches[:-1]), 'mini-batches are full')
            ctx.check(len(batches) == -(-len(want) // b), 'number of mini-batches')
            # the parts of one sentence come in order
            for l, fid in tagged:
                parts = [c for c in (tuple(c) for c in chunks(utter(l), maxlen)) if len(c) >= 2]
                pos = [[g for g, _ in got].index(p) for p in parts if p in [g for g, _ in got]]
                ctx.check(pos == sorted(pos), 'parts of a sentence keep their order')
        ctx.check(len(it) == -(-len(want) // int(bs)), 'len() is the number of mini-batches')
        ctx.reach('epochs')
    f0.close()
    f1.close()


@scenario('B02', '4 lines in 2 files (one line 0-2 words long), batch size 1..3, maximum length none/2/3, any selection order of the '
          'first epoch (all random outcomes)', reach=['epochs'])
def shuffle_choice(ctx):
    _shuffle(ctx, 'choice')


@scenario('B02', 'as above, any permutation produced by the shuffling step', reach=['epochs'])
def shuffle_perm(ctx):
    _shuffle(ctx, 'shuffle')


@scenario('B02', 'sampling: 2 files of 3 and 2 lines, symbolic fraction in [0, 1.5] and [0, 1.6], any sample', reach=['over', 'under'])
def sampling(ctx):
    lines0 = [['a0'], ['b0'], ['e0']]
    lines1 = [['c0'], ['d0']]

    fr = [ctx.real('f0', 0, 1.5), ctx.real('f1', 0, 1.6)]
    short = ctx.choice('nfrac', [2, 1, 0])
    f0, f1 = write_files(ctx, ['\n'.join(' '.join(l) for l in ls) for ls in (lines0, lines1)])
    words = [w for l in lines0 + lines1 for w in l]
    voc = Vocabulary.from_file(io.StringIO('\n'.join(words)), 'words')
    rm = RandomModel(ctx, 'choice', budget=2 if ctx.tier == 'thorough' else 1)
    with random_env(ctx, rm):
        given = fr[:short]
        it = ShufflingBatchIterator([f0, f1], given, voc, batch_size=2)
        got = decode_batches(voc, epoch(it))
        for fid, ls in ((0, lines0), (1, lines1)):
            n = len(ls)
            frac = given[fid] if fid < short else 1.0
            want = round(frac * n)
            mine = [s for s, f in got if f[0] == fid]
            # any rounding to the nearest number of sentences is acceptable
            ctx.check(ctx.and_(len(mine) <= frac * n + 0.5 + 1e-9, len(mine) >= frac * n - 0.5 - 1e-9),
                      'number of sampled sentences is the requested fraction')
            ctx.check(all(s in [tuple(utter(l)) for l in ls] for s in mine), 'sampled sentences come from the file')
            if len(mine) <= n:
                ctx.check(len(set(mine)) == len(mine), 'no sentence is repeated unless more than all are requested')
                if len(mine) < n:
                    ctx.reach('under')
            else:
                ctx.reach('over')
    f0.close()
    f1.close()


def same_batches(ctx, a, b, label):
    ok = len(a) == len(b) and all(len(x) == len(y) and all(u.shape == v.shape and (np.asarray(u) == np.asarray(v)).all()
                                                           for u, v in zip(x, y)) for x, y in zip(a, b))
    ctx.check(ok, label, '%s\n!=\n%s' % ([x[0].T.tolist() for x in a], [x[0].T.tolist() for x in b]))


def _resume(ctx, same):
    hi = 3 if ctx.tier == 'thorough' else 2
    n0 = int(ctx.int('len0', 1, hi))
    lines = [['a%d' % k for k in range(n0)], ['b0', 'b1'], ['c0']]
    f0, f1 = write_files(ctx, ['\n'.join(' '.join(l) for l in lines[:2]), ' '.join(lines[2]) + '\n'])
    words = [w for l in lines for w in l]
    voc = Vocabulary.from_file(io.StringIO('\n'.join(words)), 'words')
    maxlen = ctx.choice('maxlen', [None, 2])
    bs = ctx.int('batch_size', 1, 3)
    k = ctx.int('k', 0, 2 + hi)          # batches read before the checkpoint
    j = ctx.int('j', 0, hi)          # batches read from the iterator that is restored
    rm = RandomModel(ctx, 'shuffle', budget=1)
    prev = ctx.choice('previous', [False, True])
    with random_env(ctx, rm):
        def make():
            return ShufflingBatchIterator([f0, f1], [], voc, batch_size=bs, max_sequence_length=maxlen)
        it = make()
        state = new_state(ctx)
        if prev:
            it.get_state(state)
        nb = 0
        for _ in range(int(k)):
            try:
                next(it)
                nb += 1
            except StopIteration:
                break
        it.get_state(state)
        if same:
            # what the original would have returned: a twin restored earlier is
            # not available, so record and rewind the same object
            rest = []
            for b in it:
                rest.append(b)
            for _ in range(int(j)):
                try:
                    next(it)
                except StopIteration:
                    break
            other = it
        else:
            rest = epoch(it)
            other = make()
            for _ in range(int(j)):
                try:
                    next(other)
                except StopIteration:
                    break
        other.set_state(state)
        got = epoch(other)
        same_batches(ctx, got, rest, 'the restored iterator returns the rest of the epoch')
        if rest:
            ctx.reach('rest')
        else:
            ctx.reach('end')
        # and the next epoch is a complete one
        nxt = decode_batches(voc, epoch(other))
        want = sorted((tuple(s), (f,) * len(s)) for s, f in
                      sequences([(lines[0], 0), (lines[1], 0), (lines[2], 1)], maxlen))
        ctx.check(sorted(nxt) == want, 'the epoch after a restored one is complete')
    f0.close()
    f1.close()


@scenario('B03', '3 lines in 2 files, batch size 1..3, maximum length none or 2, checkpoint after 0-4 mini-batches (thorough 0-5) (also into a '
          'state that holds an older checkpoint), restored into a new iterator that has read 0-2 mini-batches, any order',
          reach=['rest', 'end'])
def resume_new(ctx):
    _resume(ctx, False)


@scenario('B03', 'as above, restored into the iterator that made the checkpoint after it finished the epoch and read 0-2 '
          'mini-batches of the next', reach=['rest', 'end'])
def resume_same(ctx):
    _resume(ctx, True)


@scenario('B01', 'sentence starts: any file of up to 6 bytes over {newline, x}', reach=['multi'])
def sentence_starts(ctx):
    n = int(ctx.int('n', 1, 6))
    data = bytes([10 if bool(ctx.bool('nl%d' % i)) else 120 for i in range(n)])
    got = list(fnmod.find_sentence_starts(data))
    want = [0] + [i + 1 for i in range(n - 1) if data[i] == 10]
    ctx.check(got == want, 'line start offsets', '%r %r %r' % (data, got, want))
    if len(want) > 2:
        ctx.reach('multi')

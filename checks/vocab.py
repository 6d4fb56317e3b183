"""Vocabulary: word/ID/class mapping, probabilities, persistence, counting."""
import contextlib
import io

import numpy as np


from symx.runner import scenario, assume_note
from symx.shim import patched
from symx.fakeh5 import new_state

import theanolm.vocabulary.vocabulary as vmod
import theanolm.vocabulary.wordclass as wcmod
import theanolm.vocabulary.statistics as statmod
import theanolm.parsing.functions as fnmod
from theanolm.backend import IncompatibleStateError
from theanolm.vocabulary import Vocabulary
from theanolm.backend import InputError

SPECIAL = ['<s>', '</s>', '<unk>']
MODS = [vmod, wcmod]


def sym(ctx, mods=MODS, **k):
    return patched(mods, **k) if ctx.symbolic else contextlib.nullcontext()


def check_structure(ctx, voc, words, class_of, oos, normal=None):
    """words: shortlist words in file order; class_of: word -> file class key."""
    full = list(words) + [w for w in SPECIAL if w not in words]
    extra = []
    for w in oos:
        if w not in full and w not in extra:
            extra.append(w)
    ctx.check(voc.num_words() == len(full) + len(extra), 'vocabulary size')
    ctx.check(voc.num_shortlist_words() == len(full), 'shortlist size')
    ids = {}
    for w in full + extra:
        ctx.check(w in voc, 'word is in the vocabulary')
        i = int(voc.word_to_id[w])
        ctx.check(0 <= i < voc.num_words(), 'word ID range')
        ctx.check(voc.id_to_word[i] == w, 'ID maps back to the word')
        ids[w] = i
    ctx.check(len(set(ids.values())) == len(ids), 'word IDs are unique')
    ctx.check(set(voc.words()) == set(full + extra), 'listing the words')
    for w in full:
        ctx.check(bool(voc.in_shortlist(ids[w])), 'shortlist word is in shortlist')
    for w in extra:
        ctx.check(not bool(voc.in_shortlist(ids[w])), 'other word is out of shortlist')
    ctx.check('nonexistent' not in voc, 'unknown word is not in vocabulary')
    got = [int(x) for x in voc.words_to_ids(full + extra + ['nonexistent'])]
    ctx.check(got == [ids[w] for w in full + extra] + [ids['<unk>']], 'translating words to IDs')
    # classes
    cls = {w: int(voc.word_id_to_class_id[ids[w]]) for w in full}
    key = {w: class_of.get(w, ('special', w)) for w in full}
    ncls = len(set(key.values()))
    ctx.check(voc.num_classes() == ncls, 'number of classes')
    for w in full:
        ctx.check(0 <= cls[w] < ncls, 'class ID range')
    ctx.check(len(set(cls.values())) == ncls, 'every class has a member')
    for a in full:
        for b in full:
            ctx.check((cls[a] == cls[b]) == (key[a] == key[b]), 'classes partition the shortlist as in the file')
    for w in full:
        if not w.startswith('<') or list(cls.values()).count(cls[w]) > 1:
            ctx.check(cls[w] < voc.num_normal_classes, 'only classes of a single special token are not normal classes')
    # class membership lookup
    import numpy
    order = full + extra
    cids, probs = voc.get_class_memberships(numpy.array([[ids[w]] for w in order], dtype='int64'))
    for k, w in enumerate(order):
        target = w if w in cls else '<unk>'
        ctx.check(int(cids[k, 0]) == cls[target], 'class of a word, <unk> class for out-of-shortlist words')
        ctx.check_eq(probs[k, 0], voc.get_word_prob(ids[target]), 'membership probability lookup')
    return ids, cls, full, extra


def pick_words(ctx, n, pool, prefix):
    return [ctx.choice('%s%d' % (prefix, i), pool) for i in range(n)]


@scenario('V01', 'words format: up to 3 file lines over {a,b,<s>,</s>,<unk>} (duplicates included), up to 2 extra '
          'out-of-shortlist words over {a,c,</s>,<c>}', reach=['dup', 'ok', 'oos'])
def words_file(ctx):
    n = int(ctx.int('n', 0, 3))
    ws = pick_words(ctx, n, ['a', 'b', '<s>', '</s>', '<unk>'], 'w')
    m = int(ctx.int('m', 0, 2))
    oos = pick_words(ctx, m, ['a', 'c', '</s>', '<c>'], 'o')
    dup = len(set(ws)) < len(ws)
    text = ''.join(w + '\n' for w in ws)
    with sym(ctx):
        try:
            voc = Vocabulary.from_file(io.StringIO(text), 'words', oos_words=oos if m else None)
        except InputError:
            ctx.check(dup, 'a valid vocabulary file is accepted')
            ctx.reach('dup')
            return
        ctx.check(not dup, 'a duplicate word is rejected')
        ids, cls, full, extra = check_structure(ctx, voc, ws, {w: ('own', w) for w in ws}, oos)
        for w in full:
            ctx.check_eq(voc.get_word_prob(ids[w]), 1.0, 'a word alone in its class has probability one')
        ctx.reach('ok')
        if extra:
            ctx.reach('oos')


@scenario('V01', 'classes format: up to 4 words (special tokens included), class numbers symbolic in [0, 3], '
          'one out-of-shortlist word', reach=['shared', 'special-in-class'])
def classes_file(ctx):
    n = int(ctx.int('n', 1, 4))
    names = ctx.choice('names', [['a', 'b', 'c', 'd'], ['a', '<unk>', 'b', 'c'], ['</s>', 'a', '<s>', 'b']])[:n]
    nums = [ctx.int('c%d' % i, 0, 3) for i in range(n)]
    text = ''.join('%s %s\n' % (w, c) for w, c in zip(names, nums))
    with sym(ctx):
        voc = Vocabulary.from_file(io.StringIO(text), 'classes', oos_words=['zz'])
        key = {w: int(c) for w, c in zip(names, nums)}
        ids, cls, full, extra = check_structure(ctx, voc, names, key, ['zz'])
        for w in full:
            size = sum(1 for x in full if cls[x] == cls[w])
            ctx.check_eq(voc.get_word_prob(ids[w]), 1.0 / size, 'membership probabilities are uniform')
            if size > 1:
                ctx.reach('shared')
                if w in SPECIAL:
                    ctx.reach('special-in-class')


@scenario('V01', 'white space: every format with fields separated and surrounded by spaces, tabs, several of them, empty lines, '
          'Windows line endings and a missing line end; one class number in {0, 1, 10, 11}', reach=['words', 'classes', 'srilm-classes'])
def white_space(ctx):
    fmt = ctx.choice('fmt', ['words', 'classes', 'srilm-classes'])
    sep = ctx.choice('sep', [' ', '\t', '  '])
    end = ctx.choice('end', ['\n', ' \n', '\r\n', '\n\n'])
    start = ctx.choice('start', ['', '\t'])
    last = ctx.choice('last', [True, False])
    names = ['a', '<unk>', '<b>', 'c+']
    with sym(ctx):
        key = [ctx.choice('c', [0, 1, 10, 11]), 0, 10, 1] if fmt != 'words' else list(range(4))
        fields = {'words': lambda w, k: [w], 'classes': lambda w, k: [w, str(k)],
                  'srilm-classes': lambda w, k: ['C-%d' % k, '0.5', w]}[fmt]
        text = end.join(start + sep.join(fields(w, k)) for w, k in zip(names, key)) + (end if last else '')
        voc = Vocabulary.from_file(io.StringIO(text, newline=None), fmt, oos_words=['zz'])
        check_structure(ctx, voc, names, dict(zip(names, key)), ['zz'])
        ctx.reach(fmt)


@scenario('V02', 'srilm-classes format: 4 words with symbolic positive weights in one of 2 symbolic classes each',
          reach=['shared'])
def srilm_classes(ctx):
    n = 4
    names = ['a', 'b', '<unk>', 'c']
    nums = [ctx.int('c%d' % i, 0, 1) for i in range(n)]
    ps = [ctx.real('p%d' % i, 0.01, 1) for i in range(n)]
    with sym(ctx):
        key = [int(c) for c in nums]
        text = ''.join('CLASS%d %s %s\n' % (k, p, w) for w, k, p in zip(names, key, ps))
        voc = Vocabulary.from_file(io.StringIO(text), 'srilm-classes')
        check_structure(ctx, voc, names, {w: k for w, k in zip(names, key)}, [])
        for i in range(n):
            tot = sum(ps[j] for j in range(n) if key[j] == key[i])
            ctx.check_eq(voc.get_word_prob(voc.word_to_id[names[i]]) * tot, ps[i],
                         'membership probabilities are the normalised weights of the file')
        if len(set(key)) == 1:
            ctx.reach('shared')


def make_voc(layout, oos):
    text = ''.join('%s %d\n' % (w, c) for w, c in layout)
    return Vocabulary.from_file(io.StringIO(text), 'classes', oos_words=oos)


LAYOUTS = [
    [('a', 0), ('b', 0), ('c', 1)],
    [('a', 0), ('<unk>', 0), ('b', 1), ('</s>', 1)],
]


def members(voc):
    res = {}
    for w in voc.words():
        i = int(voc.word_to_id[w])
        if bool(voc.in_shortlist(i)):
            res.setdefault(int(voc.word_id_to_class_id[i]), []).append((w, i))
    return res


@scenario('V02', 'compute_probs: symbolic counts >= 0 for every word of two class layouts (special tokens alone or sharing a '
          'class), 2 out-of-shortlist words, unknown words in the counts', reach=['zero-class', 'oos', 'normal'])
def compute_probs(ctx):
    layout = ctx.choice('layout', LAYOUTS)
    upd = ctx.choice('update', [True, False])
    with sym(ctx):
        voc = make_voc(layout, ['x', 'y'])
        before = {w: voc.get_word_prob(i) for ms in members(voc).values() for w, i in ms}
        words = [w for w, _ in layout] + ['x', 'y'] + [w for w in SPECIAL if w not in dict(layout)]
        counts = {}
        for k, w in enumerate(words):
            counts[w] = ctx.int('n%d' % k, 0, 1000000)
        missing = ctx.choice('missing', ['', 'a', '<s>'])
        if missing in counts:
            counts = dict(counts)
            del counts[missing]
        counts['notinvoc'] = 7
        voc.compute_probs(dict(counts), update_class_probs=upd)
        eff = {w: counts.get(w, 0) for w in words}
        for cid, ms in members(voc).items():
            ps = {w: voc.get_word_prob(i) for w, i in ms}
            tot = sum(ps.values())
            ctx.check_eq(tot, 1.0, 'membership probabilities of a class sum to one')
            for w, p in ps.items():
                ctx.check(ctx.and_(p >= 0, p <= 1), 'membership probability is a probability')
                if w in SPECIAL:
                    ctx.check(p > 0, 'special token has a nonzero membership probability')
            c = {w: eff[w] for w, _ in ms}
            for w in c:
                if w in SPECIAL:
                    c[w] = ctx.ite(c[w] > 1, c[w], 1)
            ctot = sum(c.values())
            for w, _ in ms:
                if not upd:
                    ctx.check_eq(ps[w], before[w], 'membership probabilities are kept unless an update is asked for')
                elif ctot > 0:
                    ctx.check_eq(ps[w] * ctot, c[w], 'membership probability is the relative frequency')
                else:
                    ctx.check_eq(ps[w] * len(ms), 1.0, 'unseen class is uniform')
                    ctx.reach('zero-class')
        # a mini-batch of words: the class of each word, <unk> in place of the out-of-shortlist words
        unk = int(voc.word_to_id['<unk>'])
        ids = np.array([[int(voc.word_to_id[w])] for w in words])
        cids, mps = voc.get_class_memberships(ids)
        for k, w in enumerate(words):
            i = int(voc.word_to_id[w]) if w not in ('x', 'y') else unk
            ctx.check(int(cids[k, 0]) == int(voc.word_id_to_class_id[i]), 'class of a word, of <unk> for an out-of-shortlist word')
            ctx.check_eq(mps[k, 0], voc.get_word_prob(i), 'membership probability of a word, of <unk> for an out-of-shortlist word')
        # unigram based quantities
        ctx.check(voc.has_unigram_probs(), 'unigram probabilities are available')
        oos_total = eff['x'] + eff['y']
        nshort = voc.num_shortlist_words()
        if oos_total > 0:
            oos = voc.get_oos_probs()
            for w in words:
                i = int(voc.word_to_id[w])
                if i < nshort:
                    ctx.check_eq(oos[i], 1.0, 'shortlist probabilities are not affected')
                else:
                    ctx.check_eq(oos[i] * oos_total, eff[w], 'out-of-shortlist mass is divided by unigram frequency')
            ctx.reach('oos')
        short_total = sum(eff[w] for w in words if w not in ('x', 'y'))
        if short_total > 0:
            cp = voc.get_class_probs()
            tot = sum(cp[k] for k in range(voc.num_classes()))
            ctx.check_eq(tot, 1.0, 'class probabilities sum to one')
            for cid, ms in members(voc).items():
                ctx.check_eq(cp[cid] * short_total, sum(eff[w] for w, _ in ms), 'class probability is the sum of its members')
            ctx.reach('normal')


@scenario('V02', 'from_word_counts: 4 words with symbolic counts, 1..4 classes or one class per word, special tokens among the '
          'counted words', reach=['classes', 'own'])
def from_word_counts(ctx):
    words = ['a', 'b', '</s>', 'c', 'd']
    counts = {w: ctx.int('n%d' % i, 0, 1000000) for i, w in enumerate(words)}
    k = int(ctx.int('k', 0, 4))
    with sym(ctx):
        given = dict(counts)
        voc = Vocabulary.from_word_counts(given, k if k else None)
        ctx.check(len(given) == len(words), 'the counts passed by the caller are not modified')
        normal = ['a', 'b', 'c', 'd']
        ctx.check(voc.num_words() == 7 and voc.num_shortlist_words() == 7, 'vocabulary size')
        want = k if k else 4
        ctx.check(voc.num_classes() == want + 3, 'number of classes')
        ctx.check(voc.num_normal_classes == want, 'number of normal classes')
        ms = members(voc)
        seen = sorted(w for m in ms.values() for w, _ in m)
        ctx.check(seen == sorted(normal + SPECIAL), 'every word is in exactly one class')
        ctx.check(sorted(ms) == list(range(want + 3)), 'every class has a member')
        for cid, m in ms.items():
            names = [w for w, _ in m]
            if any(w in SPECIAL for w in names):
                ctx.check(len(names) == 1, 'special tokens have classes of their own')
            else:
                ctx.check(cid < want, 'normal classes come first')
                ctx.check(len(names) in (4 // want, -(-4 // want)), 'words are spread evenly over the classes')
            ctx.check_eq(sum(voc.get_word_prob(i) for _, i in m), 1.0, 'membership probabilities of a class sum to one')
            tot = sum(counts.get(w, 0) for w in names)
            if len(names) > 1 and tot > 0:
                for w, i in m:
                    ctx.check_eq(voc.get_word_prob(i) * tot, counts[w], 'membership probability is the relative frequency')
        total = sum(counts.values())
        if total > 0:
            cp = voc.get_class_probs()
            for cid, m in ms.items():
                ctx.check_eq(cp[cid] * total, sum(counts.get(w, 0) for w, _ in m), 'probability of a class is its share of the text')
        ctx.reach('classes' if k else 'own')


@scenario('V03', 'a saved vocabulary that lacks a part (the words, the classes or the probabilities), has too few unigram probabilities, or '
          'is not there at all is rejected with IncompatibleStateError; symbolic counts', reach=['ok', 'bad'])
def incomplete_state(ctx):
    layout = ctx.choice('layout', LAYOUTS)
    oos = ctx.choice('oos', [[], ['x', 'y']])
    what = ctx.choice('what', [None, 'vocabulary', 'vocabulary/words', 'vocabulary/classes', 'vocabulary/probs', 'unigram'])
    with sym(ctx):
        voc = make_voc(layout, oos)
        voc.compute_probs({w: ctx.int('n%d' % k, 1, 1000000) for k, w in enumerate(voc.words())})
        state = new_state(ctx)
        voc.get_state(state)
        if what == 'unigram':
            old = state['vocabulary/unigram_probs'].value[:-1]
            del state['vocabulary/unigram_probs']
            state['vocabulary'].create_dataset('unigram_probs', data=old)
        elif what:
            del state[what]
        try:
            got = Vocabulary.from_state(state)
        except IncompatibleStateError:
            ctx.check(what is not None, 'a complete vocabulary is read')
            ctx.reach('bad')
            return
        ctx.check(what is None, 'a vocabulary that lacks a part is rejected', what)
        ctx.check(list(got.words()) == list(voc.words()), 'words and their IDs survive')
        ctx.reach('ok')


@scenario('V03', 'save and reload: two class layouts, symbolic counts (membership and unigram probabilities), 0-2 out-of-shortlist '
          'words, into an empty state or over a previous save with other words, classes and probabilities',
          reach=['unigram', 'no-unigram', 'overwrite'])
def save_load(ctx):
    layout = ctx.choice('layout', LAYOUTS)
    oos = ctx.choice('oos', [[], ['x', 'y']])
    withuni = ctx.choice('uni', [True, False])
    over = ctx.choice('overwrite', [True, False])
    with sym(ctx):
        voc = make_voc(layout, oos)
        words = list(voc.words())
        ps = []
        state = new_state(ctx)
        if over:
            # the previous save has as many words and classes, but not the same words in the same classes
            classes = [c for _, c in layout]
            old = make_voc([(w + w if not w.startswith('<') else w, c) for (w, _), c in zip(layout, classes[1:] + classes[:1])],
                           [w + w for w in oos])
            if withuni:
                old.compute_probs({w: 1 for w in old.words()})
            old.get_state(state)
            ctx.reach('overwrite')
        if withuni:
            counts = {w: ctx.int('n%d' % k, 1, 1000000) for k, w in enumerate(words)}
            voc.compute_probs(counts)
        voc.get_state(state)
        got = Vocabulary.from_state(state)
        ctx.check([str(w) for w in got.id_to_word] == [str(w) for w in voc.id_to_word], 'words and their IDs survive')
        ctx.check(got.num_words() == voc.num_words(), 'vocabulary size survives')
        ctx.check(got.num_shortlist_words() == voc.num_shortlist_words(), 'shortlist survives')
        ctx.check(got.num_classes() == voc.num_classes(), 'number of classes survives')
        ctx.check(got.num_normal_classes == voc.num_normal_classes, 'number of normal classes survives')
        for w in words:
            i = int(voc.word_to_id[w])
            ctx.check(w in got and int(got.word_to_id[w]) == i, 'word lookup survives')
            if i < voc.num_shortlist_words():
                ctx.check(int(got.word_id_to_class_id[i]) == int(voc.word_id_to_class_id[i]), 'class of a word survives')
                ctx.check_eq(got.get_word_prob(i), voc.get_word_prob(i), 'membership probability survives', -1e-4)
        ctx.check(got.has_unigram_probs() == voc.has_unigram_probs(), 'unigram probabilities survive')
        if withuni:
            ctx.reach('unigram')
            if oos:
                a, b = got.get_oos_probs(), voc.get_oos_probs()
                for i in range(voc.num_words()):
                    ctx.check_eq(a[i], b[i], 'out-of-shortlist probabilities survive', -1e-4)
            a, b = got.get_class_probs(), voc.get_class_probs()
            for i in range(voc.num_classes()):
                ctx.check_eq(a[i], b[i], 'class probabilities survive', -1e-4)
        else:
            ctx.reach('no-unigram')


def _lines(ctx, nlines, ntok, pool):
    lines = []
    for l in range(nlines):
        k = int(ctx.int('len%d' % l, 0, ntok[l]))
        lines.append([ctx.choice('t%d_%d' % (l, j), pool) for j in range(k)])
    return lines


def utter(toks):
    if not toks:
        return []
    r = list(toks)
    if r[0] != '<s>':
        r = ['<s>'] + r
    if r[-1] != '</s>':
        r = r + ['</s>']
    return r


@scenario('V04', 'word counts: 2 files, up to 3 and 2 tokens per line (thorough: 4 and 3) over {a, b, <s>, </s>}', reach=['tagged', 'empty'])
def word_counts(ctx):
    pool = ['a', 'b', '<s>', '</s>']
    lines = _lines(ctx, 2, (3, 2) if ctx.tier == 'quick' else (4, 3), pool)
    f1 = io.StringIO(' '.join(lines[0]) + '\n')
    f2 = io.StringIO(' '.join(lines[1]) + ' \n\na\n')
    from theanolm.vocabulary import compute_word_counts
    with sym(ctx, [statmod, fnmod]):
        got = compute_word_counts([f1, f2])
    want = {}
    for u in [utter(lines[0]), utter(lines[1]), utter(['a'])]:
        for w in u:
            want[w] = want.get(w, 0) + 1
    ctx.check({k: int(v) for k, v in got.items()} == want, 'word counts', '%s %s' % (got, want))
    ctx.check(f1.tell() == 0 and f2.tell() == 0, 'files are rewound')
    if lines[0] and lines[0][0] == '<s>':
        ctx.reach('tagged')
    if not lines[0]:
        ctx.reach('empty')


@scenario('V04', 'many occurrences: one line of n words, n a symbolic choice up to 40000, between other lines; white space of several kinds '
          'between the words', reach=['many'])
def many(ctx):
    from theanolm.vocabulary import compute_word_counts, BigramStatistics
    n = ctx.choice('n', [1, 130, 300, 40000])
    sep = ctx.choice('sep', [' ', '\t', '  '])
    voc = Vocabulary.from_file(io.StringIO('a\nb\n'), 'words')
    text = 'b\n' + sep.join(['a'] * n) + '\r\nb' + sep + '\n'
    with sym(ctx, [statmod, fnmod]):
        got = compute_word_counts([io.StringIO(text)])
        st = BigramStatistics([io.StringIO(text)], voc)
        i = voc.word_to_id
        ctx.check({k: int(v) for k, v in got.items()} == {'a': n, 'b': 2, '<s>': 3, '</s>': 3}, 'word counts')
        for w, c in (('a', n), ('b', 2), ('<s>', 3), ('</s>', 3), ('<unk>', 0)):
            ctx.check(int(st.unigram_counts[i[w]]) == c, 'unigram counts')
        for x, y, c in (('<s>', 'a', 1), ('a', 'a', n - 1), ('a', '</s>', 1), ('<s>', 'b', 2), ('b', '</s>', 2), ('b', 'a', 0)):
            ctx.check(int(st.bigram_counts[i[x], i[y]]) == c, 'bigram counts')
    if n > 1000:
        ctx.reach('many')


@scenario('V04', 'bigram statistics: 2 lines in 2 files, up to 3 and 2 tokens per line (thorough: 4 and 3) over {a, b, unknown word, </s>}', reach=['bigram'])
def bigram_counts(ctx):
    from theanolm.vocabulary import BigramStatistics
    pool = ['a', 'b', 'q', '</s>']
    lines = _lines(ctx, 2, (3, 2) if ctx.tier == 'quick' else (4, 3), pool)
    voc = Vocabulary.from_file(io.StringIO('a\nb\n'), 'words')
    f1 = io.StringIO(' '.join(lines[0]) + '\n')
    f2 = io.StringIO('\n' + ' '.join(lines[1]) + '\n')
    st = BigramStatistics([f1, f2], voc)
    n = voc.num_words()
    uni = [0] * n
    bi = {}
    for u in map(utter, lines):
        ids = [voc.word_to_id.get(w, voc.word_to_id['<unk>']) for w in u]
        for i in ids:
            uni[i] += 1
        for x, y in zip(ids, ids[1:]):
            bi[x, y] = bi.get((x, y), 0) + 1
            ctx.reach('bigram')
    ctx.check([int(x) for x in st.unigram_counts] == uni, 'unigram counts')
    ctx.check(all(int(st.bigram_counts[i, j]) == bi.get((i, j), 0) for i in range(n) for j in range(n)), 'bigram counts')
    ctx.check(f1.tell() == 0 and f2.tell() == 0, 'files are rewound')

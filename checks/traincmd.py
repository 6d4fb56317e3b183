"""Command line: theanolm train, theanolm sample."""
import argparse
import contextlib
import gzip
import inspect
import io
import logging
import os
from unittest import mock

import h5py
import numpy as np

from symx.runner import scenario, assume_note
from symx.shim import patched, pkg, sym_float
from symx.core import is_sym
from checks import network as N

import theanolm.training
import theanolm.commands.train as tcmd
import theanolm.commands.sample as scmd
from theanolm.network import Network
from theanolm.scoring import TextScorer
from theanolm.training import Trainer
from theanolm.vocabulary import Vocabulary
from theanolm import TextSampler

assume_note('T06', 'the constructors and training methods of Network, TextScorer, Trainer, the optimizers and the cost functions record what '
            'they are given (their behaviour is the subject of the other properties); argument parsing, vocabulary, files and the rest of '
            'the command are real')

METHODS = {'sgd': 'SGDOptimizer', 'nesterov': 'NesterovOptimizer', 'adagrad': 'AdaGradOptimizer', 'adadelta': 'AdadeltaOptimizer',
           'rmsprop-sgd': 'RMSPropSGDOptimizer', 'rmsprop-nesterov': 'RMSPropNesterovOptimizer', 'adam': 'AdamOptimizer'}
COSTS = {'cross-entropy': 'CrossEntropyCost', 'nce': 'NCECost', 'blackout': 'BlackoutCost'}
ARCH = 'input type=word name=w\nlayer type=projection name=p input=w size=2\nlayer type=softmax name=out input=p\n'


class Record(object):
    """what the command does with the parts of the toolkit"""

    def __init__(self, ctx, trains=True):
        self.ctx, self.trains, self.events = ctx, trains, []
        self.args, self.log = {}, []

    def init(self, cls, kind, then=None):
        # the first class that names the parameters
        sigs = [inspect.signature(c.__init__) for c in cls.__mro__ if '__init__' in vars(c) and c is not object]
        orig = ([x for x in sigs if not any(p.kind == p.VAR_POSITIONAL for p in x.parameters.values())] + sigs)[0]

        def __init__(this, *a, **k):
            b = orig.bind(this, *a, **k)
            b.apply_defaults()
            self.args[kind] = dict(b.arguments)
            self.args[kind]['class'] = cls.__name__
            self.events.append(kind)
            if then is not None:
                then(this)
        return mock.patch.object(cls, '__init__', __init__)

    def method(self, cls, name, fn=None):
        orig = inspect.signature(getattr(cls, name))

        def method(this, *a, **k):
            b = orig.bind(this, *a, **k)
            b.apply_defaults()
            self.args[name] = dict(b.arguments)
            self.events.append(name)
            return fn(this, self.args[name]) if fn else None
        return mock.patch.object(cls, name, method)

    def train(self, this, args):
        state = self.args['initialize']['state']
        if self.trains:
            state.create_dataset('layers/x', data=np.zeros(1))

    def read_validation(self, this, args):
        it = [v for k, v in args.items() if k != 'self' and hasattr(v, '__iter__')][0]
        for w, _, m in it:
            self.log.append([[int(w[t, s]) for t in range(w.shape[0]) if m[t, s]] for s in range(w.shape[1])])

    @contextlib.contextmanager
    def installed(self):
        ctx = self.ctx
        with contextlib.ExitStack() as s:
            prior = object()
            self.prior = prior
            s.enter_context(self.init(Trainer, 'trainer', lambda t: setattr(t, 'class_prior_probs', prior)))
            s.enter_context(self.method(Trainer, 'set_logging'))
            s.enter_context(self.method(Trainer, 'initialize'))
            s.enter_context(self.method(Trainer, 'set_validation', self.read_validation))
            s.enter_context(self.method(Trainer, 'train', self.train))
            s.enter_context(self.init(Network, 'network'))
            s.enter_context(self.method(Network, 'set_sampling'))
            s.enter_context(self.method(Network, 'set_state'))
            s.enter_context(self.init(TextScorer, 'scorer'))
            self.perplexity = ctx.real('perplexity', 1, 1000)
            s.enter_context(self.method(TextScorer, 'compute_perplexity', lambda t, a: self.perplexity))
            for c in METHODS.values():
                s.enter_context(self.init(getattr(theanolm.training, c), 'optimizer'))
            for c in COSTS.values():
                s.enter_context(self.init(getattr(theanolm.training, c), 'cost'))
            yield self


def write(d, name, text):
    p = os.path.join(d, name)
    with (gzip.open(p, 'wt') if name.endswith('.gz') else open(p, 'w')) as f:
        f.write(text)
    return p


@contextlib.contextmanager
def environment(ctx):
    with N.files(ctx) as path:
        lvl = logging.root.level
        flags = (theanolm.training.trainer.theano.config.compute_test_value,)
        with mock.patch.object(logging, 'basicConfig', lambda *a, **k: None), \
                (patched(pkg('theanolm.commands', 'theanolm.vocabulary', 'theanolm.parsing')) if ctx.symbolic else contextlib.nullcontext()):
            try:
                yield path
            finally:
                theanolm.training.trainer.theano.config.compute_test_value = flags[0]
                logging.root.setLevel(lvl)


def run_train(ctx, rec, argv):
    """the standard output, or None when the command exits with an error"""
    parser = argparse.ArgumentParser()
    tcmd.add_arguments(parser)
    args = parser.parse_args([str(a) for a in argv])
    out = io.StringIO()
    with rec.installed(), contextlib.redirect_stdout(out):
        try:
            tcmd.train(args)
        except SystemExit as e:
            ctx.check(e.code not in (0, None), 'an error is told by the exit code')
            return None
        finally:
            for f in list(args.training_set) + [args.validation_file]:
                if f is not None:
                    f.close()
    return out.getvalue()


def given(ctx, argv, want, option, key, value, default):
    """passes the option or leaves it out"""
    if ctx.choice('given ' + key, [True, False]):
        argv += [option, value]
        want[key] = value
    else:
        want[key] = default


def check_options(ctx, got, want, label):
    for k, v in want.items():
        if not ctx.check(k in got, label + ': ' + k + ' is passed'):
            continue
        if v is None or isinstance(v, str):
            ctx.check(got[k] == v, label + ': ' + k, '%r instead of %r' % (got[k], v))
        else:
            ctx.check(got[k] is not None, label + ': ' + k + ' is given')
            if got[k] is not None:
                ctx.check_eq(got[k], v, label + ': ' + k)


@scenario('T06', 'options of theanolm train: the training process, the optimizer and the cost function, each given (numbers symbolic) or left to '
          'the documented default; 1-3 training files with 0-3 weights and sampling fractions; validation file given or not, model improved or not',
          reach=['training', 'optimization', 'cost', 'noise', 'files', 'rejected', 'validation', 'not trained'])
def train_options(ctx):
    group = ctx.choice('group', ['training', 'optimization', 'cost', 'noise', 'files', 'validation'])
    d = ctx.scratch()
    with environment(ctx) as path:
        num_files = ctx.choice('files', [1, 2, 3]) if group == 'files' else 1
        texts = [write(d, 'text%d' % i, 'a b\nc\n' if i == 0 else 'b %s\n' % 'cd'[i - 1]) for i in range(num_files)]
        argv = [path('model'), '--architecture', write(d, 'arch', ARCH), '--log-file', '-']
        training = dict(batch_size=16, sequence_length=100, validation_frequency=5, patience=4, stopping_criterion='annealing-count',
                        max_epochs=100, min_epochs=1, max_annealing_count=0)
        optimization = dict(method='adagrad', epsilon=1e-6, gradient_decay_rate=0.9, sqr_gradient_decay_rate=0.999, learning_rate=0.1,
                            momentum=0.9, max_gradient_norm=5, num_noise_samples=5, noise_sharing=None)
        cost = dict(l1_regularization=None, l2_regularization=None)
        sampling = dict(type='uniform', dampening=0.5, sharing=None)
        weights, fractions = [], []
        cost_name, exclude, valid, trains, rejected = 'cross-entropy', False, False, True, False
        if group == 'training':
            if ctx.choice('which', [0, 1]):
                given(ctx, argv, training, '--batch-size', 'batch_size', ctx.int('batch', 1, 9), 16)
                given(ctx, argv, training, '--sequence-length', 'sequence_length', ctx.int('length', 1, 9), 100)
                given(ctx, argv, training, '--validation-frequency', 'validation_frequency', ctx.int('frequency', 1, 9), 5)
                given(ctx, argv, training, '--patience', 'patience', ctx.int('patience', 0, 9), 4)
            else:
                given(ctx, argv, training, '--stopping-criterion', 'stopping_criterion',
                      ctx.choice('criterion', ['epoch-count', 'no-improvement', 'annealing-count']), 'annealing-count')
                given(ctx, argv, training, '--max-epochs', 'max_epochs', ctx.int('max', 1, 9), 100)
                given(ctx, argv, training, '--min-epochs', 'min_epochs', ctx.int('min', 1, 9), 1)
                given(ctx, argv, training, '--max-annealing-count', 'max_annealing_count', ctx.int('count', 1, 9), 0)
        elif group == 'optimization':
            if ctx.choice('which', [0, 1]):
                given(ctx, argv, optimization, '--optimization-method', 'method', ctx.choice('method', sorted(METHODS)), 'adagrad')
                given(ctx, argv, optimization, '--learning-rate', 'learning_rate', ctx.real('rate', 0, 10), 0.1)
                given(ctx, argv, optimization, '--momentum', 'momentum', ctx.real('momentum', 0, 1), 0.9)
            else:
                given(ctx, argv, optimization, '--gradient-decay-rate', 'gradient_decay_rate', ctx.real('decay', 0, 1), 0.9)
                given(ctx, argv, optimization, '--sqr-gradient-decay-rate', 'sqr_gradient_decay_rate', ctx.real('decay2', 0, 1), 0.999)
                given(ctx, argv, optimization, '--numerical-stability-term', 'epsilon', ctx.real('epsilon', 0, 1), 1e-6)
                given(ctx, argv, optimization, '--gradient-normalization', 'max_gradient_norm', ctx.real('norm', 0, 10), 5)
        elif group == 'cost':
            cost_name = ctx.choice('cost', sorted(COSTS))
            argv += ['--cost', cost_name]
            given(ctx, argv, cost, '--l1-regularization', 'l1_regularization', ctx.real('l1', 0, 1), None)
            given(ctx, argv, cost, '--l2-regularization', 'l2_regularization', ctx.real('l2', 0, 1), None)
            given(ctx, argv, optimization, '--numerical-stability-term', 'epsilon', ctx.real('epsilon', 0, 1), 1e-6)
            exclude = ctx.choice('exclude', [False, True])
            if exclude:
                argv += ['--exclude-unk']
        elif group == 'noise':
            given(ctx, argv, sampling, '--noise-distribution', 'type', ctx.choice('distribution', ['uniform', 'log-uniform', 'unigram']), 'uniform')
            given(ctx, argv, sampling, '--noise-dampening', 'dampening', ctx.real('dampening', 0, 1), 0.5)
            given(ctx, argv, sampling, '--noise-sharing', 'sharing', ctx.choice('sharing', ['seq', 'batch']), None)
            optimization['noise_sharing'] = sampling['sharing']
            # 3 words and 3 special tokens
            k = ctx.int('samples', 1, 8)
            given(ctx, argv, optimization, '--num-noise-samples', 'num_noise_samples', k, 5)
            rejected = bool(optimization['num_noise_samples'] > 6)
        elif group == 'files':
            weights = [ctx.real('weight%d' % i, 0, 5) for i in range(ctx.choice('weights', [0, 1, 3]))]
            fractions = [ctx.real('fraction%d' % i, 0, 1) for i in range(ctx.choice('fractions', [0, 2, 3]))]
            rejected = len(weights) > num_files or len(fractions) > num_files
        else:
            valid = ctx.choice('valid', [True, False])
            exclude = ctx.choice('exclude', [False, True])
            trains = ctx.choice('trains', [True, False])
            if exclude:
                argv += ['--exclude-unk']
            training['batch_size'] = 2
            argv += ['--batch-size', 2]
            if ctx.choice('short', [True, False]):
                training['sequence_length'] = 3
                argv += ['--sequence-length', 3]
            if ctx.choice('listed', [False, True]):     # c is in the vocabulary but not in the shortlist
                argv += ['--vocabulary', write(d, 'voc', 'b\na\n'), '--vocabulary-format', 'words']
        argv += ['--training-set'] + texts
        if weights:
            argv += ['--weights'] + weights
        if fractions:
            argv += ['--sampling'] + fractions
        if valid:
            argv += ['--validation-file', write(d, ctx.choice('valid name', ['valid', 'valid.gz']), 'c a b\nb zz\na\n')]
        rec = Record(ctx, trains)
        out = run_train(ctx, rec, argv)
        log = rec.log
        ctx.check((out is None) == rejected, 'only invalid options are rejected')
        if rejected or out is None:
            ctx.check('train' not in rec.events, 'invalid options are rejected before training')
            ctx.reach('rejected')
            return
        a = rec.args
        state_words = Vocabulary.from_state(h5py.File(path('model'), 'r'))
        unk = int(state_words.word_to_id['<unk>'])
        ctx.check(rec.events.count('train') == 1 and rec.events.count('initialize') == 1, 'the network is trained once')
        if not ctx.check('trainer' in a and 'optimizer' in a and 'cost' in a and 'initialize' in a, 'all the parts are created'):
            return
        check_options(ctx, a['trainer']['training_options'], training, 'training option')
        got = list(a['trainer']['sampling'])
        if ctx.check(len(got) == len(fractions), 'sampling fractions'):
            for x, y in zip(got, fractions):
                ctx.check_eq(x, y, 'sampling fraction of a training file')
        ctx.check([f.name for f in a['trainer']['training_files']] == texts, 'training files')
        check_options(ctx, a['optimizer']['optimization_options'], optimization, 'optimization option')
        ctx.check(a['optimizer']['class'] == METHODS[optimization['method']], 'optimization method')
        got = list(a['optimizer']['optimization_options']['weights'])
        want = weights + [1.0] * (num_files - len(weights))
        if ctx.check(len(got) == len(want), 'number of weights'):
            for x, y in zip(got, want):
                ctx.check_eq(x, y, 'weight of a training file')
        ctx.check(a['cost']['class'] == COSTS[cost_name], 'cost function')
        e = a['cost']['exclude_id']
        ctx.check(int(e) == unk if exclude and e is not None else (e is None) == (not exclude), '<unk> is excluded on request only')
        check_options(ctx, a['cost'], dict(cost, epsilon=optimization['epsilon']), 'cost option')
        check_options(ctx, a['set_sampling'], sampling, 'noise option')
        net = a['network']['self']
        ctx.check(a['cost']['network'] is net and a['optimizer']['network'] is net and a['optimizer']['cost_function'] is a['cost']['self'] and
                  a['initialize']['network'] is net and a['initialize']['optimizer'] is a['optimizer']['self'] and
                  a['set_sampling']['self'] is net and a['network']['class_prior_probs'] is rec.prior, 'the parts are connected')
        ctx.check(rec.events.index('set_sampling') < rec.events.index('cost') < rec.events.index('initialize') < rec.events.index('train'),
                  'order of initialization')
        ctx.check(('set_validation' in rec.events) == valid, 'validation is performed when there is validation data')
        if valid:
            ctx.check(a['scorer']['network'] is net and a['set_validation']['scorer'] is a['scorer']['self'], 'validation of the network')
            ctx.check(bool(a['scorer']['exclude_unk']) == exclude, '<unk> is excluded from the perplexity on request only')
            ctx.check(bool(a['scorer']['use_shortlist']), 'words outside the shortlist are scored in the validation')
            ctx.check(rec.events.index('set_validation') < rec.events.index('train'), 'validation is set up before training')
            v = state_words
            ids = lambda *ws: [int(v.word_to_id[w]) for w in ws]
            sents = [ids('<s>', 'c', 'a', 'b', '</s>'), ids('<s>', 'b', '<unk>', '</s>'), ids('<s>', 'a', '</s>')]
            n = training['sequence_length']
            # a single word at the end of a split sentence predicts nothing
            want = [s[i:i + n] for s in sents for i in range(0, len(s), n) if len(s[i:i + n]) > 1]
            ctx.check([s for b in log for s in b if s] == want, 'validation text', '%s %s' % (log, want))
            ctx.check(all(len([s for s in b if s]) <= 2 for b in log), 'batch size of the validation')
        if trains and valid:
            last = [e for e in rec.events if e in ('train', 'set_state', 'compute_perplexity')]
            ctx.check(last == ['train', 'set_state', 'compute_perplexity'], 'the final perplexity is that of the best model', str(last))
            line = [l for l in out.split('\n') if 'perplexity' in l]
            if ctx.check(len(line) == 1 and ' ' in line[0], 'the final perplexity is printed'):
                p = line[0].split(' ')[-1]
                ctx.check_eq(sym_float(p) if ctx.symbolic else float(p), rec.perplexity, 'the final perplexity')
            ctx.reach('validation')
        else:
            ctx.check('compute_perplexity' not in rec.events, 'no perplexity without validation or a model')
            ctx.check(('not been trained' in out) == (not trains), 'a model that was not trained is reported')
            if not trains:
                ctx.reach('not trained')
        ctx.reach(group)


# --------------------------------------------------------------------------
# vocabulary of a new or an existing model
# --------------------------------------------------------------------------

@scenario('T06', 'vocabulary of theanolm train: formed from the text (1, 2 or no classes) or read from a file in any of the formats, or found in an '
          'existing model (saved with or without unigram probabilities); training text of 2 files with 3 arbitrary words of 4',
          reach=['existing', 'text', 'words', 'classes', 'srilm-classes'])
def train_vocabulary(ctx):
    source = ctx.choice('source', ['text', 'words', 'classes', 'srilm-classes', 'existing'])
    d = ctx.scratch()
    words = [ctx.choice('w%d' % i, ['a', 'b', 'c', 'q']) for i in range(3)]
    with environment(ctx) as path:
        sentences = [['<s>', words[0], words[1], '</s>'], ['<s>', 'a', '</s>'], ['<s>', words[2], '</s>']]
        texts = [write(d, 'text0', '%s %s\n\na\n' % (words[0], words[1])), write(d, 'text1', '%s\n' % words[2])]
        argv = [path('model'), '--architecture', write(d, 'arch', ARCH), '--num-noise-samples', 1]
        count = {}
        for s in sentences:
            for w in s:
                count[w] = count.get(w, 0) + 1
        special = ['<s>', '</s>', '<unk>']
        num_classes, old = None, None
        if source == 'text':
            num_classes = ctx.choice('classes', [None, 1, 2])
            if num_classes is not None:
                argv += ['--num-classes', num_classes]
            short = [w for w in count if w not in special]
        else:
            short = ['a', 'b', 'c']
            lines = {'words': 'c\na\nb\n', 'classes': 'a 1\nb 1\nc 7\n', 'srilm-classes': 'X 0.25 a\nX 0.75 b\nY 1.0 c\n'}
            if source == 'existing':
                uni = ctx.choice('unigram', [True, False])
                old = Vocabulary.from_file(io.StringIO(lines['classes']), 'classes', oos_words=['zz'] if uni else None)
                if uni:
                    old.compute_probs({'a': 1, 'b': 3, 'c': 2, 'zz': 1})
                f = h5py.File(path('model'), 'w')
                old.get_state(f)
                f.close()
                if ctx.choice('file too', [False, True]):
                    argv += ['--vocabulary', write(d, 'voc', 'c\nd\n')]
            else:
                argv += ['--vocabulary', write(d, 'voc', lines[source]), '--vocabulary-format', source]
        argv += ['--training-set'] + texts
        rec = Record(ctx, False)
        out = run_train(ctx, rec, argv)
        if not ctx.check(out is not None and 'train' in rec.events, 'the network is trained'):
            return
        saved = Vocabulary.from_state(h5py.File(path('model'), 'r'))
        used = rec.args['trainer']['vocabulary']
        ctx.check(rec.args['network']['vocabulary'] is used, 'the network and the trainer have the same vocabulary')
        oos = sorted(w for w in count if w not in short and w not in special)
        for v, label in ((saved, 'saved'), (used, 'used')):
            shortlist = [w for w in v.words() if int(v.word_to_id[w]) < v.num_shortlist_words()]
            others = sorted(w for w in v.words() if w not in shortlist)
            ctx.check(sorted(shortlist) == sorted(short + special), label + ' vocabulary: words of the shortlist', str(shortlist))
            if source == 'existing' and uni:
                ctx.check(others == ['zz'], label + ' vocabulary: other words', str(others))
            else:
                ctx.check(others == oos, label + ' vocabulary: other words', str(others))
            ctx.check(bool(v.has_unigram_probs()), label + ' vocabulary: unigram probabilities')
            group = {}
            for w in short:
                group.setdefault(int(v.word_id_to_class_id[v.word_to_id[w]]), []).append(w)
            if source == 'words' or source == 'text' and num_classes is None:
                ctx.check(all(len(g) == 1 for g in group.values()), label + ' vocabulary: no classes')
            elif source == 'text':
                ctx.check(len(group) <= num_classes, label + ' vocabulary: number of classes')
            else:
                ctx.check(sorted(map(sorted, group.values())) == [['a', 'b'], ['c']], label + ' vocabulary: classes')
            for g in group.values():
                for w in g:
                    p = v.get_word_prob(v.word_to_id[w])
                    if source == 'existing':
                        want = old.get_word_prob(old.word_to_id[w])
                    elif source == 'srilm-classes':
                        want = {'a': 0.25, 'b': 0.75, 'c': 1.0}[w]
                    else:
                        total = sum(count.get(x, 0) for x in g)
                        want = count.get(w, 0) / total if total else None
                    if want is not None:
                        ctx.check_eq(p, want, label + ' vocabulary: class membership probability', tol=1e-6)
            # unigram probabilities of the words outside the shortlist
            p = v.get_oos_probs()
            if others and not (source == 'existing' and uni):
                total = sum(count.get(w, 0) for w in others + ['<unk>'])
                for w in others:
                    ctx.check_le(0, p[int(v.word_to_id[w])], 'probability')
                    for x in others:
                        ctx.check_eq(p[int(v.word_to_id[w])] * count[x], p[int(v.word_to_id[x])] * count[w],
                                     label + ' vocabulary: out-of-shortlist probabilities follow the counts', tol=1e-6)
        ctx.reach(source)


# --------------------------------------------------------------------------
# S04: theanolm sample
# --------------------------------------------------------------------------

assume_note('S04', N.NOTE, 'TextSampler.generate returns arbitrary tokens (what it generates is S03); the command is otherwise real')


@scenario('S04', 'theanolm sample from a model file with any parameter values: 0-2 sentences of 0-3 arbitrary tokens, options given (symbolic '
          'numbers) or not, with and without a seed', reach=['ended', 'open', 'given', 'default'])
def sample_command(ctx):
    d = ctx.scratch()
    import theanolm.vocabulary.vocabulary
    with N.env(ctx), environment(ctx) as path, (patched([theanolm.network.network]) if ctx.symbolic else contextlib.nullcontext()):
        net = N.network('fc', voc=N.full_vocabulary(), fresh=True)
        N.set_params(ctx, [net])
        with h5py.File(path('model.h5'), 'w') as state:
            net.vocabulary.get_state(state)
            net.get_state(state)
        want = {p: v.get_value() for p, v in net.get_variables().items()}
        out = os.path.join(d, 'out')
        argv = [path('model.h5'), '--output-file', out]
        length, num, seed = 30, 10, ''
        if ctx.choice('given', [True, False]):
            length, num = ctx.int('length', 1, 50), ctx.int('num', 1, 50)
            argv += ['--sentence-length', length, '--num-sentences', num]
            ctx.reach('given')
        else:
            ctx.reach('default')
        seed = ctx.choice('seed', ['', 'a b'])
        if seed:
            argv += ['--seed-sequence', seed]
        sequences = []
        if ctx.choice('sequences', [0, 2]):
            sequences = [['<s>'] + [ctx.choice('t%d' % j, ['a', '</s>', '<unk>']) for j in range(ctx.choice('n', [0, 1, 3]))],
                         ctx.choice('second', [['<s>', 'a', '</s>', 'b'], ['<s>', 'b']])]
        seen, init = [], []
        sig, isig = inspect.signature(TextSampler.generate), inspect.signature(TextSampler.__init__)

        def generate(this, *a, **k):
            b = sig.bind(this, *a, **k)
            b.apply_defaults()
            seen.append(dict(b.arguments))
            return [list(s) for s in sequences]

        def created(this, *a, **k):
            b = isig.bind(this, *a, **k)
            init.append(b.arguments['network'])
        parser = argparse.ArgumentParser()
        with mock.patch.object(TextSampler, 'generate', generate), mock.patch.object(TextSampler, '__init__', created):
            scmd.add_arguments(parser)
            args = parser.parse_args([str(a) for a in argv])
            try:
                scmd.sample(args)
            finally:
                args.output_file.close()
        if not ctx.check(len(init) == 1 and len(seen) == 1, 'text is generated once'):
            return
        got = init[0]
        ctx.check(not got.mode.minibatch, 'the network generates one word at a time')
        vs = got.get_variables()
        ctx.check(sorted(vs) == sorted(want), 'parameters of the model')
        for p in want:
            N.check_same(ctx, vs[p].get_value(), want[p], 'parameter values of the model file')
        ctx.check([str(w) for w in got.vocabulary.id_to_word] == [str(w) for w in net.vocabulary.id_to_word], 'vocabulary of the model file')
        ctx.check_eq(seen[0]['length'], length, 'length of the sentences')
        ctx.check_eq(seen[0]['num_sequences'], num, 'number of sentences')
        ctx.check(seen[0]['seed_sequence'].split() == seed.split(), 'seed')
        with open(out) as f:
            lines = f.read().split('\n')
        ctx.check(lines[-1] == '' and len(lines) == len(sequences) + 1, 'one line for each sentence')
        for l, s in zip(lines, sequences):
            if '</s>' in s:
                s = s[:s.index('</s>') + 1]
                ctx.reach('ended')
            else:
                ctx.reach('open')
            ctx.check(l == ' '.join(s), 'a sentence is printed up to </s>', '%r %r' % (l, s))

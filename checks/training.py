"""The training process: validation schedule, best state, annealing, stopping, continuing."""
import contextlib
import io
import math
import os
from unittest import mock

import h5py
import numpy as np
import theano

from symx.runner import scenario, assume_note
from symx import core
from symx.shim import patched, pkg, NumpyShim, SArr
from symx.ctx import Stub
from symx.fakeh5 import new_state
from checks import network as N

from theanolm.vocabulary import Vocabulary
import theanolm.training
from theanolm.training import Trainer

LABEL = {'T01': '', 'T02': '', 'T03': ''}


class Crash(BaseException):
    """the process ends here"""


def store(state, name, data):
    if name in state:
        del state[name]
    state.create_dataset(name, data=data)


class FakeNetwork(Stub):
    """the parameters are the list of mini-batches they have been trained on"""

    def __init__(self):
        self.lineage = []

    def get_state(self, state):
        store(state, 'layers/lineage', np.array(self.lineage, dtype='int64'))

    def set_state(self, state):
        self.lineage = [int(x) for x in state['layers/lineage'][()]]


class FakeOptimizer(Stub):
    def __init__(self, run, network, rate):
        self.run, self.network, self.learning_rate = run, network, rate
        self.steps = 0

    def update_minibatch(self, word_ids, class_ids, file_ids, mask):
        self.run.event()
        word = int(np.asarray(word_ids)[1, 0])
        self.network.lineage.append(word)
        self.steps += 1
        self.run.log.append(('update', word, self.learning_rate))

    def get_state(self, state):
        state.require_group('optimizer').attrs['learning_rate'] = self.learning_rate
        store(state, 'optimizer/steps', np.array([self.steps], dtype='int64'))

    def set_state(self, state):
        self.learning_rate = state['optimizer'].attrs['learning_rate']
        self.steps = int(state['optimizer/steps'][0])


class FakeScorer(Stub):
    def __init__(self, run):
        self.run = run

    def compute_perplexity(self, batch_iter):
        self.run.event()
        i = self.run.num
        self.run.num += 1
        p = self.run.ctx.real('p%d' % i, 1, 1000)
        self.run.ctx.check(batch_iter is self.run.valid, 'validation text is scored')
        self.run.log.append(('score', p, list(self.run.network.lineage)))
        return p


class Run(object):
    """one process: events, at most ``limit`` of them"""

    def __init__(self, ctx, limit, first=0):
        self.ctx, self.limit, self.num, self.log = ctx, limit, first, []
        self.valid = object()

    def event(self):
        if len(self.log) >= self.limit:
            raise Crash()


def median(ctx, xs):
    return NumpyShim().median(xs) if ctx.symbolic else float(np.median(xs))


class Snapshot(object):
    def __init__(self, ref):
        self.lineage, self.epoch, self.update, self.rate, self.costs = \
            list(ref.lineage), ref.epoch, ref.update, ref.rate, list(ref.costs)


class End(Exception):
    pass


class Reference(object):
    """The documented training process, driven by the log of a run."""

    def __init__(self, ctx, opt, per_epoch, words, rate, samples, start=None):
        self.ctx, self.opt, self.n, self.words = ctx, opt, per_epoch, words
        self.samples = samples
        self.lineage, self.epoch, self.update, self.rate, self.costs = [], 1, 0, rate, []
        self.saved, self.index = start, None
        if start is not None:
            self.restore()
        self.annealed = 0
        self.last_cost, self.flag = None, False
        self.num_validations = 0

    def restore(self):
        s = self.saved
        self.lineage, self.epoch, self.update, self.rate, self.costs = list(s.lineage), s.epoch, s.update, s.rate, list(s.costs)
        self.index = len(s.costs) - 1 if s.costs else None

    def points(self):
        """updates of an epoch after which there is a validation"""
        f = self.opt['validation_frequency']
        return sorted({-(-j * self.n // f) for j in range(1, f + 1)}) if f > 0 else []

    def candidate_cost(self):
        return self.costs[self.index] if self.index is not None else None

    def stop(self):
        o = self.opt
        if o['stopping_criterion'] == 'epoch-count' or self.epoch <= o['min_epochs']:
            return False
        if o['stopping_criterion'] == 'annealing-count':
            return self.annealed > o['max_annealing_count']
        if self.flag and self.index is not None and bool(self.candidate_cost() < self.last_cost):
            self.flag = False
        return self.flag

    def take(self, kind, what):
        if self.pos == len(self.log):
            raise End()
        e = self.log[self.pos]
        if not self.ctx.check(e[0] == kind, what, 'event %d is %s' % (self.pos, e[0])):
            raise StopIteration()
        self.pos += 1
        return e

    def run(self, log, validation, finished):
        """consumes the log; returns False when the log does not conform"""
        ctx = self.ctx
        self.log, self.pos = log, 0
        try:
            while self.epoch <= self.opt['max_epochs'] and not self.stop():
                perplexities, center = [], None
                while self.update < self.n:
                    e = self.take('update', 'updates continue until the training should stop')
                    ctx.check(e[1] in self.words, 'training text')
                    ctx.check(e[1] not in (self.lineage[-self.update:] if self.update else []),
                              'no sentence is used twice in an epoch')
                    ctx.check_eq(e[2], self.rate, 'learning rate of an update', tol=-1e-6)
                    self.lineage.append(e[1])
                    self.update += 1
                    if validation:
                        v = [p for p in self.points() if p >= self.update]
                        v = v[0] if v else None
                        if v is not None and v - self.update < self.samples:
                            e = self.take('score', 'validation perplexity is computed at the scheduled updates')
                            ctx.check(e[2] == self.lineage, 'validation uses the current parameters')
                            perplexities.append(e[1])
                            # after a restore, a validation has only the second half of the samples
                            if center is None and v - self.update <= self.samples // 2:
                                center = Snapshot(self)
                            if v == self.update:
                                if len(perplexities) == self.samples:
                                    self.validated(perplexities, center)
                                perplexities, center = [], None
                    if self.stop():
                        break
                self.epoch += 1
                self.update = 0
                if not validation:
                    self.saved = Snapshot(self)
        except End:
            ctx.check(not finished, 'training goes on until the stopping criterion is met')
            return True
        except StopIteration:
            return False
        ctx.check(finished and self.pos == len(log), 'training stops when the stopping criterion is met')
        ctx.reach('finished')
        return True

    def validated(self, perplexities, center):
        ctx = self.ctx
        self.num_validations += 1
        self.costs.append(self.statistic(perplexities))
        if self.index is None or bool(self.costs[-1] < 0.999 * self.costs[self.index]):
            self.index = len(self.costs) - 1
            self.saved = center
            self.saved.costs = list(self.costs)
            ctx.reach('improved')
        elif self.opt['patience'] >= 0 and len(self.costs) - 1 - self.index > self.opt['patience']:
            rate = self.rate / 2
            self.restore()
            self.rate = rate
            self.annealed += 1
            cost = self.candidate_cost()
            self.flag = self.last_cost is not None and not bool(cost < self.last_cost)
            self.last_cost = cost
            ctx.reach('annealed')

    def statistic(self, xs):
        return median(self.ctx, xs)


def text(ctx, num):
    d = ctx.scratch()
    words = ['w%d' % i for i in range(num)]
    path = os.path.join(d, 'train.txt')
    with open(path, 'w') as f:
        f.write(''.join(w + '\n' for w in words))
    return path, words


@contextlib.contextmanager
def environment(ctx):
    np.random.seed(1)
    if ctx.symbolic:
        ctx.eng.opaque_text = True
    with contextlib.redirect_stdout(io.StringIO()), (N.files(ctx)), \
            (patched(pkg('theanolm.training')) if ctx.symbolic else contextlib.nullcontext()):
        yield


def process(ctx, opt, path, voc, rate, limit, state, samples=None, statistic=None, validation=True, first=0, sampling=()):
    """a training process; ends by itself, or before an event"""
    run = Run(ctx, limit, first)
    with open(path, 'rb') as f:
        trainer = Trainer(dict(opt), voc, [f], list(sampling))
        run.network = FakeNetwork()
        optimizer = FakeOptimizer(run, run.network, rate)
        if validation:
            kw = {}
            if samples is not None:
                kw['samples_per_validation'] = samples
            if statistic is not None:
                kw['statistics_function'] = statistic
            trainer.set_validation(run.valid, FakeScorer(run), **kw)
        trainer.initialize(run.network, state, optimizer)
        try:
            trainer.train()
            run.finished = True
        except Crash:
            run.finished = False
        finally:
            ended(state)
    return run


def ended(state):
    """the files that a process has open are closed when it ends"""
    for fid in h5py.h5f.get_obj_ids(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_FILE):
        f = h5py.File(fid)
        if isinstance(state, h5py.File) and f == state:
            continue
        f.close()


def check_file(ctx, state, saved, label):
    if saved is None:
        ctx.check('layers' not in state, label + ': nothing is saved before the first validation')
        return
    if not ctx.check('layers/lineage' in state and 'trainer' in state, label + ': a model is saved'):
        return
    ctx.check([int(x) for x in state['layers/lineage'][()]] == saved.lineage, label + ': parameters of the saved model')
    ctx.check(int(state['optimizer/steps'][0]) == len(saved.lineage), label + ': optimizer state of the saved model')
    ctx.check_eq(state['optimizer'].attrs['learning_rate'], saved.rate, label + ': learning rate of the saved model', tol=-1e-6)
    costs = list(state['trainer/cost_history'][()])
    if ctx.check(len(costs) == len(saved.costs), label + ': number of validations of the saved model'):
        for a, b in zip(costs, saved.costs):
            ctx.check_eq(a, b, label + ': validation costs of the saved model', tol=-1e-8)


def options(**kw):
    o = dict(batch_size=1, sequence_length=10, validation_frequency=1, patience=-1, stopping_criterion='epoch-count',
             max_epochs=1, min_epochs=1, max_annealing_count=0)
    o.update(kw)
    return o


def interval(n, f):
    return max(1, n // f) if f > 0 else n


def simulate(ctx, opt, n, samples, limit, validation=True, statistic=None, resume=False, sampling=()):
    rate = ctx.real('rate', 1e-6, 10)
    path, words = text(ctx, n)
    voc = Vocabulary.from_file(io.StringIO(''.join(w + '\n' for w in words)), 'words')
    voc.compute_probs({w: 1 for w in words})
    ids = [int(voc.word_to_id[w]) for w in words]
    with environment(ctx):
        per_epoch = max(1, round(sampling[0] * n)) if sampling else n
        s = min(samples or 7, interval(per_epoch, opt['validation_frequency']))
        state = new_state(ctx)
        run = process(ctx, opt, path, voc, rate, limit, state, samples, statistic, validation, 0, sampling)
        ref = Reference(ctx, opt, per_epoch, ids, rate, s)
        if statistic is not None:
            ref.statistic = statistic
        if not ref.run(run.log, validation, run.finished):
            return None
        check_file(ctx, state, ref.saved, 'end' if run.finished else 'interrupted')
        if resume:
            first = run.num
            run2 = process(ctx, opt, path, voc, rate, ctx.resume_limit, state, samples, statistic, validation, first, sampling)
            ref2 = Reference(ctx, opt, per_epoch, ids, rate, s, start=ref.saved)
            ref2.statistic = ref.statistic
            if not ref2.run(run2.log, validation, run2.finished):
                return None
            check_file(ctx, state, ref2.saved, 'continued')
            ctx.reach('continued')
            if ref.saved is not None:
                ctx.reach('restored')
        ctx.reach('done')
    return ref


# --------------------------------------------------------------------------
# T01: validation schedule
# --------------------------------------------------------------------------

@scenario('T01', 'one epoch of 1-6 updates, validation frequency 1-4 and 7, 1-4 samples per validation, all perplexities',
          reach=['done', 'several', 'finished'])
def schedule(ctx):
    n = ctx.choice('n', [1, 2, 3, 5, 6])
    f = ctx.choice('f', [1, 2, 3, 4, 7])
    s = ctx.choice('s', [1, 2, 3, 4])
    # a single increasing sequence of perplexities: the schedule must not depend on them
    ref = simulate(ctx, options(validation_frequency=f), n, s, 100)
    if ref is not None:
        ctx.check(ref.num_validations == min(f, n), 'as many validations per epoch as requested')
        if ref.num_validations > 1:
            ctx.reach('several')


@scenario('T01', 'one epoch of 6-15 updates, default number of samples (7), validation frequency 1-2, all perplexities', reach=['done', 'finished'])
def schedule_default(ctx):
    n, f = ctx.choice('nf', [(6, 1), (7, 1), (9, 1), (14, 2), (15, 2)])
    ref = simulate(ctx, options(validation_frequency=f), n, None, 100)
    if ref is not None:
        ctx.check(ref.num_validations == f, 'as many validations per epoch as requested')


@scenario('T01', 'mean of 3 samples given as the statistic, two epochs of 3-4 updates', reach=['done'])
def schedule_statistic(ctx):
    n = ctx.choice('n', [3, 4])
    simulate(ctx, options(max_epochs=2), n, 3, 100, statistic=lambda xs: sum(xs) / len(xs))


@scenario('T01', 'training file of 6 sentences of which 1/2 or 2/3 is sampled on an epoch, two epochs', reach=['done', 'finished'])
def schedule_sampling(ctx):
    q = ctx.choice('q', [0.5, 2 / 3.0])
    ref = simulate(ctx, options(max_epochs=2, validation_frequency=ctx.choice('f', [1, 2])), 6, 1, 100, sampling=[q])
    if ref is not None:
        ctx.check(ref.num_validations == 2 * ref.opt['validation_frequency'], 'as many validations per epoch as requested')


# --------------------------------------------------------------------------
# T02: best state, learning rate, stopping
# --------------------------------------------------------------------------

def best(criterion, shapes, limit, **fixed):
    def fn(ctx):
        n, f, s = ctx.choice('shape', shapes)
        o = {k: ctx.choice(k, v) for k, v in fixed.items()}
        simulate(ctx, options(validation_frequency=f, stopping_criterion=criterion, **o), n, s, limit)
    return fn


SHAPES = [(1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 1, 2), (3, 1, 3), (3, 2, 1)]
SHAPE_TEXT = '1-3 updates in an epoch, 1-2 validations of 1-3 samples'

scenario('T02', SHAPE_TEXT + ', criterion annealing-count with 0-1 annealings, patience 0-1, 1-2 to 3 epochs, at most 16 updates and '
         'perplexities, all perplexities and learning rates', name='annealing_count', reach=['done', 'finished', 'improved', 'annealed'])(
    best('annealing-count', SHAPES, 16, patience=[0, 1], max_annealing_count=[0, 1], min_epochs=[1, 2], max_epochs=[3]))
scenario('T02', SHAPE_TEXT + ', criterion no-improvement, patience 0-1, 1-2 to 3 epochs, at most 18 updates and perplexities, all perplexities '
         'and learning rates', name='no_improvement', reach=['done', 'finished', 'improved', 'annealed'])(
    best('no-improvement', SHAPES, 18, patience=[0, 1], min_epochs=[1, 2], max_epochs=[3]))
scenario('T02', SHAPE_TEXT + ', criterion epoch-count, patience -1 to 1, 1-3 epochs, at most 16 updates and perplexities, all perplexities and '
         'learning rates', name='epoch_count', reach=['done', 'finished', 'improved', 'annealed'])(
    best('epoch-count', SHAPES, 16, patience=[-1, 0, 1], max_epochs=[1, 2, 3]))
scenario('T02', 'epochs of 4-7 updates with 1-2 validations of 2-4 samples, patience 0, annealing count 0, at most 26 updates and perplexities',
         name='center', reach=['done', 'finished', 'improved', 'annealed'])(
    best('annealing-count', [(4, 1, 4), (4, 2, 2), (5, 1, 2), (7, 2, 3), (6, 2, 3), (6, 1, 4)], 26, patience=[0], max_annealing_count=[0],
         min_epochs=[1], max_epochs=[2]))


@scenario('T02', 'no validation data: 1-3 epochs of 1-3 updates, all criteria', reach=['done', 'finished'])
def unvalidated(ctx):
    n = ctx.choice('n', [1, 2, 3])
    simulate(ctx, options(stopping_criterion=ctx.choice('criterion', ['epoch-count', 'annealing-count', 'no-improvement']),
                          min_epochs=ctx.choice('min', [1, 2]), max_epochs=ctx.choice('max', [1, 2, 3])), n, 1, 100, validation=False)


scenario('T01', 'two epochs of 4-6 updates with 1-2 validations of 2-4 samples, patience 0 (returning to the middle of the samples of a '
         'validation), all perplexities and learning rates', name='schedule_annealed', reach=['done', 'finished', 'improved', 'annealed'])(
    best('epoch-count', [(4, 1, 4), (4, 2, 2), (5, 1, 3), (6, 2, 3), (4, 1, 3)], 26, patience=[0], max_epochs=[2]))


# --------------------------------------------------------------------------
# T03: continuing
# --------------------------------------------------------------------------

def continued(limit, more, shapes, validation=True, **fixed):
    def fn(ctx):
        n, f, s = ctx.choice('shape', shapes)
        at = ctx.choice('crash', list(range(limit + 1)))
        o = {k: ctx.choice(k, v) for k, v in fixed.items()}
        ctx.resume_limit = more
        simulate(ctx, options(validation_frequency=f, **o), n, s, at, validation=validation, resume=True)
    return fn


scenario('T03', 'interrupted before any of the first 10 updates or perplexities (also after the training has finished), 1-3 updates in an epoch, 1-2 validations of 1-3 '
         'samples, patience 0, criterion annealing-count or no-improvement, 8 further events, all perplexities', name='interrupted',
         reach=['done', 'continued', 'restored', 'finished'])(
    continued(10, 8, SHAPES, stopping_criterion=['annealing-count', 'no-improvement'], patience=[0], max_annealing_count=[1], max_epochs=[2]))
scenario('T03', 'no validation data, interrupted before any of the first 10 updates, 1-3 updates in each of 3 epochs, 10 further events',
         name='interrupted_unvalidated', reach=['done', 'continued', 'restored', 'finished'])(
    continued(10, 10, [(1, 1, 1), (2, 1, 1), (3, 1, 1)], validation=False, max_epochs=[3]))


@scenario('T03', 'a trainer with 0-2 validations writes its state into the state of a trainer with 0-2 validations, all perplexities',
          reach=['shorter', 'longer', 'empty'])
def overwritten(ctx):
    """the state written last is what is read back, whatever was there before"""
    rate = ctx.real('rate', 1e-6, 10)
    path, words = text(ctx, 2)
    voc = Vocabulary.from_file(io.StringIO(''.join(w + '\n' for w in words)), 'words')
    voc.compute_probs({w: 1 for w in words})
    ids = [int(voc.word_to_id[w]) for w in words]
    old, new = ctx.choice('old', [0, 1, 2]), ctx.choice('new', [0, 1, 2])
    opt = options(validation_frequency=1, max_epochs=3)
    with environment(ctx):
        target, costs = new_state(ctx), None
        for i, num in enumerate([old, new]):
            run = Run(ctx, 3 * num + 1, 10 * i)
            with open(path, 'rb') as f:
                trainer = Trainer(dict(opt), voc, [f], [])
                run.network = FakeNetwork()
                optimizer = FakeOptimizer(run, run.network, rate)
                trainer.set_validation(run.valid, FakeScorer(run), samples_per_validation=1)
                trainer.initialize(run.network, new_state(ctx), optimizer)
                try:
                    trainer.train()
                except Crash:
                    pass
                trainer.get_state(target)
                costs = [e[1] for e in run.log if e[0] == 'score']
        got = list(target['trainer/cost_history'][()])
        if ctx.check(len(got) == len(costs), 'number of validations in the state'):
            for a, b in zip(got, costs):
                ctx.check_eq(a, b, 'validation costs in the state')
        ctx.reach('shorter' if new < old else 'longer' if new > old else 'same')
        if new == 0:
            ctx.reach('empty')


# --------------------------------------------------------------------------
# T04: parameter updates
# --------------------------------------------------------------------------

TINY = 'input type=word name=w\nlayer type=projection name=p input=w size=1\nlayer type=softmax name=out input=p\n'
EPS, MOMENTUM, GAMMA, GAMMA_MS = 2.0 ** -20, 0.5, 0.75, 0.875
METHODS = ['sgd', 'nesterov', 'adagrad', 'adadelta', 'rmsprop-sgd', 'rmsprop-nesterov', 'adam']
T04_NOTE = N.NOTE + '; the gradient is an arbitrary symbolic array (the cost is linear in the parameters)'


class LinearCost(theanolm.training.CrossEntropyCost):
    """the gradient is what the scenario sets"""

    def __init__(self, network, grads):
        super().__init__(network)
        self.net, self.grads = network, grads

    def get_tensor(self):
        cost = sum((self.grads[k] * v).sum() for k, v in self.net.get_variables().items())
        return cost, self.net.mask.sum()


def sqrt(ctx, x):
    return core.fn_sqrt(x) if ctx.symbolic else float(np.sqrt(x))


class Rule(object):
    """The optimization methods as documented, on lists of numbers."""

    def __init__(self, ctx, method, n, max_norm):
        self.ctx, self.method, self.max = ctx, method, max_norm
        self.v = [0.0] * n
        self.s = [1.0 if method.startswith('rmsprop') else 0.0] * n
        self.d = [0.0] * n
        self.m = [0.0] * n
        self.t = 0

    def step(self, params, grads, alpha):
        root = lambda x: sqrt(self.ctx, x)
        me = self.method
        n = range(len(params))
        if me in ('sgd', 'nesterov'):
            delta = [-g for g in grads]
        elif me == 'adam':
            self.t += 1
            alpha = alpha * np.sqrt(1.0 - GAMMA_MS ** float(self.t)) / (1.0 - GAMMA ** float(self.t))
            self.m = [GAMMA * self.m[i] + (1.0 - GAMMA) * grads[i] for i in n]
            self.s = [GAMMA_MS * self.s[i] + (1.0 - GAMMA_MS) * grads[i] * grads[i] for i in n]
            delta = [-self.m[i] / (root(self.s[i]) + EPS) for i in n]
        else:
            for i in n:
                sq = grads[i] * grads[i]
                self.s[i] = self.s[i] + sq if me == 'adagrad' else GAMMA * self.s[i] + (1.0 - GAMMA) * sq
            if me == 'adadelta':
                delta = [-grads[i] * root(self.d[i] + EPS) / root(self.s[i] + EPS) for i in n]
            else:
                delta = [-grads[i] / root(self.s[i] + EPS) for i in n]
        if self.max is not None:
            norm = root(N.total([x * x for x in delta]))
            delta = [x * self.ctx.ite(norm <= self.max, norm, self.max) / (EPS + norm) for x in delta]
        if me == 'adadelta':
            self.d = [GAMMA * self.d[i] + (1.0 - GAMMA) * delta[i] * delta[i] for i in n]
        if me.endswith('nesterov'):
            self.v = [MOMENTUM * self.v[i] + alpha * delta[i] for i in n]
            return [params[i] + MOMENTUM * self.v[i] + alpha * delta[i] for i in n]
        return [params[i] + alpha * delta[i] for i in n]


def optimizer_options(method, max_norm, weights, rate):
    return dict(method=method, epsilon=EPS, gradient_decay_rate=GAMMA, sqr_gradient_decay_rate=GAMMA_MS, learning_rate=rate,
                weights=weights, momentum=MOMENTUM, max_gradient_norm=max_norm, num_noise_samples=1, noise_sharing=None)


def update(method, max_norm, steps):
    def fn(ctx):
        rate = ctx.real('rate', 0.01, 4)
        restart = ctx.choice('restart', [False, True]) if steps > 1 else False
        with N.env(ctx):
            net = N.network(TINY)
            paths = list(net.get_variables())
            where = [(paths[0], (0, 0)), (paths[-1], (1,) if net.get_variables()[paths[-1]].get_value().ndim == 1 else (0, 1))]
            grads = {k: theano.shared(np.zeros(net.get_variables()[k].get_value().shape)) for k in paths}
            zero = {k: np.zeros(net.get_variables()[k].get_value().shape) for k in paths}
            values = {k: z.astype(object) for k, z in zero.items()}
            for j, (k, i) in enumerate(where):
                values[k][i] = ctx.real('w%d' % j, -2, 2)
            put = lambda a: a.view(SArr) if ctx.symbolic else a.astype('float64')
            for k, v in net.get_variables().items():
                v.set_value(put(values[k]))
            weights = np.ones(1)

            def make():
                o = theanolm.training.create_optimizer(optimizer_options(method, max_norm, weights, 1.0), net, LinearCost(net, grads))
                o.learning_rate = rate
                return o
            opt = make()
            rule = Rule(ctx, method, len(where), max_norm)
            expect = [values[k][i] for k, i in where]
            word_ids = np.array([[1], [2], [3]])
            for t in range(steps):
                if t == 1 and restart:
                    state = new_state(ctx)
                    opt.get_state(state)
                    opt = make()
                    opt.learning_rate = 1.0
                    opt.set_state(state)
                    ctx.check_eq(opt.learning_rate, rate, 'learning rate is restored', tol=-1e-6)
                    ctx.reach('restart')
                g = [ctx.real('g%d_%d' % (t, j), -2, 2) for j in range(len(where))]
                for k in paths:
                    a = zero[k].astype(object)
                    for j, (q, i) in enumerate(where):
                        if q == k:
                            a[i] = g[j]
                    grads[k].set_value(put(a))
                opt.update_minibatch(word_ids, word_ids, np.zeros_like(word_ids, dtype='int8'), np.ones_like(word_ids, dtype='int8'))
                expect = rule.step(expect, g, rate)
                for j, (k, i) in enumerate(where):
                    ctx.check_eq(net.get_variables()[k].get_value()[i], expect[j], 'update of a parameter', tol=1e-6)
                for k in paths:
                    a = net.get_variables()[k].get_value()
                    for i in np.ndindex(*a.shape):
                        if (k, i) not in where:
                            ctx.check_eq(a[i], 0, 'a parameter of zero gradient is not changed')
            ctx.reach('done')
    return fn


for _m in METHODS:
    for _n, _s in ((None, 2), (0.5, 1)):
        scenario('T04', 'optimization method %s, %s, %d updates from the initial state%s, all gradients (two nonzero elements), parameter '
                 'values and learning rates' % (_m, 'gradient norm at most %g' % _n if _n else 'no normalization', _s,
                                                ' (optimizer saved and restored between the updates or not)' if _s > 1 else ''),
                 name='%s_%s' % (_m, 'norm' if _n else 'plain'), reach=['done'] + (['restart'] if _s > 1 else []),
                 validate=2)(update(_m, _n, _s))
assume_note('T04', T04_NOTE)


def weighted(ctx):
    """weights of the training files"""
    rate = ctx.real('rate', 0.01, 4)
    with N.env(ctx):
        net = N.network(TINY)
        paths = list(net.get_variables())
        shapes = {k: v.get_value().shape for k, v in net.get_variables().items()}
        grads = {k: theano.shared(np.full(shapes[k], 0.5)) for k in paths}
        w = np.array([ctx.real('x%d' % i, 0, 4) for i in range(2)], dtype=object)
        w = w.view(SArr) if ctx.symbolic else w.astype('float64')
        for v in net.get_variables().values():
            v.set_value(np.zeros(v.get_value().shape))
        opt = theanolm.training.create_optimizer(optimizer_options('sgd', None, w, 1.0), net, LinearCost(net, grads))
        opt.learning_rate = rate
        lengths = ctx.choice('lengths', [(3, 3), (3, 2), (2, 3), (3, 1)])
        files = ctx.choice('files', [(0, 0), (0, 1), (1, 0), (1, 1)])
        mask = np.array([[1 if t < n else 0 for n in lengths] for t in range(3)], dtype='int8')
        words = np.array([[1, 2], [3, 4], [5, 0]])
        # padding is marked with the first file
        fids = np.array([[files[s] if mask[t, s] else 0 for s in range(2)] for t in range(3)], dtype='int8')
        opt.update_minibatch(words, words, fids, mask)
        num = sum(n - 1 for n in lengths)
        scale = sum(w[files[s]] * (lengths[s] - 1) for s in range(2)) / num
        for k, v in net.get_variables().items():
            a = v.get_value()
            for i in np.ndindex(*a.shape):
                ctx.check_eq(a[i], -0.5 * rate * scale, 'an update is scaled by the mean weight of its words', tol=1e-6)
        ctx.reach('done')


scenario('T04', 'mini-batch of 2 sequences of 1-3 words from either of 2 training files, all weights and learning rates', name='weights',
         reach=['done'], validate=3)(weighted)


# --------------------------------------------------------------------------
# T05: training objective
# --------------------------------------------------------------------------

for _p in ('T05',):
    assume_note(_p, N.NOTE)


def tiny_params(net):
    v = {x.get_value().shape: x.get_value() for x in net.get_variables().values()}
    return v[(N.NW, 1)], v[(1, N.NC)], v[(N.NC,)]


def logits(net, word):
    p, w, b = tiny_params(net)
    return [p[word, 0] * w[0, c] + b[c] for c in range(N.NC)]


def batch(ctx, net, T, S, words):
    """input and target words; lengths of the sequences"""
    voc = net.vocabulary
    x = np.array([[ctx.choice('x%d_%d' % (t, s), [voc.word_to_id[w] for w in words]) for s in range(S)] for t in range(T + 1)], dtype='int64')
    c = np.array([[int(voc.word_id_to_class_id[i]) for i in r] for r in x], dtype='int64')
    return x, c


def objective(ctx, net, cls, x, c, mask, extra=(), givens=(), **kw):
    cost, num = cls(net, **kw).get_tensor()
    f = theano.function([net.input_word_ids, net.input_class_ids, net.target_word_ids, net.target_class_ids, net.mask],
                        [cost, num] + list(extra), givens=[(net.is_training, np.int8(1))] + list(givens), on_unused_input='ignore')
    return f(x[:-1], c[:-1], x[1:], c[1:], mask)


def regularization(ctx, net, l1, l2):
    vals = [v for p in net.get_variables().values() for v in np.ravel(p.get_value()).tolist()]
    r = 0.0
    if l1:
        r = r + l1 * N.total([abs(v) for v in vals])
    if l2:
        r = r + l2 * N.total([v * v for v in vals])
    return r


@scenario('T05', 'cross-entropy of 1-2 words in each of 2 sequences (of 3: known, <unk>, </s>), <unk> excluded or not, L1 or L2 regularization or '
          'neither, all parameter values in [-3, 3]', reach=['done', 'empty'], validate=4)
def cross_entropy(ctx):
    exclude = ctx.choice('exclude', [False, True])
    l1, l2 = ctx.choice('regularization', [(None, None), (0.5, None), (None, 0.25)])
    lengths = ctx.choice('lengths', [(2, 1), (1, 2), (1, 0)])
    with N.env(ctx):
        net = N.network(TINY)
        N.set_params(ctx, [net])
        unk = int(net.vocabulary.word_to_id['<unk>'])
        T = max(lengths)
        x, c = np.full((T + 1, 2), int(net.vocabulary.word_to_id['b'])), None
        words = [int(net.vocabulary.word_to_id[w]) for w in ('a', '<unk>', '</s>')]
        for s in range(2):
            for t in range(lengths[s]):
                x[t + 1, s] = ctx.choice('x%d_%d' % (t, s), words)
        c = np.array([[int(net.vocabulary.word_id_to_class_id[i]) for i in r] for r in x], dtype='int64')
        mask = np.array([[1 if t < n else 0 for n in lengths] for t in range(T)], dtype='int8')
        cost, num = objective(ctx, net, theanolm.training.CrossEntropyCost, x, c, mask, exclude_id=unk if exclude else None,
                              l1_regularization=l1, l2_regularization=l2)
        probs = N.probs_fn(ctx, net)(x[:-1], c[:-1], mask)
        terms = [(t, s) for s in range(2) for t in range(lengths[s]) if not (exclude and x[t + 1, s] == unk)]
        ctx.check(int(num) == len(terms), 'number of predicted words')
        want = N.total([-ctx.log(probs[t, s, c[t + 1, s]]) for t, s in terms]) / len(terms) if terms else 0.0
        if not terms:
            ctx.reach('empty')
        ctx.check_eq(cost, want + regularization(ctx, net, l1, l2), 'cost is the mean negative log probability', tol=1e-6)
        ctx.reach('done')


@scenario('T05', 'one SGD update with the cross-entropy cost, 2 sequences of 1-2 predicted words, any words of 3, <unk> excluded or not, all '
          'parameter values in [-3, 3] and learning rates', reach=['done'], validate=4)
def gradient(ctx):
    rate = ctx.real('rate', 0.01, 4)
    exclude = ctx.choice('exclude', [False, True])
    lengths = ctx.choice('lengths', [(2, 1), (1, 1)])
    with N.env(ctx):
        if ctx.symbolic:
            core.engine().name_softmax = True
        net = N.network(TINY)
        N.set_params(ctx, [net])
        unk = int(net.vocabulary.word_to_id['<unk>'])
        voc = net.vocabulary
        T = max(lengths)
        x = np.full((T + 1, 2), int(voc.word_to_id['b']))
        words = [int(voc.word_to_id[w]) for w in ('a', '<unk>', 'c')]
        for s in range(2):
            for t in range(lengths[s]):
                x[t + 1, s] = ctx.choice('x%d_%d' % (t, s), words)
        c = np.array([[int(voc.word_id_to_class_id[i]) for i in r] for r in x], dtype='int64')
        mask = np.array([[1 if t <= n else 0 for n in lengths] for t in range(T + 1)], dtype='int8')
        opt = theanolm.training.create_optimizer(optimizer_options('sgd', None, np.ones(1), 1.0), net,
                                                 theanolm.training.CrossEntropyCost(net, unk if exclude else None))
        opt.learning_rate = rate
        P, W, b = (np.array(a, dtype=object) for a in tiny_params(net))
        probs = np.array(N.probs_fn(ctx, net)(x[:-1], c[:-1], mask[1:]), dtype=object)
        opt.update_minibatch(x, c, np.zeros_like(mask), mask)
        terms = [(t, s) for s in range(2) for t in range(lengths[s]) if not (exclude and x[t + 1, s] == unk)]
        gp, gw, gb = P * 0.0, W * 0.0, b * 0.0
        for t, s in terms:
            for k in range(N.NC):
                d = (probs[t, s, k] - (1.0 if k == c[t + 1, s] else 0.0)) / len(terms)
                gb[k] = gb[k] + d
                gw[0, k] = gw[0, k] + d * P[x[t, s], 0]
                gp[x[t, s], 0] = gp[x[t, s], 0] + d * W[0, k]
        P2, W2, b2 = tiny_params(net)
        for old, new, g in ((P, P2, gp), (W, W2, gw), (b, b2, gb)):
            for i in np.ndindex(*old.shape):
                ctx.check_eq(new[i], old[i] - rate * g[i], 'a parameter moves against the gradient of the cost', tol=1e-6)
        ctx.reach('done')


PRIORS = [[0.125, 0.375, 0.0625, 0.25, 0.1875], [0.0, 0.375, 0.1875, 0.25, 0.1875]]


def sampled(cls, sharing, dist, T, S, k, dampenings=(1.0,), priors=PRIORS):
    def fn(ctx):
        with N.env(ctx) as draws:
            # the class of the first predicted word may be missing from the text
            prior = np.array(ctx.choice('prior', priors if dist == 'unigram' else PRIORS[:1]))
            net = N.network(TINY)
            net.class_prior_probs = prior
            N.set_params(ctx, [net], bound=2)
            dampening = ctx.choice('dampening', dampenings)
            net.set_sampling(dist, dampening, sharing)
            if dist == 'log-uniform' and ctx.symbolic:
                core.engine().exp_points = tuple(range(2, N.NC + 2))
            if dist == 'unigram':
                prior = prior ** dampening / np.sum(prior ** dampening)
            voc = net.vocabulary
            x = np.full((T + 1, S), int(voc.word_to_id['b']))
            for s in range(S):
                x[T, s] = int(voc.word_to_id['ac'[s]])
            c = np.array([[int(voc.word_id_to_class_id[i]) for i in r] for r in x], dtype='int64')
            mask = np.ones((T, S), dtype='int8')
            mask[T - 1, S - 1] = ctx.choice('last', [0, 1])
            sample, logprobs = net.noise_sample()
            cost, num, sample = objective(ctx, net, getattr(theanolm.training, cls), x, c, mask, extra=[sample],
                                          givens=[(net.num_noise_samples, np.int64(k))], epsilon=EPS)
            sample = np.broadcast_to(np.asarray(sample).astype('int64'), (T, S, k))
            # which random numbers select which classes
            u = draws[0].ravel().tolist()
            shape = {None: (T, S, k), 'seq': (T, 1, k), 'batch': (1, 1, k)}[sharing]
            ctx.check(len(draws) == 1 and len(u) == int(np.prod(shape)), 'number of noise samples')
            for n, i in enumerate(np.ndindex(*shape)):
                j = int(sample[i])
                if dist == 'uniform':
                    ctx.check(ctx.and_(j <= u[n] * N.NC, u[n] * N.NC < j + 1), 'noise classes have equal probabilities')
                elif dist == 'log-uniform':
                    lu = u[n] * math.log(N.NC + 1)
                    ctx.check(ctx.and_(math.log(j + 1) - 1e-9 <= lu, lu < math.log(j + 2) + 1e-9), 'logarithms of the noise classes are uniform')
                elif k == 1:
                    low = float(prior[:j].sum())
                    ctx.check(ctx.and_(low - 1e-9 <= u[n], u[n] < low + prior[j] + 1e-9), 'noise classes are drawn from the unigram distribution')
            pr = {'uniform': [1.0 / N.NC] * N.NC, 'unigram': prior.tolist(),
                  'log-uniform': [ctx.log((j + 2) / (j + 1)) / math.log(N.NC + 1) for j in range(N.NC)]}[dist]
            terms = [(t, s) for t in range(T) for s in range(S) if mask[t, s]]
            parts = []
            for t, s in terms:
                lg = logits(net, x[t, s])
                target = int(c[t + 1, s])
                ks = [int(j) for j in sample[t, s]]
                if cls == 'NCECost':
                    def g(j):
                        return lg[j] - ctx.log(pr[j] + EPS)
                    parts.append(-ctx.log(1 + ctx.exp(-g(target))) + N.total([-ctx.log(1 + ctx.exp(g(j))) for j in ks]))
                else:
                    q = lambda j: ctx.exp(lg[j]) / (pr[j] + EPS)
                    den = q(target) + N.total([q(j) for j in ks])
                    parts.append(ctx.log(q(target) / den + EPS) + N.total([ctx.log(1.0 - q(j) / den + EPS) for j in ks]))
            want = -N.total(parts) / len(terms) if terms else 0.0
            ctx.check_eq(cost, want, 'cost computed from the noise samples', tol=1e-6)
            ctx.reach('done')
    return fn


for _c in ('NCECost', 'BlackoutCost'):
    for _sh, _t, _s, _k in ((None, 2, 1, 1), ('seq', 2, 2, 1), ('batch', 1, 2 if _c == 'NCECost' else 1, 2)):
        scenario('T05', '%s, uniform noise shared %s, %d x %d words, %d noise samples: all outcomes of the random number generator, all parameter '
                 'values in [-2, 2]' % (_c, _sh, _t, _s, _k), name='%s_uniform_%s' % (_c, _sh), reach=['done'], validate=2)(
            sampled(_c, _sh, 'uniform', _t, _s, _k))
    scenario('T05', '%s, unigram noise (dampening 1, 0.5 or 0) shared by the batch, 1 x 2 words, 1 noise sample: all outcomes of the random number generator, all parameter '
             'values in [-2, 2]' % _c, name='%s_unigram' % _c, reach=['done'], validate=2)(sampled(_c, 'batch', 'unigram', 1, 2, 1, (1.0, 0.5, 0.0)))
    scenario('T05', '%s, log-uniform noise shared by the batch, 1 x 2 words, 1 noise sample: all outcomes of the random number generator, all '
             'parameter values in [-2, 2]' % _c, name='%s_loguniform' % _c, reach=['done'], validate=2)(sampled(_c, 'batch', 'log-uniform', 1, 2, 1))
scenario('T05', 'NCECost, unigram noise over two classes shared by the sequences, 3 x 1 words, 1 noise sample: all outcomes of the random number '
         'generator, all parameter values in [-2, 2]', name='NCECost_unigram_seq', reach=['done'], validate=2)(
    sampled('NCECost', 'seq', 'unigram', 3, 1, 1, priors=[[0.0, 0.625, 0.375, 0.0, 0.0]]))

"""C25: training losses, metrics, the equivariance metric, and the bookkeeping of the training loop."""
import contextlib
import itertools
import sys
import numpy as np
import jax
import jax.numpy as jnp
import z3
from symx.core import Free, Pos, RealRaise, CheckError
from symx.pathint import SymInt, explore, ex
from symx import exprs as X
SHARDS = {'quick': 8, 'thorough': 8}
_mod = []


def modules():
    if not _mod:
        import collections, collections.abc
        if not hasattr(collections, 'Iterable'): collections.Iterable = collections.abc.Iterable
        sys.path.insert(0, '/repo')
        import importlib
        _mod.extend(importlib.import_module('experiments.trainer.' + n) for n in ('trainer', 'classifier', 'model_trainer'))
    return _mod


@contextlib.contextmanager
def patched(obj, **names):
    old = {n: getattr(obj, n) for n in names}
    for n, v in names.items(): setattr(obj, n, v)
    try: yield
    finally:
        for n, v in old.items(): setattr(obj, n, v)


def tracer(x): return isinstance(x, jax.core.Tracer)


@contextlib.contextmanager
def traceable():
    """conversions to numpy are the identity on traced values"""
    asarray, array, get = np.asarray, np.array, jax.device_get
    with patched(np, asarray=lambda x, *a, **k: x if tracer(x) else asarray(x, *a, **k), array=lambda x, *a, **k: x if tracer(x) else array(x, *a, **k)), patched(jax, device_get=lambda x: x if tracer(x) else get(x)):
        yield


class Logger:
    """records what is logged; `with logger as do_log` follows a script"""
    script = ()
    def __init__(self, *a, **k):
        import pandas as pd
        self.rows, self.at, self.events = {}, 0, []
        self.scalar_frame = pd.DataFrame()
    def __enter__(self):
        self.at += 1
        return bool(self.script) and self.script[(self.at - 1) % len(self.script)]
    def __exit__(self, *a): pass
    def add_scalars(self, tag, dic, step=None, **k):
        import pandas as pd
        self.events.append((step, dict(dic)))
        self.rows.setdefault(step, {}).update(dic)
        self.scalar_frame = pd.DataFrame(list(self.rows.values()), index=list(self.rows), dtype=object)
    def add_text(self, *a, **k): pass
    def report(self): pass


class Loader(list):
    """minibatches, with or without the nominal batch size a torch loader has"""
    def __init__(self, mbs, bs=None):
        super().__init__(mbs)
        if bs is not None: self.batch_size = bs


def network(m, ps, names=('w',)):
    """an objax module computing m(parameters, x, training)"""
    import objax
    class Net(objax.Module):
        def __init__(self):
            for n, p in zip(names, ps): setattr(self, n, objax.TrainVar(jnp.zeros(np.shape(p))))
        def __call__(self, x, training=True): return m([getattr(self, n).value for n in names], x, training)
    net = Net()
    for n, p in zip(names, ps): getattr(net, n).assign(jnp.asarray(p))
    return net


def make(cls, net, loaders, script=(), **k):
    T = modules()[0]
    L = type('L', (Logger,), dict(script=script))
    with patched(T, LazyLogger=L, tqdm=lambda it, *a, **q: it): return cls(net, loaders, **k)


def linear(ps, x, training): return x @ ps[0] + (1. if training else 3.) * ps[1]


def run(ctx):
    T, C, M = modules()
    ctx.encodes('Trainer.__init__', 'Trainer.train', 'Trainer.train_to', 'Trainer.step', 'Trainer.logStuff', 'Trainer.evalAverageMetrics', 'Trainer.state_dict', 'Classifier.loss', 'Classifier.metrics',
                'cross_entropy', 'Regressor.loss', 'Regressor.metrics', 'RegressorPlus.*', 'ClassifierPlus.*', 'equivariance_err', 'scale_adjusted_rel_err', 'rel_err')
    ctx.assume('exact real arithmetic; exp, log, argmax and square roots uninterpreted; optimizers and logger of the libraries are trusted (the logger is replaced by a recorder)')
    ctx.bound('linear models with 1-3 inputs and 1-3 outputs, data sets of 1-5 examples in every division into up to 3 minibatches, training runs of up to 4 steps, 2-4 logged metrics in every order')
    regressors = [(c.__module__.split('.')[-1] + '.' + c.__name__, c) for c in (C.Regressor, M.RegressorPlus)]
    classifiers = [(c.__module__.split('.')[-1] + '.' + c.__name__, c) for c in (C.Classifier, M.ClassifierPlus)]
    for name, cls in regressors:
        for b, i, o in ((1, 1, 1), (2, 3, 1), (3, 2, 2)): ctx.identity('loss/%s/%d rows %d->%d' % (name, b, i, o), lambda w, c, x, y, cls=cls: mse(cls, w, c, x, y), [Free('w', i, o), Free('c', o), Free('x', b, i), Free('y', b, o)])
        for split in ((1,), (2,), (2, 2), (2, 1), (1, 2), (2, 2, 1), (1, 3, 1)):
            for nominal in (True, False):
                if not ctx.thorough and sum(split) > 3 and not nominal and cls is not M.RegressorPlus: continue
                ctx.identity('metric/%s/%s/%s' % (name, split, nominal), lambda w, c, x, y, cls=cls, split=split, nominal=nominal: mse_metric(cls, w, c, x, y, split, nominal),
                             [Free('w', 2, 2), Free('c', 2), Free('x', sum(split), 2), Free('y', sum(split), 2)])
    for name, cls in classifiers:
        for b, k in ((1, 2), (2, 2), (2, 3), (3, 3)):
            for n, lab in enumerate(itertools.product(range(k), repeat=b)):
                if not ctx.thorough and b == 3 and n % 5: continue
                ctx.identity('loss/%s/%d classes/labels %s' % (name, k, lab), lambda w, c, x, cls=cls, lab=lab: entropy(cls, w, c, x, np.array(lab)), [Free('w', 2, k), Free('c', k), Free('x', b, 2)], eps=1e-6)
        for split in ((2,), (2, 1), (1, 2), (2, 2, 1)):
            for nominal in (True, False):
                lab = np.arange(sum(split)) * 2 % 3
                ctx.identity('metric/%s/%s/%s' % (name, split, nominal), lambda w, c, x, cls=cls, split=split, nominal=nominal, lab=lab: accuracy(cls, w, c, x, lab, split, nominal),
                             [Free('w', 2, 3), Free('c', 3), Free('x', sum(split), 2)])
    equivariance(ctx, M)
    training(ctx, C, M)
    checkpoints(ctx, T)
    def wrong(w, c, x, y):
        a, b = mse(C.Regressor, w, c, x, y)
        return a, [b[0] * 2]
    ctx.vacuity('vacuity', wrong, [Free('w', 1, 1), Free('c', 1), Free('x', 2, 1), Free('y', 2, 1)])


def mse(cls, w, c, x, y):
    net = network(linear, (w, c), 'wc')
    tr = make(cls, net, {'train': Loader([(x, y)], len(x))})
    return [tr.loss((x, y))], [((x @ w + c - y) ** 2).sum() / y.size]


def cut(split, bs, *arrays):
    at = np.cumsum((0,) + tuple(split))
    return Loader([tuple(a[i:j] for a in arrays) for i, j in zip(at, at[1:])], max(split) if bs else None)


def mse_metric(cls, w, c, x, y, split, nominal):
    net = network(linear, (w, c), 'wc')
    ld = cut(split, nominal, x, y)
    tr = make(cls, net, {'train': ld, 'test': ld})
    if not hasattr(net, 'predict'): net.predict = lambda x: net(x, training=False)
    with traceable(): got = tr.metrics(ld)
    return [got['MSE']], [((x @ w + 3 * c - y) ** 2).sum() / y.size]


def entropy(cls, w, c, x, lab):
    net = network(linear, (w, c), 'wc')
    tr = make(cls, net, {'train': Loader([(x, lab)], len(lab))})
    z = x @ w + c
    logp = jax.nn.log_softmax(z)
    return [tr.loss((x, lab))], [-sum(logp[i, l] for i, l in enumerate(lab)) / len(lab)]


def accuracy(cls, w, c, x, lab, split, nominal):
    net = network(linear, (w, c), 'wc')
    ld = cut(split, nominal, x, lab)
    tr = make(cls, net, {'train': ld, 'test': ld})
    if not hasattr(net, 'predict'): net.predict = lambda x: net(x, training=False)
    with traceable(): got = tr.metrics(ld)
    hits = jnp.argmax(x @ w + 3 * c, axis=-1) == lab
    return [got['Acc']], [sum(jnp.where(h, 1., 0.) for h in hits) / len(lab)]


def equivariance(ctx, M):
    from emlp.reps import V, Scalar
    root = lambda v: jnp.sqrt((v ** 2).mean())
    def scaled(a, b, g): return [M.scale_adjusted_rel_err(a, b, g)], [root(a - b) / (root(a) + root(b) + jnp.abs(g - jnp.eye(g.shape[-1])).sum() / g.size)]
    for s in ((1, 1), (2, 3)): ctx.identity('scaled error/%s' % (s,), scaled, [Free('a', *s), Free('b', *s), Free('g', s[0], 2, 2)], eps=1e-6)
    ctx.identity('relative error', lambda a, b: ([M.rel_err(a, b)], [root(a - b) / (root(a) + root(b))]), [Free('a', 2, 2), Free('b', 2, 2)], eps=1e-6)
    gs = X.groups()
    for gn, rin, rout, b in (('O2', V, V, 1), ('O2', V, V, 2), ('S3', V + Scalar, V, 2), ('O2', V + Scalar, V * V, 2)):
        for given in (True, False):
            G = gs[gn].G
            name = 'equivariance error/%s/%s->%s/%d/%s' % (gn, rin, rout, b, given)
            Rin, Rout = rin(G), rout(G)
            ni, no = Rin.size(), Rout.size()
            def f(w, c, x, y, g, G=G, Rin=Rin, Rout=Rout, given=given, b=b):
                class Inner:
                    pass
                inner = Inner()
                inner.rep_in, inner.rep_out = Rin, Rout
                class Draw:
                    d, is_permutation, is_orthogonal = G.d, G.is_permutation, G.is_orthogonal
                    def samples(self, n):
                        assert n <= b
                        return g[:n]
                inner.G = Draw() if not given else None
                class Model:
                    model = inner
                    def predict(self, q): return (q @ w) ** 2 + c
                    def __call__(self, q, training=True): return (q @ w) ** 2 + 3 * c
                with traceable(): out = M.equivariance_err(Model(), (x, y), Draw()) if given else M.equivariance_err(Model(), (x, y))
                net = Model().predict
                a = jnp.stack([net(Rin.rho_dense(g[i]) @ x[i]) for i in range(b)])
                z = jnp.stack([Rout.rho_dense(g[i]) @ net(x[i]) for i in range(b)])
                return [out], [root(a - z) / (root(a) + root(z) + jnp.abs(g - jnp.eye(g.shape[-1])).sum() / g.size)]
            ctx.identity(name, f, [Free('w', ni, no), Free('c', no), Free('x', b, ni), Free('y', b, no), Free('g', b, G.d, G.d)], eps=1e-6)


def training(ctx, C, M):
    """the parameters after any history of calls are those of gradient descent on the loss at the scheduled rates"""
    import objax
    for nb, plan in ((1, ('train 1',)), (2, ('train 1',)), (1, ('train 1', 'train 2')), (2, ('train 1', 'to 2')), (1, ('to 2', 'to 3')), (1, ('to 2', 'to 2')), (1, ('to 1', 'train 0', 'to 2')), (3, ('train 1',)), (1, ('step', 'train 1'))):
        for name, cls in (('Regressor', C.Regressor), ('RegressorPlus', M.RegressorPlus)):
            if cls is M.RegressorPlus and not ctx.thorough and (nb, plan) not in ((2, ('train 1',)), (1, ('train 1', 'train 2')), (1, ('to 2', 'to 2'))): continue
            for script in ((), (True, False)):
                def f(w, c, x, y, r, nb=nb, plan=plan, cls=cls, script=script): return descent(cls, w, c, x, y, r, nb, plan, script)
                ctx.identity('training/%s/%d batches/%s/%s' % (name, nb, ', '.join(plan), 'logging' if script else ''), f, [Free('w', 1), Free('c', 1), Free('x', nb, 1, 1), Free('y', nb, 1, 1), Free('r', 2)])
    def wrong(w, c, x, y, r):
        a, b = descent(C.Regressor, w, c, x, y, r, 1, ('train 1',), ())
        return a[:1], [b[0] + r[1]]
    ctx.vacuity('vacuity/training', wrong, [Free('w', 1), Free('c', 1), Free('x', 1, 1, 1), Free('y', 1, 1, 1), Free('r', 2)])


def descent(cls, w, c, x, y, r, nb, plan, script):
    with patched(modules()[0], tqdm=lambda it, *a, **q: it): return descend(cls, w, c, x, y, r, nb, plan, script)


def descend(cls, w, c, x, y, r, nb, plan, script):
    import objax
    model = lambda ps, q, t: q * ps[0] + (1. if t else 3.) * ps[1]
    net = network(model, (w, c), 'wc')
    rate = lambda e: r[0] + r[1] * e
    batches = Loader([(x[i], y[i]) for i in range(nb)], 1)
    logged = []
    Sub = type(cls.__name__, (cls,), dict(logStuff=lambda self, step, minibatch=None: logged.append(int(step))))
    tr = make(Sub, net, {'train': batches}, script, optim=objax.optimizer.SGD, lr_sched=rate)
    epochs, want_log, e, at = [], [], 0, 0
    want = [w, c]
    def one(i, e, want):
        g = jax.grad(lambda ps: ((model(ps, x[i], True) - y[i]) ** 2).sum() / y[i].size)(want)
        return [p - rate(e + i / nb) * q for p, q in zip(want, g)]
    def epoch(e, want, at):
        for i in range(nb):
            want = one(i, e, want)
            if script:
                if script[at % len(script)]: want_log.append(i + e * nb)
            at += 1
        return want, at
    for p in plan:
        kind, _, k = p.partition(' ')
        k = int(k or 0)
        if kind == 'step':
            tr.step(0, batches[0])
            want = one(0, 0, want)
            epochs.append((tr.epoch, e))
            continue
        if kind == 'train': tr.train(k); n = k
        else: tr.train_to(k); n = k - e
        for _ in range(n):
            want, at = epoch(e, want, at)
            e += 1
        if n: want_log.append(e * nb - 1)
        else: logged[len(want_log):] = []     # whether nothing to do is logged is left open
        epochs.append((tr.epoch, e))
    ok = all(a == b for a, b in epochs) and logged == want_log
    return [net.w.value, net.c.value, jnp.asarray(float(ok))], [want[0], want[1], jnp.ones(())]


def checkpoints(ctx, T):
    """for every sequence of metric values: the checkpoint is that of a best state so far"""
    for metric, up in (('val_MSE', False), ('test_Acc', True), (None, None)):
        for n in (2, 3) + ((4,) if ctx.thorough else ()):
            name = 'checkpoint/%s/%d' % (metric, n)
            ctx.obligation(name, lambda metric=metric, up=up, n=n, name=name: checkpoint(ctx, T, name, metric, up, n))


def checkpoint(ctx, T, name, metric, up, n):
    V = [z3.Int('m%d' % i) for i in range(n)]
    def history(values):
        loaders = {'train': Loader([(0, 0)], 1), 'val': Loader([(0, 0)], 1), 'test': Loader([(0, 0)], 1)}
        net = network(linear, (np.zeros((1, 1), np.float32), np.zeros(1, np.float32)), 'wc')
        at = [0]
        def metrics(self, loader): return {'MSE': values[at[0]], 'Acc': values[at[0]]} if loader is not loaders['train'] else {}
        Sub = type('Sub', (T.Trainer,), dict(metrics=metrics, loss=lambda self, mb: 0.))
        tr = make(Sub, net, loaders, early_stop_metric=metric)
        out = []
        for i in range(n):
            at[0] = i
            tr.epoch = i + 1
            tr.logStuff(i)
            out.append((tr.ckpt['epoch'], list(tr.ckpt['outcome'].index) if hasattr(tr.ckpt['outcome'], 'index') else None))
        return out
    def wrong(out, vals):
        """z3 condition (or bool): some checkpoint is not that of a best state"""
        bad = []
        for i, (e, idx) in enumerate(out):
            if e is None or not 1 <= e <= i + 1 or (idx is not None and idx != [e - 1]): return True
            if metric is None: bad.append(e != i + 1)
            else: bad += [(vals[k] > vals[e - 1]) if up else (vals[k] < vals[e - 1]) for k in range(i + 1)]
        return bad
    def again(vs): 
        b = wrong(ctx.real(history, list(vs)), vs)
        return b is True or any(b)
    paths = 0
    try:
        for p, out in explore(lambda: history([SymInt(v) for v in V]), [z3.And(v >= 0, v < 10) for v in V]):
            paths += 1
            b = wrong(out, V)
            cond = z3.BoolVal(True) if b is True else z3.Or(*[q if z3.is_expr(q) else z3.BoolVal(bool(q)) for q in b])
            if p.sat(cond):
                p.solver.add(cond)
                p.solver.check()
                m = p.solver.model()
                vs = [m.eval(v, model_completion=True).as_long() for v in V]
                if not again(vs): raise CheckError('counterexample %s did not reproduce' % vs)
                return ctx.violation(name, 'metrics %s: the checkpoint is not a best state (%s)' % (vs, history(vs)), dict(m=vs))
    except CheckError: raise
    except RealRaise: raise
    except Exception as e:
        for vs in itertools.product(range(3), repeat=n):
            if again(vs): return ctx.violation(name, 'metrics %s: the checkpoint is not a best state' % (vs,), dict(m=vs))
        raise CheckError('the code cannot run on symbolic metrics: %s: %s' % (type(e).__name__, str(e)[:300]))
    ctx.done(name, '%d orders of %d metrics' % (paths, n))

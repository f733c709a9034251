"""C22: Hamiltonian vector fields, flows, trajectory chunks and the physics of the example systems."""
import contextlib
import itertools
import os
import sys
import tempfile
import numpy as np
import jax
import jax.numpy as jnp
from symx.core import Free, Pos, CheckError, RealRaise
from symx import poly, smt
from symx.poly import as_poly
SHARDS = {'quick': 8, 'thorough': 8}
_mod = []


def module():
    """the dynamics code; its trainer dependency uses a name python 3.10 moved to collections.abc"""
    if not _mod:
        import collections, collections.abc
        if not hasattr(collections, 'Iterable'): collections.Iterable = collections.abc.Iterable
        sys.path.insert(0, '/repo')
        import importlib
        _mod.append(importlib.import_module('experiments.trainer.hamiltonian_dynamics'))
    return _mod[0]


@contextlib.contextmanager
def patched(obj, **names):
    old = {n: getattr(obj, n) for n in names}
    for n, v in names.items(): setattr(obj, n, v)
    try: yield
    finally:
        for n, v in old.items(): setattr(obj, n, v)


def integrator(f, z0, T, *args, **k):
    """a stand-in for odeint with its interface: the state at T[0] is z0, later states follow the field (midpoint steps)"""
    out = [z0]
    for a, b in zip(T[:-1], T[1:]):
        z, h = out[-1], b - a
        mid = z + h / 2 * f(z, a, *args)
        out.append(z + h * f(mid, a + h / 2, *args))
    return jnp.stack(out)


def euler(f, z0, T, *args, **k):
    out = [z0]
    for a, b in zip(T[:-1], T[1:]): out.append(out[-1] + (b - a) * f(out[-1], a, *args))
    return jnp.stack(out)


def J(n):
    I, O = np.eye(n), np.zeros((n, n))
    return np.block([[O, I], [-I, O]]).astype(np.float32)


def quadratic(S, c): return (lambda z: z @ S @ z / 2 + c @ z), (lambda z: (S + S.T) @ z / 2 + c)


def run(ctx):
    h = module()
    ctx.encodes('pack', 'unpack', 'symplectic_form', 'hamiltonian_dynamics', 'HamiltonianFlow', 'BHamiltonianFlow', 'BOdeFlow', 'HamiltonianDataset.*', 'SHO.H', 'DoubleSpringPendulum.H', 'rel_err', 'log_rollout_error',
                'pred_and_gt', 'IntegratedDynamicsTrainer.loss', 'IntegratedODETrainer.loss')
    ctx.assume('odeint replaced by explicit one-step integrators with its interface; sqrt(x)^2 = x, reciprocals uninterpreted with derivatives; exact real arithmetic')
    ctx.bound('phase spaces of dimension 2-6 (12 for the pendulum); all quadratic Hamiltonians and cubic ones with free coefficients; 1-3 trajectories of 2-4 time points; chunk choices: all of up to 3 rows and 4 chunks')
    T = ctx.thorough
    for n in (1, 2, 3) + ((6,) if T else ()):
        for pre in ((), (2,), (2, 3)):
            ctx.identity('symplectic form/%d/%s' % (n, pre), lambda z, n=n: ([h.symplectic_form(z)], [z @ J(n).T]), [Free('z', *pre, 2 * n)])
            ctx.identity('pack/%d/%s' % (n, pre), lambda z, n=n: ([h.pack(*h.unpack(z)), h.unpack(z)[0], h.unpack(z)[1]], [z, z[..., :n], z[..., n:]]), [Free('z', *pre, 2 * n)])
        def field(z, S, c, t, n=n):
            H, g = quadratic(S, c)
            return [h.hamiltonian_dynamics(H, z, t)], [J(n) @ g(z)]
        ctx.identity('gradient/quadratic/%d' % n, field, [Free('z', 2 * n), Free('S', 2 * n, 2 * n), Free('c', 2 * n), Free('t')])
        def cubic(z, A, t, n=n):
            H = lambda q: jnp.einsum('ijk,i,j,k->', A, q, q, q) + jnp.sin(q[0]) * q[-1]
            g = sum(jnp.einsum(s, A, z, z) for s in ('ijk,j,k->i', 'jik,j,k->i', 'jki,j,k->i')) + jnp.zeros(2 * n).at[0].add(jnp.cos(z[0]) * z[-1]).at[2 * n - 1].add(jnp.sin(z[0]))
            f = h.hamiltonian_dynamics(H, z, t)
            return [f, g @ f], [J(n) @ g, jnp.zeros(())]
        ctx.identity('gradient/cubic/%d' % n, cubic, [Free('z', 2 * n), Free('A', 2 * n, 2 * n, 2 * n), Free('t')])
    flows(ctx, h)
    systems(ctx, h)
    chunks(ctx, h)
    data(ctx, h)
    errors(ctx, h)
    def wrong(z): return [h.symplectic_form(z)], [z @ J(2)]
    ctx.vacuity('vacuity', wrong, [Free('z', 4)])


def flows(ctx, h):
    for step in (integrator, euler):
        for n, bs, nt in ((1, 1, 2), (1, 2, 3), (2, 3, 2)) + (((2, 2, 4),) if ctx.thorough else ()):
            tag = '%s/%d/%d rows/%d times' % (step.__name__, n, bs, nt)
            def one(z0, S, c, ts, step=step, n=n):
                H, g = quadratic(S, c)
                with patched(h, odeint=step): return [h.HamiltonianFlow(H, z0, ts)], [step(lambda z, t: J(n) @ g(z), z0, ts)]
            if bs == 1: ctx.identity('flow/' + tag, one, [Free('z', 2 * n), Free('S', 2 * n, 2 * n), Free('c', 2 * n), Free('t', nt)])
            def batch(z0, S, c, ts, step=step, n=n, bs=bs):
                H, g = quadratic(S, c)
                with patched(h, odeint=step): out = h.BHamiltonianFlow(H, z0, ts)
                return [out], [jnp.stack([step(lambda z, t: J(n) @ g(z), z0[b], ts) for b in range(bs)])]
            ctx.identity('batched flow/' + tag, batch, [Free('z', bs, 2 * n), Free('S', 2 * n, 2 * n), Free('c', 2 * n), Free('t', nt)])
            def ode(z0, A, B, ts, step=step, n=n, bs=bs):
                f = lambda z, t: A @ z + t * (B @ z) * z
                with patched(h, odeint=step): out = h.BOdeFlow(f, z0, ts)
                return [out], [jnp.stack([step(f, z0[b], ts) for b in range(bs)])]
            if step is euler or nt == 2: ctx.identity('ode flow/' + tag, ode, [Free('z', bs, 2 * n), Free('A', 2 * n, 2 * n), Free('B', 2 * n, 2 * n), Free('t', nt)])


def bare(cls, h):
    """the system without generating its data set"""
    with patched(h.HamiltonianDataset, __init__=lambda self, *a, **k: None): return cls()


def systems(ctx, h):
    def sho(z, t):
        ds = bare(h.SHO, h)
        return [ds.H(z), h.hamiltonian_dynamics(ds.H, z, t)], [(z[0] ** 2 + z[1] ** 2) / 2, jnp.stack([z[1], -z[0]])]
    ctx.identity('oscillator', sho, [Free('z', 2), Free('t')])
    norm = lambda v: jnp.sqrt((v ** 2).sum())
    try:
        ds = ctx.real(bare, h.DoubleSpringPendulum, h)
        k = ctx.real(stiffness, ds)
    except RealRaise as e: return ctx.violation('pendulum', 'the code raises %s' % e)
    if True:
        def pend(z):
            x1, x2, p1, p2 = z[:3], z[3:6], z[6:9], z[9:]
            H = (p1 @ p1 + p2 @ p2) / 2 + (norm(x1) - 1) ** 2 / 2 + k * (norm(x1 - x2) - 1) ** 2 + x1[2] + x2[2]
            return [ds.H(z)], [H]
        ctx.identity('pendulum/energy', pend, [Free('z', 12)])
        def forces(z, t):
            f = h.hamiltonian_dynamics(ds.H, z, t)
            x1, x2 = z[:3], z[3:6]
            spring = 2 * k * (norm(x2 - x1) - 1) / norm(x2 - x1) * (x2 - x1)
            g = jnp.array([0, 0, -1.])
            return [f], [jnp.concatenate([z[6:], -(norm(x1) - 1) / norm(x1) * x1 + spring + g, -spring + g])]
        ctx.identity('pendulum/forces', forces, [Free('z', 12), Free('t')])
    for shape in ((3,), (2, 2)):
        def rows(z, shape=shape):
            return [ds.H(z)], [sum(ds.H(q) for q in z.reshape(-1, 12))]
        ctx.identity('pendulum/energy of %s states' % (shape,), rows, [Free('z', *shape, 12)])
    ctx.obligation('pendulum/symmetry', lambda: symmetry(ctx, h))


def stiffness(ds):
    """the second spring constant over two: the paper's and the code's normalisation differ (see DESIGN.md), both are physical"""
    z = np.zeros(12, np.float32)
    z[2], z[5] = -1, -3
    k = float(ds.H(jnp.asarray(z))) + 4     # the first spring is relaxed, the second stretched by 1, the heights are -1 and -3
    return .5 if abs(k - .5) < 1e-3 else 1.


def symmetry(ctx, h):
    """H is invariant and its field equivariant under each generator, written down independently"""
    ds = ctx.real(bare, h.DoubleSpringPendulum, h)
    G, rin, rout = ds.symmetry, ds.rep_in(ds.symmetry), ds.rep_out(ds.symmetry)
    if rin.size() != 12 or rout.size() != 1: return ctx.violation('pendulum/symmetry', 'representations of size %d and %d for 12 coordinates and an energy' % (rin.size(), rout.size()))
    A = [np.asarray(rin.drho_dense(a)).astype(np.float32) for a in G.lie_algebra]
    D = [np.asarray(rin.rho_dense(a)).astype(np.float32) for a in G.discrete_generators]
    if not len(A): return ctx.violation('pendulum/symmetry', 'the declared group has no infinitesimal generator')
    block = lambda m: np.kron(np.eye(4), m)
    for M in A + D:
        if np.abs(M - block(M[:3, :3])).max() > 1e-6: return ctx.violation('pendulum/symmetry', 'positions and momenta do not transform as vectors')
    def f(z, t):
        F = lambda q: h.hamiltonian_dynamics(ds.H, q, t)
        got, want = [], []
        for a in A:
            got += [jax.jvp(ds.H, (z,), (a @ z,))[1], jax.jvp(F, (z,), (a @ z,))[1]]
            want += [jnp.zeros(()), a @ F(z)]
        for d in D:
            got += [ds.H(d @ z), F(d @ z)]
            want += [ds.H(z), d @ F(z)]
        return got, want
    ctx._guard('pendulum/symmetry', f, [Free('z', 12), Free('t')])


def chunks(ctx, h):
    """the chosen chunk of a trajectory is a run of chunk_len consecutive states of the same trajectory; every chunk can be chosen"""
    for bs, L, d, c in ((1, 4, 2, 2), (2, 6, 2, 2), (2, 6, 1, 3), (2, 7, 2, 3), (3, 5, 1, 5), (2, 8, 2, 3), (1, 9, 2, 2)) + (((3, 12, 2, 3), (2, 11, 1, 2)) if ctx.thorough else ()):
        name = 'chunks/%d trajectories of %d states/%d' % (bs, L, c)
        ctx.obligation(name, lambda name=name, bs=bs, L=L, d=d, c=c: chunk(ctx, h, name, bs, L, d, c))


def chunk(ctx, h, name, bs, L, d, c):
    zs = poly.store().array('z', (bs, L, d))
    ds = bare(h.SHO, h)
    n = [None]
    def draw(pick):
        def randint(low, high=None, size=None, **k):
            low, high = (0, low) if high is None else (low, high)
            n[0] = (int(low), int(high))
            return np.asarray(pick(int(high) - int(low)), dtype=int).reshape(size) + int(low)
        with patched(np.random, randint=randint): return np.asarray(ctx.real(ds.chunk_training_data, zs, c))
    first = draw(lambda m: np.zeros(bs))
    if n[0] is None: raise CheckError('the choice of the chunks is not drawn from numpy\'s randint')
    m = n[0][1] - n[0][0]
    if first.shape != (bs, c, d): return ctx.violation(name, 'chunks of shape %s, expected %s' % (first.shape, (bs, c, d)))
    pairs, starts, joint = [], [set() for _ in range(bs)], set()
    for pick in itertools.product(range(m), repeat=bs):
        out, row = draw(lambda _: pick), []
        for b in range(bs):
            at = [s for s in range(L - c + 1) if all(as_poly(p).t == as_poly(q).t for p, q in zip(out[b].reshape(-1), zs[b, s:s + c].reshape(-1)))]
            s = at[0] if at else pick[b] * c
            starts[b].add(s)
            row.append(s)
            pairs += [('%s row %d' % (pick, b), as_poly(p), as_poly(q)) for p, q in zip(out[b].reshape(-1), zs[b, s:s + c].reshape(-1))]
        joint.add(tuple(row))
    v, bad = smt.decide(pairs)
    if v == 'sat':
        return ctx.violation(name, 'the chunk chosen for %s is not a run of consecutive states of its own trajectory' % bad[0][0])
    if v != 'unsat': raise CheckError('solver returned unknown')
    for b in range(bs):
        if len(starts[b]) < L // c: return ctx.violation(name, 'only %d of %d chunks of trajectory %d can be chosen' % (len(starts[b]), L // c, b))
    if len(joint) < (L // c) ** bs: return ctx.violation(name, 'the chunks of different trajectories are not chosen independently (%d of %d combinations)' % (len(joint), (L // c) ** bs))
    ctx.done(name, '%d choices' % m ** bs)


def data(ctx, h):
    """generation, storage and times of a data set; files go to a scratch directory"""
    for nsys, bs in ((1, 100), (3, 2), (4, 2), (5, 3), (2, 2)):
        name = 'generated trajectories/%d systems/batches of %d' % (nsys, bs)
        def gen(*z0, nsys=nsys, bs=bs):
            ds, used = bare(h.SHO, h), [0]
            b = min(bs, nsys)
            def sample(k):
                used[0] += k
                return jnp.concatenate([z[None] for z in z0])[used[0] - k:used[0]]
            ds.sample_initial_conditions = sample
            with patched(h, odeint=euler): zs = ds.generate_trajectory_data(nsys, .25, .75, bs=bs)
            ts = jnp.array([0, .25, .5])
            rot = lambda z, t: jnp.stack([z[1], -z[0]])
            return [zs], [jnp.stack([euler(rot, z, ts) for z in z0[:nsys]])]
        ctx.identity(name, gen, [Free('z%d' % k, 2) for k in range(2 * nsys)])
    for c, dt, total in ((5, .2, 2.), (3, .1, 1.2), (3, .2, 1.9), (2, .3, 2.), (6, .1, 1.), (7, .7, 11.)):
        name = 'data set/chunks of %d/dt %g/time %g' % (c, dt, total)
        ctx.obligation(name, lambda name=name, c=c, dt=dt, total=total: dataset(ctx, h, name, c, dt, total))


@contextlib.contextmanager
def scratch(h):
    with tempfile.TemporaryDirectory() as d:
        old = os.environ.get('HOME')
        os.environ['HOME'] = d
        try: yield d
        finally:
            if old is None: del os.environ['HOME']
            else: os.environ['HOME'] = old


def dataset(ctx, h, name, c, dt, total):
    """the states are symbolic: what is stored is a chunk of what was generated, and loading it again gives the same"""
    made = []
    n = 3
    L = len(np.asarray(jnp.arange(0, total, dt)))
    store = {}
    def gen(self, k, step, T, *a, **kw):
        made.append((k, step, T))
        return zs
    zs = poly.store().array('z', (n, L, 2))
    def save(obj, path): store[path] = obj
    def load(path, *a, **k): return store[path]
    with scratch(h) as home, patched(h.HamiltonianDataset, generate_trajectory_data=gen), patched(h.torch, save=save, load=load), patched(h.os.path, exists=lambda p: p in store):
        a = ctx.real(h.SHO, n, c, dt, total)
        b = ctx.real(h.SHO, n, c, dt, total)
        others = [ctx.real(h.SHO, n, c, dt, total, True)]
        others += [ctx.real(h.SHO, *q) for q in ((n + 1, c, dt, total), (n, c - 1, dt, total), (n, c, 2 * dt, total), (n, c, dt, 2 * total))]
        other = ctx.real(h.DoubleSpringPendulum, n, c, dt, total)
    if made[0] != (n, dt, total): return ctx.violation(name, 'trajectories were generated for %s' % (made[0],))
    if len(made) != 7: return ctx.violation(name, '%d of 7 different data sets were generated (one request was a repetition)' % len(made))
    Z = np.asarray(a.Zs)
    if Z.shape != (n, c, 2): return ctx.violation(name, 'data of shape %s, expected %s' % (Z.shape, (n, c, 2)))
    if np.asarray(a.T).shape != (c,): return ctx.violation(name, '%d evaluation times for chunks of %d states' % (len(a.T), c))
    if len(a.T_long) != L: return ctx.violation(name, '%d evaluation times for rollouts of %d states' % (len(a.T_long), L))
    if np.abs(np.asarray(a.T) - dt * np.arange(c)).max() > 1e-5 or np.abs(np.asarray(a.T_long) - dt * np.arange(L)).max() > 1e-4: return ctx.violation(name, 'the evaluation times are not multiples of dt')
    pairs = [('reload', as_poly(p), as_poly(q)) for p, q in zip(Z.reshape(-1), np.asarray(b.Zs).reshape(-1))]
    if len(a) != n: return ctx.violation(name, 'len is %d for %d systems' % (len(a), n))
    for i in range(n):
        (z0, T), target = a[i]
        pairs += [('initial', as_poly(p), as_poly(q)) for p, q in zip(z0, Z[i, 0])] + [('target', as_poly(p), as_poly(q)) for p, q in zip(np.asarray(target).reshape(-1), Z[i].reshape(-1))]
        if len(T) != c: return ctx.violation(name, 'item %d has %d times' % (i, len(T)))
    v, bad = smt.decide(pairs)
    if v == 'sat': return ctx.violation(name, 'stored and returned states differ (%s)' % bad[0][0])
    if v != 'unsat': raise CheckError('solver returned unknown')
    # the real files, in a scratch directory
    with scratch(h):
        def gen2(self, k, *r, **q): return jnp.asarray(np.random.default_rng(0).standard_normal((k, L, 2)), jnp.float32)
        with patched(h.HamiltonianDataset, generate_trajectory_data=gen2):
            p = ctx.real(h.SHO, n, c, dt, total)
            q = ctx.real(h.SHO, n, c, dt, total)
        if np.asarray(q.Zs).shape != np.asarray(p.Zs).shape or np.abs(np.asarray(q.Zs) - np.asarray(p.Zs)).max() > 0: return ctx.violation(name, 'loading the stored data gives other states')
    ctx.done(name, '%d states' % Z[..., 0].size)


def errors(ctx, h):
    root = lambda v: jnp.sqrt((v ** 2).mean())
    for s in ((1,), (3,), (2, 2)):
        ctx.identity('relative error/%s' % (s,), lambda a, b: ([h.rel_err(a, b), h.rel_err(a, a)], [root(a - b) / (root(a) + root(b)), jnp.zeros(())]), [Free('a', *s), Free('b', *s)], eps=1e-6)
    class DS:
        def __init__(self, H, T): self.H, self.T_long, self.T = H, T, T[:2]
    for bs, nt in ((1, 2), (2, 2), (2, 3)):
        args = [Free('z', bs, 2), Free('S', 2, 2), Free('c', 2), Free('R', 2, 2), Free('e', 2), Free('t', nt), Free('y', bs, nt, 2)]
        def setup(z0, S, c, R, e, ts):
            H, g = quadratic(S, c)
            M, k = quadratic(R, e)
            roll = lambda f: jnp.stack([euler(lambda z, t: f(z, t), z, ts) for z in z0])
            field = lambda g: lambda z, t: J(1) @ g(z)
            return H, M, roll(field(k)), roll(field(g)), roll
        def geo(p, q):
            errs = jnp.stack([jnp.stack([root(p[b, i] - q[b, i]) / (root(p[b, i]) + root(q[b, i])) for i in range(nt)]) for b in range(bs)])
            return jnp.log(jax.lax.clamp(1e-7, errs, np.inf)).mean()
        def hnn(z0, S, c, R, e, ts, y, setup=setup):
            H, M, p, q, roll = setup(z0, S, c, R, e, ts)
            mb = (z0, jnp.stack([ts] * bs)), y
            with patched(h, odeint=euler):
                both = pandg(h.pred_and_gt, DS(H, ts), M, mb, h)
                tr = h.IntegratedDynamicsTrainer.__new__(h.IntegratedDynamicsTrainer)
                tr.model = M
                loss = h.IntegratedDynamicsTrainer.loss(tr, mb)
            return [both, loss], [jnp.stack([p, q], -1), ((p - y) ** 2).mean()]
        ctx.identity('rollouts/hnn/%d/%d' % (bs, nt), hnn, args)
        def logs(z0, S, c, R, e, ts, y, setup=setup, geo=geo):
            H, M, p, q, roll = setup(z0, S, c, R, e, ts)
            f = lambda z, t: R @ z + e
            mb = (z0, jnp.stack([ts] * bs)), y
            with patched(h, odeint=euler): out = [h.log_rollout_error(DS(H, ts), M, mb), h.log_rollout_error_ode(DS(H, ts), f, mb)]
            return out, [geo(p, q), geo(roll(f), q)]
        if bs * nt <= 4: ctx.identity('rollouts/errors/%d/%d' % (bs, nt), logs, args, eps=1e-6)
        def ode(z0, S, c, R, e, ts, y, setup=setup):
            H, M, p, q, roll = setup(z0, S, c, R, e, ts)
            f = lambda z, t: R @ z * z[0] + t * e
            p = roll(f)
            mb = (z0, jnp.stack([ts] * bs)), y
            with patched(h, odeint=euler):
                both = pandg(h.pred_and_gt_ode, DS(H, ts), f, mb, h)
                tr = h.IntegratedODETrainer.__new__(h.IntegratedODETrainer)
                tr.model = f
                loss = h.IntegratedODETrainer.loss(tr, mb)
            return [both, loss], [jnp.stack([p, q], -1), ((p - y) ** 2).mean()]
        ctx.identity('rollouts/ode/%d/%d' % (bs, nt), ode, args)


def pandg(f, ds, model, mb, h):
    with patched(np, stack=jnp.stack): return f(ds, model, mb)

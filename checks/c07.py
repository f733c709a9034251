"""C07: canonical ordering is a consistent change of coordinates; splitting by type yields blocks of that type."""
import itertools
import numpy as np
import jax.numpy as jnp
from symx.core import GL, Free
from symx import exprs as X
SHARDS = {'quick': 8, 'thorough': 8}


def run(ctx):
    gs = X.groups()
    ctx.encodes('SumRep.canonicalize', 'ProductRep.canonicalize', 'DirectProduct.canonicalize', 'Rep.canonicalize', 'SumRep.as_dict', 'compute_canonical', 'distribute_product', 'SumRepFromCollection')
    ctx.assume('inv(M) by contract; exact real arithmetic')
    maxn = 48 if ctx.thorough else 27
    ctx.bound('all matrices of dimension 2-4, all vectors; expressions of dimension <= %d' % maxn)
    from emlp.reps.product_sum_reps import SumRep
    for name, e, o in X.family(gs, ctx.thorough, maxn, ctx.seed, 80 if ctx.thorough else 24, thin=3, offset=3):
        if e[0] == 'S': continue
        N, names = X.size(e, gs), sorted(X.gnames(e))
        def f(*a, e=e, o=o, names=names, N=N):
            with X.ordered(o, gs):
                Ms, v = dict(zip(names, a)), a[len(names)]
                rep = X.build(e, gs)
                crep, perm = rep.canonicalize()
                perm = np.asarray(perm)
                M = X.element(e, gs, Ms)
                gv = X.rho(e, Ms, gs) @ v
                isperm = float((np.sort(perm) == np.arange(N)).all())
                got, want = [jnp.array([isperm, crep.size()]), crep.rho(M) @ v[perm]], [jnp.array([1., N]), gv[perm]]
                c2, p2 = crep.canonicalize()          # canonical form is a fixed point
                got.append(v[np.asarray(p2)]); want.append(v)
                got.append(jnp.array([float(c2 == crep), float(hash(c2) == hash(crep))])); want.append(jnp.ones(2))
                if isinstance(rep, SumRep):
                    d, dg = rep.as_dict(v), rep.as_dict(gv)
                    got.append(jnp.array(float(sum(b.shape[-2] * b.shape[-1] for b in d.values())))); want.append(jnp.array(float(N)))
                    for r in d:
                        act = r.rho(M if not (isinstance(M, dict) and not hasattr(r, 'G')) else M)
                        got.append(dg[r]); want.append((act @ d[r].reshape(-1, r.size()).T).T.reshape(d[r].shape))
                    vb = jnp.stack([v, gv])
                    db = rep.as_dict(vb)
                    for r in d: got.append(db[r]); want.append(jnp.stack([d[r], dg[r]]))
                    for shape in ((2, 1), (1, 2)):                    # any number of leading dimensions
                        dm = rep.as_dict(vb.reshape(shape + (N,)))
                        for r in d: got.append(dm[r]); want.append(db[r].reshape(shape + d[r].shape))
                return got, want
        ctx.identity(name, f, [GL('M' + g, gs[g].d) for g in names] + [Free('v', N)])
    # all orders and bracketings of the same terms share one canonical form
    terms = {'SL2': [X.V('SL2'), X.D(X.V('SL2')), X.pw(X.V('SL2'), 2), X.Sc], 'SL2+S3': [X.V('SL2'), X.V('S3'), X.times(X.V('SL2'), X.V('S3')), X.V('SL2')],
             'SO2+Z3': [X.V('SO2'), X.V('Z3'), X.Sc, X.times(X.V('Z3'), X.V('SO2'))]}
    for label, ts in terms.items():
        names = sorted(set().union(*[X.gnames(t) for t in ts]))
        for op, combine in (('sum', X.plus), ('product', X.times)):
            use = ts if op == 'sum' else [t for t in ts if t[0] != '^'][:3]
            perms = list(itertools.permutations(use))
            for q in perms[1:] if ctx.thorough else perms[1::3]:
                e0, e1 = combine(*use), combine(*q)
                if X.size(e0, gs) > maxn: continue
                for o in ([None] if len(names) == 1 else [tuple(names), tuple(names[::-1])]):
                    N = X.size(e0, gs)
                    def g(*a, e0=e0, e1=e1, o=o, names=names):
                        with X.ordered(o, gs):
                            Ms, v = dict(zip(names, a)), a[len(names)]
                            c0, c1 = X.build(e0, gs).canonicalize()[0], X.build(e1, gs).canonicalize()[0]
                            M = X.element(e0, gs, Ms)
                            return [jnp.array([float(c0 == c1), float(hash(c0) == hash(c1))]), c0.rho(M) @ v], [jnp.ones(2), c1.rho(M) @ v]
                    ctx.identity('reorder/%s vs %s%s' % (X.show(e0), X.show(e1), '' if o is None else '/order ' + '<'.join(o)), g, [GL('M' + h, gs[h].d) for h in names] + [Free('v', N)])
    # the canonical order may not depend on hash values, on what the shared Scalar was last called with, or on the order of the terms
    from emlp.reps import Scalar
    families = {'SL2': [X.V('SL2'), X.Sc, X.D(X.V('SL2')), X.times(X.V('SL2'), X.V('SL2'))], 'SO2': [X.V('SO2'), X.Sc, X.pw(X.V('SO2'), 2)],
                'mixed': [X.pw(X.V('S3'), 2), X.V('SL2'), X.times(X.V('S3'), X.V('SL2')), X.Sc], 'mixed2': [X.pw(X.V('SO2'), 2), X.V('Z3'), X.Sc, X.times(X.V('SO2'), X.V('O1'))]}
    for label, ts in families.items():
        names = sorted(set().union(*[X.gnames(t) for t in ts]))
        perms = list(itertools.permutations(ts))
        for k, q in enumerate(perms if ctx.thorough else perms[::5] if len(perms) > 6 else perms):
            for o in ([None] if len(names) == 1 else [tuple(names), tuple(names[::-1])]):
                for sign in (1, -1) if ctx.thorough else ((1, -1)[k % 2],):
                    N = sum(X.size(t, gs) for t in q)
                    def h(*a, q=q, ts=ts, o=o, names=names, N=N, sign=sign):
                        with X.ordered(o, gs), X.collide(sign):
                            Ms, v = dict(zip(names, a)), a[len(names)]
                            by_hash = sorted((gs[g].G for g in gs if gs[g]._g is not None or g in ('SO2', 'SL2', 'S3', 'Z3', 'O3')), key=hash)
                            ends = [by_hash[0], by_hash[-1], None]
                            build = lambda ts: [X.build(t, gs) for t in ts]
                            def join(q, first):
                                out = q[0]
                                for i, t in enumerate(q[1:]):
                                    Scalar.G = ends[(first + i) % 3]
                                    out = out + t
                                return out
                            got, want = [], []
                            reps = [join(build(q), j) for j in range(3)] + [join(build(ts), 1)]
                            M = X.element(X.plus(*q), gs, Ms)
                            R = X.rho(X.plus(*q), Ms, gs)
                            ends.append(ends.pop(0))
                            for j in range(3):
                                Scalar.G = ends[j]
                                rep = reps[j]
                                got.append(rep.rho(M) @ v); want.append(R @ v)
                                c0, p0 = rep.canonicalize()
                                c1, p1 = reps[3].canonicalize()
                                got.append(c0.rho(M) @ v[np.asarray(p0)]); want.append((R @ v)[np.asarray(p0)])
                                got += [c0.rho(M) @ v, jnp.array([float(c0 == c1), float(hash(c0) == hash(c1))])]; want += [c1.rho(M) @ v, jnp.ones(2)]
                            big = reps[0] + reps[1]
                            got.append(big.rho(M) @ jnp.concatenate([v, 2 * v])); want.append(jnp.concatenate([R @ v, 2 * (R @ v)]))
                            Scalar.G = None
                            return got, want
                    ctx.identity('history/%s%s/hash%+d' % (X.show(X.plus(*q)), '' if o is None else '/order ' + '<'.join(o), sign), h, [GL('M' + g, gs[g].d) for g in names] + [Free('v', N)])
    def wrong(M, v):
        rep = X.build(X.plus(X.times(X.V('SL2'), X.V('SL2')), X.V('SL2')), gs)
        crep, perm = rep.canonicalize()
        return [crep.rho(M) @ v], [X.rho(X.plus(X.times(X.V('SL2'), X.V('SL2')), X.V('SL2')), {'SL2': M}, gs) @ v]
    ctx.vacuity('vacuity', wrong, [GL('M', 2), Free('v', 6)])

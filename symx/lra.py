"""Linear real arithmetic queries about matrices."""
import numpy as np
import scipy.linalg
import z3
from . import smt
from .core import CheckError


def realify(M):
    """rows acting on (re, im) when complex"""
    M = np.asarray(M)
    if not np.iscomplexobj(M) or not np.abs(M.imag).max(initial=0) > 0: return np.asarray(M.real, dtype=float)
    return np.block([[M.real, -M.imag], [M.imag, M.real]])


def _row(r, digits, v):
    nz = [(i, x) for i, x in enumerate(r) if abs(round(x, digits)) > 0]
    return '(+ %s 0)' % ' '.join('(* %s %s%d)' % (smt.rat(round(x, digits)), v, i) for i, x in nz) if nz else None


def _solve(txt, n, v, timeout=120000):
    s = z3.SolverFor('QF_LRA')
    s.from_string('\n'.join(txt))
    r = smt.check(s, timeout)
    if r == 'unknown': raise CheckError('solver returned unknown')
    if r == 'unsat': return None
    m = s.model()
    return np.array([smt.val(m, z3.Real('%s%d' % (v, i))) for i in range(n)])


def kernel_vector(K, tol=1e-4, digits=6):
    """a vector u with max |u_i| = 1 (real, or over real and imaginary parts) and |K u| <= tol, or None if there is none"""
    K = np.asarray(K)
    N = K.shape[1]
    R = realify(K)
    tol = np.broadcast_to(tol, (len(K),))
    if len(R) > len(K): tol = np.tile(tol, 2)
    n = R.shape[1]
    if n == 0: return None
    smt.STATS['entries'] += len(R)
    # fewer rows constrain less: unsat for a well conditioned subset is unsat for all
    if len(R) > n:
        pick = scipy.linalg.qr(R.T, pivoting=True, mode='r')[1][:n]
        pick = np.sort(pick)
        if _kernel(R[pick], n, tol[pick], digits) is None: return None
    u = _kernel(R, n, tol, digits)
    return u if u is None or n == N else u[:N] + 1j * u[N:]


def _kernel(R, n, tol, digits):
    txt = ['(declare-const u%d Real)(assert (and (<= (- 1) u%d) (<= u%d 1)))' % (i, i, i) for i in range(n)]
    for r, b in zip(R, tol):
        t = _row(r, digits, 'u')
        if t: txt.append('(assert (let ((d %s)) (and (<= (- %s) d) (<= d %s))))' % (t, smt.rat(b), smt.rat(b)))
    txt.append('(assert (or %s false))' % ' '.join('(= u%d 1)' % i for i in range(n)))
    return _solve(txt, n, 'u')


def echelon(K, tol):
    """(rows, tolerances): |K u| <= tol implies |rows u| <= tolerances; the rows are a reduced echelon form of K, which is sparser"""
    K = np.asarray(K)
    tol = np.broadcast_to(tol, (len(K),))
    if len(K) < 2 or len(K) > K.shape[1]: return K, tol
    piv = scipy.linalg.qr(K, pivoting=True, mode='r')[1][:len(K)]
    try: R = np.linalg.inv(K[:, piv])
    except np.linalg.LinAlgError: return K, tol
    if not np.isfinite(R).all() or np.abs(R).sum(1).max() > 30: return K, tol
    w = np.abs(R) @ tol
    return R @ K, w * 2 ** .5 if np.iscomplexobj(R) else w


def moved(D, eps):
    """a real vector w in the unit box with |D w| > eps somewhere, or None"""
    D = np.asarray(D)
    rows = np.concatenate([D.real, D.imag]) if np.iscomplexobj(D) and np.abs(D.imag).max(initial=0) > 0 else np.asarray(D.real, dtype=float)
    if rows.size == 0: return None
    n = rows.shape[1]
    smt.STATS['entries'] += len(rows)
    txt = ['(declare-const w%d Real)(assert (and (<= (- 1) w%d) (<= w%d 1)))' % (i, i, i) for i in range(n)]
    dis = []
    for r in rows:
        t = _row(r, 10, 'w')
        if t: dis.append('(let ((d %s)) (or (> d %s) (< d (- %s))))' % (t, smt.rat(eps), smt.rat(eps)))
    if not dis: return None
    txt.append('(assert (or %s false))' % ' '.join(dis))
    return _solve(txt, n, 'w', 60000)


def separates(C, K, tol=1e-4, eps=1e-2):
    """a real vector (re, im parts when complex) w in the unit box with |C w| <= tol and |K w| > eps somewhere, or None"""
    cplx = any(np.iscomplexobj(M) and np.abs(np.asarray(M).imag).max(initial=0) > 0 for M in (C, K))
    two = (lambda M: np.block([[np.asarray(M).real, -np.asarray(M).imag], [np.asarray(M).imag, np.asarray(M).real]])) if cplx else (lambda M: np.asarray(M).real.astype(float))
    C, K = two(C), two(K)
    n = K.shape[1]
    smt.STATS['entries'] += len(C) + len(K)
    txt = ['(declare-const w%d Real)(assert (and (<= (- 1) w%d) (<= w%d 1)))' % (i, i, i) for i in range(n)]
    for r in C:
        t = _row(r, 7, 'w')
        if t: txt.append('(assert (let ((d %s)) (and (<= (- %s) d) (<= d %s))))' % (t, smt.rat(tol), smt.rat(tol)))
    dis = []
    for r in K:
        t = _row(r, 7, 'w')
        if t: dis.append('(let ((d %s)) (or (> d %s) (< d (- %s))))' % (t, smt.rat(eps), smt.rat(eps)))
    if not dis: return None
    txt.append('(assert (or %s false))' % ' '.join(dis))
    return _solve(txt, n, 'w', 60000)


def diagonal_kernel_vector(c, K, tol=1e-4, digits=6):
    """as kernel_vector for the rows diag(c) and K (real): the coordinates that diag(c) bounds by less than 1 are eliminated, what they can contribute to K is added to the tolerance"""
    smt.STATS['entries'] += len(c) + len(K)
    c, K = np.asarray(c, float), np.asarray(K, float)
    bound = np.minimum(1., tol / np.maximum(np.abs(c), tol))
    free = np.flatnonzero(bound >= 1)
    if not len(free): return None
    slack = np.abs(np.delete(K, free, 1)) @ np.delete(bound, free)
    txt = ['(declare-const u%d Real)(assert (and (<= (- 1) u%d) (<= u%d 1)))' % (i, i, i) for i in range(len(free))]
    for r, b in zip(*echelon(K[:, free], tol + slack)):
        t = _row(r, digits, 'u')
        if t: txt.append('(assert (let ((d %s)) (and (<= (- %s) d) (<= d %s))))' % (t, smt.rat(b), smt.rat(b)))
    txt.append('(assert (or %s false))' % ' '.join('(= u%d 1)' % i for i in range(len(free))))
    u = _solve(txt, len(free), 'u')
    if u is None: return None
    out = np.zeros(len(c))
    out[free] = u
    return out

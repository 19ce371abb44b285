"""Fallback to z3: linear integer arithmetic over monomials."""
import time
import poly
from poly import IP

STATS = {'queries': 0, 'time': 0.0, 'proved': 0}
TIMEOUT = 8000


def closure(p, limit=400):
    """floor definitions and facts relevant for p"""
    seen, todo = set(), list(p.vars())
    rows = []
    hops = 0
    while len(rows) < limit:
        if not todo:
            # path conditions that mention these variables
            hops += 1
            if hops > 2:
                break
            for F in poly.OVER:
                for q in F:
                    vs = q.vars()
                    if len(q.d) <= 12 and not vs <= seen and (vs & seen or any(base_vars(v) & seen for v in vs)):
                        todo += list(vs)
            if not todo:
                break
        v = todo.pop(0)
        if v in seen:
            continue
        seen.add(v)
        D = poly.C.defn[v]
        if D is not None and D[0] in ('floor', 'negfloor'):
            B, k, off = D[1], D[2], D[3]
            fl = IP.var(v) + off if D[0] == 'floor' else -IP.var(v)
            rows.append((B - fl * (1 << k), 0, (1 << k) - 1))
            todo += list(B.vars())
    for F in [poly.C.facts] + poly.OVER:
        for q, (l, h) in F.items():
            if len(q.d) <= 40 and q.vars() <= seen:
                rows.append((q, l, h))
    return seen, rows


def base_vars(v):
    D = poly.C.defn[v]
    return D[1].vars() if D is not None and D[0] in ('floor', 'negfloor') else frozenset()


def prove_range(p, lo, hi):
    import z3
    t0 = time.time()
    STATS['queries'] += 1
    try:
        seen, rows = closure(p)
        if len(rows) > 600 or len(p.d) > 300:
            return False
        s = z3.Solver()
        s.set('timeout', TIMEOUT)
        mv = {}

        def mono(m):
            if m not in mv:
                x = z3.Int('m' + '_'.join(map(str, m)))
                mv[m] = x
                r = poly.mono_iv(m)
                if r is not None:
                    s.add(x >= r[0], x <= r[1])
                if len(m) > 1 and all(poly.C.isb[v] for v in m):
                    # product of 0/1 variables
                    fs = [mono((v,)) for v in m]
                    s.add(*[x <= y for y in fs])
                    s.add(x >= z3.Sum(fs) - (len(fs) - 1))
            return mv[m]

        def term(q):
            t = []
            for m, c in q.d.items():
                t.append(z3.IntVal(c) if not m else z3.IntVal(c) * mono(m))
            return z3.Sum(t) if t else z3.IntVal(0)
        for q, l, h in rows:
            t = term(q)
            if l is not None:
                s.add(t >= l)
            if h is not None:
                s.add(t <= h)
        g = term(p)
        conds = []
        if lo is not None:
            conds.append(g < lo)
        if hi is not None:
            conds.append(g > hi)
        s.add(z3.Or(*conds))
        r = s.check()
        ok = r == z3.unsat
        if ok:
            STATS['proved'] += 1
        return ok
    finally:
        STATS['time'] += time.time() - t0


# ---------------------------------------------------------------- bit vectors
def bv_term(x, leaves, memo):
    """operation DAG of a machine value -> z3 bit-vector; leaves: IP -> (V, var)"""
    import z3
    key = id(x)
    if key in memo:
        return memo[key][1]
    w, s = x.ty
    n = x.node
    r = None
    c = x.const()
    if c is not None:
        r = z3.BitVecVal(c, w)
    elif isinstance(n, tuple) and n[0] in ('+', '-', '*', '&', '|', '^', '&^', '<<', '>>') and len(n) == 3:
        a, b = n[1], n[2]
        if n[0] in ('<<', '>>'):
            k = b.const()
            if k is None or a.ty[0] != w:
                return None
            A = bv_term(a, leaves, memo)
            if A is None:
                return None
            if k >= w:
                k = w - 1 if (n[0] == '>>' and a.ty[1]) else w
            r = A << k if n[0] == '<<' else (A >> k if a.ty[1] else z3.LShR(A, k))
            if k == w:
                r = z3.BitVecVal(0, w)
        else:
            if a.ty[0] != w or b.ty[0] != w:
                return None
            A, B = bv_term(a, leaves, memo), bv_term(b, leaves, memo)
            if A is None or B is None:
                return None
            r = {'+': lambda: A + B, '-': lambda: A - B, '*': lambda: A * B, '&': lambda: A & B, '|': lambda: A | B,
                 '^': lambda: A ^ B, '&^': lambda: A & ~B}[n[0]]()
    elif isinstance(n, tuple) and n[0] in ('==', '!=', '<', '<=', '>', '>=') and len(n) == 3:
        a, b = n[1], n[2]
        if a.ty != b.ty:
            return None
        A, B = bv_term(a, leaves, memo), bv_term(b, leaves, memo)
        if A is None or B is None:
            return None
        sg = a.ty[1]
        f = {'==': lambda: A == B, '!=': lambda: A != B, '<': lambda: A < B if sg else z3.ULT(A, B), '<=': lambda: A <= B if sg else z3.ULE(A, B),
             '>': lambda: A > B if sg else z3.UGT(A, B), '>=': lambda: A >= B if sg else z3.UGE(A, B)}[n[0]]()
        r = z3.If(f, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    elif isinstance(n, tuple) and n[0] == 'conv':
        a = n[1]
        A = bv_term(a, leaves, memo)
        if A is None:
            return None
        aw, asg = a.ty
        if aw == w:
            r = A
        elif aw > w:
            r = z3.Extract(w - 1, 0, A)
        else:
            r = z3.SignExt(w - aw, A) if asg else z3.ZeroExt(w - aw, A)
    if r is None:
        if x.p in leaves:
            v = leaves[x.p]
            if v[0].ty != x.ty:
                return None
            r = v[1]
        else:
            r = z3.BitVec('leaf%d' % len(leaves), w)
            leaves[x.p] = (x, r)
    memo[key] = (x, r)
    return r


def bv_nonzero(r):
    """If the 0/1 value r is, for all leaf values, [some leaf != 0] or its
    negation: (leaves as list of V, polarity); otherwise None."""
    import z3
    t0 = time.time()
    STATS['queries'] += 1
    try:
        leaves, memo = {}, {}
        t = bv_term(r, leaves, memo)
        if t is None or not leaves or len(leaves) > 80:
            return None
        w = r.ty[0]
        pre = []
        for x, v in leaves.values():
            lo, hi = x.lo, x.hi
            if lo is None or hi is None:
                continue
            if x.ty[1]:
                pre += [v >= lo, v <= hi]
            else:
                pre += [z3.UGE(v, lo), z3.ULE(v, hi)]
        nz = z3.Or(*[v != 0 for _, v in leaves.values()])
        for pol in (1, 0):
            s = z3.Solver()
            s.set('timeout', TIMEOUT)
            s.add(*pre)
            want = z3.If(nz, z3.BitVecVal(pol, w), z3.BitVecVal(1 - pol, w))
            s.add(t != want)
            if s.check() == z3.unsat:
                STATS['proved'] += 1
                return [x for x, _ in leaves.values()], pol
        return None
    finally:
        STATS['time'] += time.time() - t0


def bv_leaves(r):
    leaves, memo = {}, {}
    if bv_term(r, leaves, memo) is None or len(leaves) > 80:
        return None
    return [x for x, _ in leaves.values()]


def bv_differ(r, X, Y):
    """If the 0/1 value r is, for all leaf values, [X != Y] digit by digit: 1;
    if it is [X == Y]: 0; otherwise None."""
    import z3
    t0 = time.time()
    STATS['queries'] += 1
    try:
        leaves, memo = {}, {}
        t = bv_term(r, leaves, memo)
        bp = {x.p: v for x, v in leaves.values()}
        pre = []
        for x, v in leaves.values():
            if x.lo is None or x.hi is None:
                continue
            pre += [v >= x.lo, v <= x.hi] if x.ty[1] else [z3.UGE(v, x.lo), z3.ULE(v, x.hi)]
        ps = [(bp.get(a.p), bp.get(b.p)) for a, b in zip(X, Y)]
        if any(a is None or b is None or a.size() != b.size() for a, b in ps):
            return None
        nz = z3.Or(*[a != b for a, b in ps])
        w = r.ty[0]
        for pol in (1, 0):
            s = z3.Solver()
            s.set('timeout', TIMEOUT)
            s.add(*pre)
            s.add(t != z3.If(nz, z3.BitVecVal(pol, w), z3.BitVecVal(1 - pol, w)))
            if s.check() == z3.unsat:
                STATS['proved'] += 1
                return pol
        return None
    finally:
        STATS['time'] += time.time() - t0

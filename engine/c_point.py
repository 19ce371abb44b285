"""Contracts of the curve-point functions (properties C09, C15)."""
from vc import *
import point
from point import G, PV, PtCell, boxes, abstract, geq, inside, hull


def E(name):
    return meth(ED, 'ExtendedPoint', name)


def CP(name):
    return meth(ED, 'CompletedPoint', name)


def PJ(name):
    return meth(ED, 'ProjectivePoint', name)


def NP(name):
    return meth(ED, 'NielsPoint', name)


def R(name):
    return meth(RT, 'Point', name)


class PtS(Shape):
    """a valid curve point in one of the coordinate systems"""

    def __init__(self, kind='ext', inc='pub', outc='norm', torsion=False):
        self.kind, self.inc, self.outc, self.torsion = kind, inc, outc, torsion

    def variants(self, ex):
        return boxes(ex).classes(self.kind, self.inc)

    def make(self, ex, st, obj, name):
        g = G.sym(('P', name))
        box = ex.variant.get(name) or self.variants(ex)[0][1]
        st.mem[obj] = PtCell(self.kind, g, box)
        return PV(g, box, st.mem[obj])

    def get(self, ex, st, ptr):
        node = ex.load_raw(st, ptr)
        a = abstract(ex, st, self.kind, node)
        if a is None:
            return None
        g, box = a
        for _, cls in boxes(ex).classes(self.kind, self.inc):
            if inside(box, cls):
                return PV(g, box)
        return None

    def put(self, ex, st, ptr, pv):
        box = pv.box
        if box is None:
            box = boxes(ex).classes(self.kind, self.outc)[0][1]
        ex.store(st, ptr, PtCell(self.kind, pv.g, box))

    def check_node(self, ex, st, node, pv, what=''):
        a = abstract(ex, st, self.kind, node)
        if a is None:
            return [('value', False, 'the coordinates are not those of the specified point%s' % what)]
        g, box = a
        out = [('value', geq(g, pv.g, self.torsion), 'represents the specified point%s%s' % (what, ' up to 4-torsion' if self.torsion else ''))]
        ok = any(inside(box, cls) for _, cls in boxes(ex).classes(self.kind, self.outc))
        out.append(('bounds', ok, 'limbs within the %s bounds%s' % (self.outc, what)))
        return out

    def check(self, ex, st, ptr, pv):
        return self.check_node(ex, st, ex.load_raw(st, ptr), pv)


class PtSel(PtS):
    """in/out parameter of a conditional assignment"""

    def check(self, ex, st, ptr, pv):
        if not hasattr(pv, 'sel') or pv.sel is None:
            return super().check(ex, st, ptr, pv)
        p0, p1, bv = pv.sel
        node = ex.load_raw(st, ptr)
        out = []
        for b, x in ((0, p0), (1, p1)):
            n = symexec.subst_node(node, {bv: b})
            out += self.check_node(ex, st, n, x, ' (b = %d)' % b)
        return out


class PVSel(PV):
    __slots__ = ('sel',)


def condset(A, p='p', q='q', b='b'):
    P, Q, B = A[p], A[q], A[b]
    if A.get('_apply') and not any(inside(hull(P.box, Q.box), c) for k in ('ext', 'niels') for _, c in boxes(A['_ex']).classes(k, 'pub') if len(c) == len(P.box)):
        return None
    r = PVSel((P.g + (Q.g - P.g).times(B)).norm(), hull(P.box, Q.box))
    vs = B.vars()
    r.sel = None
    if len(vs) == 1 and B == IP.var(next(iter(vs))) and not A.get('_apply'):
        r.sel = (P, Q, next(iter(vs)))
    return {p: r}


def build(reg):
    def add(c):
        reg[c.fn] = c
    pub = PtS('ext', 'pub', 'norm')
    keep = PtS('ext', 'pub', 'pub')
    B = G.sym(('B',))

    def op(fn, kind, ins, f, props, outc='norm', torsion=False, internal=False, alias=True, apply=True):
        """ins: list of (name, shape)"""
        add(Contract(fn, [('p', Junk(PtS(kind, 'pub', outc, torsion)), 'out')] + [(n, s, 'in') for n, s in ins],
                     lambda A: {'p': f(*[A[n] for n, _ in ins])}, props, ret=('ptr', 'p'), internal=internal, alias=alias, apply=apply))
    P9 = ['C09']
    q1, q2 = [('q', pub)], [('q', pub), ('r', pub)]
    for M, api in ((E, False), (R, True)):
        op(M('Add'), 'ext', q2, lambda a, b: PV(a.g + b.g), P9)
        op(M('Sub'), 'ext', q2, lambda a, b: PV(a.g - b.g), P9)
        op(M('Double'), 'ext', q1, lambda a: PV(a.g.times(2)), P9)
        op(M('Neg'), 'ext', q1, lambda a: PV(-a.g, a.box), P9, 'pub')
        op(M('Set'), 'ext', q1, lambda a: PV(a.g, a.box), P9, 'pub', apply=False)
        op(M('SetZero'), 'ext', [], lambda: PV(G({})), P9)
        op(M('SetBase'), 'ext', [], lambda: PV(B), P9, 'pub', torsion=True, apply=False)
        add(Contract(M('ConditionalSet'), [('p', PtSel('ext', 'pub', 'pub'), 'inout'), ('q', keep, 'in'), ('b', Int(I32, 0, 1), 'val')],
                     condset, ['C15'], ret=None if api else ('ptr', 'p')))
    # internal coordinate systems
    kw = dict(internal=True)
    norm = PtS('ext', 'norm', 'norm')
    proj, comp, niels = PtS('proj', 'pub'), PtS('comp', 'cp'), PtS('niels', 'niels')
    op(CP('AddExtended'), 'comp', q2, lambda a, b: PV(a.g + b.g), P9, 'cp', **kw)
    op(CP('SubExtended'), 'comp', q2, lambda a, b: PV(a.g - b.g), P9, 'cp', **kw)
    op(CP('DoubleExtended'), 'comp', q1, lambda a: PV(a.g.times(2)), P9, 'cp', **kw)
    op(CP('DoubleProjective'), 'comp', [('q', proj)], lambda a: PV(a.g.times(2)), P9, 'cp', **kw)
    op(CP('AddExtendedNiels'), 'comp', [('q', norm), ('r', niels)], lambda a, b: PV(a.g + b.g), P9, 'cp', **kw)
    op(CP('SubExtendedNiels'), 'comp', [('q', norm), ('r', niels)], lambda a, b: PV(a.g - b.g), P9, 'cp', **kw)
    op(E('SetCompleted'), 'ext', [('q', comp)], lambda a: PV(a.g), P9, 'norm', **kw)
    op(PJ('SetCompleted'), 'proj', [('q', comp)], lambda a: PV(a.g), P9, 'norm', **kw)
    op(PJ('SetExtended'), 'proj', q1, lambda a: PV(a.g, a.box and a.box[:3]), P9, 'pub', **kw)
    op(PJ('SetZero'), 'proj', [], lambda: PV(G({})), P9, 'norm', **kw)
    op(NP('SetZero'), 'niels', [], lambda: PV(G({})), P9, 'niels', **kw)
    op(NP('Set'), 'niels', [('q', niels)], lambda a: PV(a.g, a.box), P9, 'niels', apply=False, **kw)
    op(NP('Neg'), 'niels', [('q', niels)], lambda a: PV(-a.g), P9, 'niels', **kw)
    op(NP('SetExtended'), 'niels', q1, lambda a: PV(a.g), P9, 'niels', **kw)
    add(Contract(NP('ConditionalSet'), [('p', PtSel('niels', 'niels', 'niels'), 'inout'), ('q', niels, 'in'), ('b', Int(I32, 0, 1), 'val')],
                 condset, P9, ret=('ptr', 'p'), internal=True))
    for i in (1, 2, 3):
        op(E('SetTorsion%d' % i), 'ext', [], lambda i=i: PV(G({('tor', i): IP.const(1)})), P9, 'norm', **kw)

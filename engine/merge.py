"""Joining of execution states at control-flow joins.

Two states that reached the same program point with the same concrete loop
counters are replaced by one.  A value of the joined state is a polynomial that
equals the value of state A under A's path conditions and that of B under B's:
monomials on which A and B agree are kept; a monomial of A that vanishes under
B's substitution is kept; otherwise it is multiplied by the indicator of A's
case, taken from a variable whose cases in A and B are disjoint.  A location
for which this is impossible becomes unusable.
"""
import poly
from poly import IP
import val
from val import V
import symexec
from symexec import State, Opaque, Slice, Ptr, Tup, Cell, Panic, NIL, FnVal
import field
from field import FP, FECell, SCCell, BYCell


class SymPtr:
    """a pointer to one of several locations: [(condition, Ptr)]"""
    __slots__ = ('cases',)

    def __init__(self, cases):
        self.cases = cases

    def sub(self, i):
        return SymPtr([(c, Ptr(p.obj, p.path + (i,))) for c, p in self.cases])

    def subst(self, env):
        return SymPtr([(c.subst(env), p) for c, p in self.cases])


class Fail(Exception):
    pass


POISON = Opaque('poison')


def full(key):
    if isinstance(key, tuple):
        return frozenset((0, 1))
    return frozenset([None] + [v for v, _ in poly.C.groups[key]])


def alive(st, key):
    return st.ghost.get('alive', {}).get(key, None) or full(key)


def indicator(key, cases):
    """0/1 polynomial of a set of cases"""
    if isinstance(key, tuple):
        v = IP.var(key[1])
        return v if cases == frozenset((1,)) else 1 - v
    mem = [v for v, _ in poly.C.groups[key]]
    if None in cases:
        r = IP.const(1)
        for v in mem:
            if v not in cases:
                r = r - IP.var(v)
        return r
    r = IP({})
    for v in mem:
        if v in cases:
            r = r + IP.var(v)
    return r


class Merger:
    def __init__(self, ex, A, B):
        self.ex, self.A, self.B = ex, A, B
        a, b = A.ghost.get('alive', {}), B.ghost.get('alive', {})
        self.disc = None
        self.changed = False
        for k in sorted(set(a) | set(b), key=lambda k: (isinstance(k, tuple), k if not isinstance(k, tuple) else k[1])):
            x, y = alive(A, k), alive(B, k)
            if not (x & y):
                self.disc = (k, x, y)
        self.poison = 0

    def inds(self):
        if self.disc is None:
            raise Fail()
        self.spend()
        k, x, y = self.disc
        # the indicator relative to the joined state
        return indicator(k, x), indicator(k, y)

    def spend(self):
        # dead values of different histories must not be combined at any price
        self.budget -= 1
        if self.budget < 0:
            raise Fail()

    def vanish(self, m, env):
        for v in m:
            e = env.get(v)
            if e is None:
                continue
            if (isinstance(e, int) and e == 0) or (isinstance(e, IP) and not e.d):
                return True
        return False

    def ip(self, p, q):
        if p is q or p.d == q.d:
            return p
        r = {}
        extra = IP({})
        self.budget = 24
        ea, eb = self.A.env, self.B.env
        for m, c in p.d.items():
            d = q.d.get(m, 0)
            if d == c:
                r[m] = c
                continue
            if d == 0:
                if self.vanish(m, eb):
                    r[m] = c
                    continue
                extra = extra + self.inds()[0] * IP({m: c})
            else:
                ia, ib = self.inds()
                extra = extra + ia * IP({m: c}) + ib * IP({m: d})
        for m, d in q.d.items():
            if m in p.d:
                continue
            if self.vanish(m, ea):
                r[m] = d
            else:
                extra = extra + self.inds()[1] * IP({m: d})
        return IP(r) + extra

    def fp(self, p, q):
        if p is q or p.d == q.d:
            return p
        r = {}
        extra = FP({}, p.mod)
        self.budget = 24
        ea, eb = self.A.env, self.B.env
        fi = lambda i: field.fp(self.inds()[i], p.mod)
        for m, c in p.d.items():
            d = q.d.get(m, 0)
            if d == c:
                r[m] = c
            elif d == 0 and self.vanish([v for v, _ in m], eb):
                r[m] = c
            else:
                extra = extra + fi(0) * FP({m: c}, p.mod)
                if d:
                    extra = extra + fi(1) * FP({m: d}, p.mod)
        for m, d in q.d.items():
            if m in p.d:
                continue
            if self.vanish([v for v, _ in m], ea):
                r[m] = d
            else:
                extra = extra + fi(1) * FP({m: d}, p.mod)
        return FP(r, p.mod) + extra

    def group(self, g, h):
        import point
        if g is h or g == h:
            return g
        out = {}
        z = IP({})
        for k in set(g.d) | set(h.d):
            out[k] = self.ip(g.d.get(k, z), h.d.get(k, z))
        return point.G(out).norm()

    def node(self, a, b, pois=True):
        try:
            return self.node1(a, b, pois)
        except Fail:
            if not pois:
                raise
            self.poison += 1
            return POISON

    def node1(self, a, b, pois):
        import point
        if a is b:
            return a
        if isinstance(a, V) and isinstance(b, V):
            if a.ty != b.ty:
                raise Fail()
            if a.p == b.p:
                return V(a.ty, a.p, min(a.lo, b.lo), max(a.hi, b.hi), a.node)
            p = self.ip(a.p, b.p)
            lo, hi = min(a.lo, b.lo), max(a.hi, b.hi)
            self.facts.append((p, lo, hi))
            return V(a.ty, p, lo, hi, None)
        if isinstance(a, point.TableCell) and type(b) is list:
            a = a.materialise(self.ex, self.A, None)
        elif isinstance(b, point.TableCell) and type(a) is list:
            b = b.materialise(self.ex, self.B, None)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(self.node(x, y) for x, y in zip(a, b))
        if type(a) is list and type(b) is list:
            if len(a) != len(b):
                raise Fail()
            return [self.node1(x, y, pois) for x, y in zip(a, b)]
        if isinstance(a, point.PtCell) or isinstance(b, point.PtCell):
            kind = a.kind if isinstance(a, point.PtCell) else b.kind
            x, y = self.abs(self.A, kind, a), self.abs(self.B, kind, b)
            if x is None or y is None:
                raise Fail()
            return point.PtCell(kind, self.group(x[0], y[0]), point.hull(x[1], y[1]))
        if isinstance(a, FECell) and isinstance(b, FECell):
            return FECell(self.fp(a.f, b.f), [(min(p[0], q[0]), max(p[1], q[1])) for p, q in zip(a.b, b.b)])
        if isinstance(a, (SCCell, BYCell)) and type(a) is type(b):
            p = self.ip(a.p, b.p)
            return SCCell(p) if isinstance(a, SCCell) else BYCell(p, a.n)
        if isinstance(a, Ptr) and a == b:
            return a
        if isinstance(a, Slice) and isinstance(b, Slice):
            if a.obj == b.obj and a.path == b.path and a.off == b.off and a.len == b.len and a.cap == b.cap:
                return a
        if isinstance(a, FnVal) and isinstance(b, FnVal) and a.name == b.name and list(a.bind) == list(b.bind):
            return a
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag:
            if a.data is b.data or (isinstance(a.data, (str, IP, type(None))) and a.data == b.data):
                return a
        if isinstance(a, Cell) and isinstance(b, Cell) and type(a) is type(b) and hasattr(a, 'same') and a.same(b):
            return a
        if type(a) is type(b) and not isinstance(a, (Cell, Opaque, SymPtr)) and a == b:
            return a
        raise Fail()

    def abs(self, st, kind, n):
        import point
        if isinstance(n, point.PtCell):
            return (n.g, n.box) if n.kind == kind else None
        if type(n) is not list:
            return None
        self.ex.push_facts(st)
        return point.abstract(self.ex, st, kind, n)

    def run(self, ra, rb):
        """-> (state, merged extra node) or None"""
        A, B = self.A, self.B
        if not A.ghost.get('alive') and not B.ghost.get('alive'):
            return None
        for k in set(A.ghost) | set(B.ghost):
            if k in ('alive', 'webs'):
                continue
            if A.ghost.get(k) != B.ghost.get(k):
                return None
        self.facts = []
        st = State()
        for o in A.mem:
            if o in B.mem:
                st.mem[o] = self.node(A.mem[o], B.mem[o])
        regs = None
        if isinstance(ra, dict):
            regs = {}
            for k in ra:
                if k == '!defers':
                    same = lambda a, b: a is b or (type(a) is list and type(b) is list and len(a) == len(b) and all(map(same, a, b)))
                    if k in rb and same(ra[k], rb[k]):
                        regs[k] = ra[k]
                elif k in rb:
                    regs[k] = self.node(ra[k], rb[k])
        else:
            try:
                regs = self.node(ra, rb, False)
            except Fail:
                return None
        st.env = {v: x for v, x in A.env.items() if v in B.env and (B.env[v] is x or B.env[v] == x)}
        n = 0
        for f, g in zip(A.facts, B.facts):
            if f != g:
                break
            n += 1
        st.facts = [dict(f) for f in A.facts[:n]] + [{}]
        st.path = [p for p, q in zip(A.path, B.path) if p == q] + ['joined']
        st.ghost = dict(A.ghost)
        al = {}
        a, b = A.ghost.get('alive', {}), B.ghost.get('alive', {})
        for k in a:
            if k in b:
                u = a[k] | b[k]
                if u != full(k):
                    al[k] = u
        st.ghost['alive'] = al
        self.ex.push_facts(st)
        for p, lo, hi in self.facts:
            if not p.is_const():
                poly.add_fact(p, lo, hi, path=True)
        return st, regs


def join(ex, items):
    """items: [(state, regs or result)] at the same point -> shorter list"""
    out = []
    for st, r in items:
        for i, (s2, r2) in enumerate(out):
            m = Merger(ex, s2, st).run(r2, r)
            if m is not None:
                out[i] = m
                break
        else:
            out.append((st, r))
    return out


# ------------------------------------------------------------ scheduling
class Flow:
    """control-flow facts of a function: joins, loops, counters"""

    def __init__(self, f):
        self.f = f
        bl = f['blocks']
        n = len(bl)
        self.rpo = {}
        seen, order = set(), []

        def dfs(b):
            stack = [(b, iter(bl[b]['succs']))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(bl[y]['succs'])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(0)
        for i, b in enumerate(reversed(order)):
            self.rpo[b] = i
        self.joins = {b for b in range(n) if len(bl[b]['preds']) > 1}
        # dominators (small functions: iterative sets)
        dom = {b: set(seen) for b in seen}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in reversed(order):
                if b == 0:
                    continue
                ps = [p for p in bl[b]['preds'] if p in seen]
                d = set.intersection(*[dom[p] for p in ps]) | {b} if ps else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.loops = {}
        for b in seen:
            for s in bl[b]['succs']:
                if s in dom[b]:
                    body = self.loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack += [p for p in bl[x]['preds'] if p in seen]
        self.depth = {b: sum(1 for h, body in self.loops.items() if b in body) for b in seen}
        # counter webs
        defs = {}
        for b in seen:
            for x in bl[b]['instrs']:
                if 'id' in x:
                    defs[x['id']] = (b, x)
        par = {}

        def find(x):
            while par.get(x, x) != x:
                x = par[x]
            return x
        self.dir = {}
        steps = []
        stepwebs = []

        def consts(i, seen_=()):
            """the constants that a phi chooses between, or None"""
            y = defs.get(i, (0, {'op': None}))[1]
            if y['op'] != 'phi':
                return None
            out = set()
            for e in y['edges']:
                if e is not None and e.get('k') == 'const' and isinstance(e.get('v'), (int, str)) and not isinstance(e.get('v'), bool):
                    try:
                        out.add(int(e['v']))
                    except ValueError:
                        return None
                elif e is not None and e.get('k') == 'reg':
                    if e['n'] in seen_ or e['n'] == i:
                        continue
                    c = consts(e['n'], seen_ + (i,))
                    if c is None:
                        return None
                    out |= c
                else:
                    return None
            return out
        for i, (b, x) in defs.items():
            if x['op'] == 'phi':
                par.setdefault(i, i)
        for i, (b, x) in defs.items():
            if x['op'] != 'phi':
                continue
            for e in x['edges']:
                s = 0
                while e is not None and e.get('k') == 'reg' and e['n'] in defs:
                    y = defs[e['n']][1]
                    if y['op'] == 'phi':
                        par[find(i)] = find(e['n'])
                        if s:
                            steps.append((i, s))
                        break
                    if y['op'] == 'bin' and y['tok'] in '+-' and y['y'].get('k') == 'const' and 'v' in y['y']:
                        c = int(y['y']['v']) if not isinstance(y['y']['v'], bool) else 0
                        s += c if y['tok'] == '+' else -c
                        e = y['x']
                        continue
                    if y['op'] == 'bin' and y['tok'] in '+-' and y['y'].get('k') == 'reg':
                        # a step that is one of several constants
                        cs = consts(y['y']['n'])
                        if cs and (min(cs) > 0 or max(cs) < 0):
                            s += max(cs, key=abs) * (1 if y['tok'] == '+' else -1)
                            stepwebs.append(y['y']['n'])
                            e = y['x']
                            continue
                    break
        for i, s in steps:
            self.dir[find(i)] = 1 if s > 0 else -1
        for i in stepwebs:
            if i in par:
                self.dir.setdefault(find(i), 1)
        self.web = {i: find(i) for i in par}
        # webs ordered by the depth of their outermost header
        wd = {}
        for i, w in self.web.items():
            b = defs[i][0]
            if w in self.dir and b in self.loops:
                wd[w] = min(wd.get(w, (99, 0)), (self.depth[b], self.rpo[b]))
        self.order = [w for w in sorted(wd, key=lambda w: wd[w])]

        # counters live at the start of a block
        def uses(x):
            if isinstance(x, dict):
                if x.get('k') == 'reg' and 'n' in x:
                    yield x['n']
                for v in x.values():
                    yield from uses(v)
            elif isinstance(x, list):
                for v in x:
                    yield from uses(v)
        cnt = {i for i, w in self.web.items() if w in self.dir}
        gen, kill, pu = {}, {}, {}
        for b in seen:
            k, g, pp = set(), set(), {}
            for x in bl[b]['instrs']:
                if x['op'] == 'phi':
                    for p, e in zip(bl[b]['preds'], x['edges']):
                        pp.setdefault(p, set()).update(u for u in uses(e) if u in cnt)
                else:
                    g |= {u for u in uses(x) if u in cnt and u not in k}
                if 'id' in x:
                    k.add(x['id'])
            gen[b], kill[b], pu[b] = g, k, pp
        # phi inputs count as uses at the end of the predecessor
        self.live = {b: set() for b in seen}
        ch = True
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in bl[b]['succs']:
                    o |= (self.live[s] - {i for i in kill[s] if defs[i][1]['op'] == 'phi'}) | pu[s].get(b, set())
                n = gen[b] | (o - kill[b]) | {i for i in kill[b] if i in cnt and defs[i][1]['op'] == 'phi' and (i in o or i in gen[b])}
                if n != self.live[b]:
                    self.live[b] = n
                    ch = True

        # variables in memory (captured by a closure, or their address is passed on)
        # that a loop loads and changes: treated like counters while they are live
        self.mem = {}
        self.memdir = {}
        alloc = {i: b for i, (b, x) in defs.items() if x['op'] == 'alloc'}
        if self.loops and alloc:
            refs = {i: set() for i in alloc}
            dirs, init = {}, {}
            for b in seen:
                for x in bl[b]['instrs']:
                    us = set(uses(x))
                    for i in us & set(alloc):
                        refs[i].add(b)
                        if x['op'] == 'makeclosure':
                            # where the closure is used
                            for b2 in seen:
                                if any(x['id'] in set(uses(y)) for y in bl[b2]['instrs']):
                                    refs[i].add(b2)
                    if x['op'] == 'store' and x['addr'].get('k') == 'reg' and x['addr']['n'] in alloc:
                        i, v = x['addr']['n'], x['val']
                        if v.get('k') == 'const' and isinstance(v.get('v'), (int, str)) and not isinstance(v.get('v'), bool):
                            init.setdefault(i, v['v'])
                        elif v.get('k') == 'reg' and v['n'] in defs:
                            y = defs[v['n']][1]
                            if y['op'] == 'bin' and y['tok'] in '+-':
                                dirs.setdefault(i, 1 if y['tok'] == '+' else -1)
            reach = {b: {b} for b in seen}
            ch = True
            while ch:
                ch = False
                for b in order:
                    n = set(reach[b])
                    for s in bl[b]['succs']:
                        n |= reach[s]
                    if n != reach[b]:
                        reach[b] = n
                        ch = True
            for i in alloc:
                ins = [self.depth[b] for b in refs[i] if self.depth[b] > self.depth[alloc[i]]]
                if ins:
                    try:
                        dn = int(init.get(i, 0)) > 0
                    except ValueError:
                        dn = False
                    self.mem[i] = {b for b in seen if reach[b] & refs[i]}
                    if i in dirs:
                        self.memdir[i] = dirs[i]
                    self.dir[('m', i)] = dirs.get(i, -1 if dn else 1)
                    self.order.append(('m', i))

    def prio(self, webs, b):
        return tuple(self.dir[w] * webs.get(w, 0) if w in webs else -10 ** 9 for w in self.order) + (-self.depth[b], self.rpo[b])


def flow(f):
    x = f.get('_flow')
    if x is None:
        x = f['_flow'] = Flow(f)
    return x

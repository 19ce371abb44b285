"""Symbolic execution of Go SSA over exact integer polynomials.

Every function call is either replaced by the callee's contract (hooks) or
inlined.  Loops with concrete trip counts are executed completely; branches on
symbolic conditions fork the state.
"""
import sys
import poly
from poly import IP, iv
import val
from val import V, con, Unsupported, BOOL
sys.setrecursionlimit(20000)


class VerifFail(Exception):
    def __init__(self, kind, msg, pos=''):
        super().__init__('%s: %s %s' % (kind, msg, pos))
        self.kind, self.msg, self.pos = kind, msg, pos


class Ptr:
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj, self.path = obj, path

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj == self.obj and o.path == self.path

    def __hash__(self):
        return hash((self.obj, self.path))

    def __repr__(self):
        return 'Ptr(%s%s)' % (self.obj, ''.join('.%s' % (i,) for i in self.path))


class Slice:
    """slice of an array object: elements path+(off+i,), 0<=i<len"""
    __slots__ = ('obj', 'path', 'off', 'len', 'cap')

    def __init__(self, obj, path, off, ln, cap):
        self.obj, self.path, self.off, self.len, self.cap = obj, path, off, ln, cap

    def __repr__(self):
        return 'Slice(%s%s[%s:+%s])' % (self.obj, self.path, self.off, self.len)


class BufCell:
    """content of a byte buffer of symbolic length: byte i is a function of the
    token; if n is given, only the first n bytes are known"""
    __slots__ = ('token', 'n')

    def __init__(self, token, n=None):
        self.token, self.n = token, n

    def __repr__(self):
        return 'Buf(%s)' % (self.token,)

    def byte(self, i):
        if self.n is not None and not i < len_iv(self.n)[0]:
            raise VerifFail('unsupported', 'access to unknown bytes of a buffer')
        return buf_byte(self.token, i)


def len_iv(n):
    """bounds of a length"""
    if isinstance(n, int):
        return n, n
    lo, hi = poly.meet((n.lo, n.hi), iv(n.p))
    return poly.meet((lo, hi), poly.best_iv(n.p)) if lo != hi else (lo, hi)


def slice_len_iv(st, s):
    """bounds of the length of a slice; a decoder has written n bytes to it"""
    lo, hi = len_iv(s.len)
    c = st.mem.get(s.obj)
    if isinstance(c, BufCell) and c.n is not None and not s.path and s.off == 0 and not isinstance(s.len, int):
        lo = max(lo, len_iv(c.n)[0])
    return lo, hi


def buf_byte(token, i):
    T = poly.C.extra.setdefault('bufbytes', {})
    k = (token, i)
    if k not in T:
        T[k] = val.sym((8, False), '%s[%d]' % (token[1] if isinstance(token[1], str) else token[0], i))
    return T[k]


def buf_len(token):
    T = poly.C.extra.setdefault('buflen', {})
    if token not in T:
        T[token] = val.sym(val.INT, 'len(%s)' % (token,), 0, val.LENMAX)
    return T[token]


def new_buf(ex, st, name):
    token = ('buf', name)
    o = ex.new_obj(-1, name)
    st.mem[o] = BufCell(token)
    n = buf_len(token)
    cap = val.sym(val.INT, 'cap(%s)' % name, 0, val.LENMAX)
    poly.add_fact(cap.p - n.p, 0, None)
    return Slice(o, (), 0, n, cap)


def buf_token(ex, st, x):
    """token of a slice holding a complete symbolic buffer"""
    if isinstance(x, Slice):
        n = st.mem.get(x.obj)
        if isinstance(n, BufCell) and x.off == 0 and not x.path:
            ln = buf_len(n.token)
            if not isinstance(x.len, int) and x.len.p == ln.p:
                return n.token
            if 'lenenv' in st.ghost and st.ghost['lenenv'].get(n.token) == x.len:
                return n.token
    return None


class Opaque:
    """A value the verifier does not look into (error, big.Int, string ...)."""
    __slots__ = ('tag', 'data')

    def __init__(self, tag, data=None):
        self.tag, self.data = tag, data

    def __repr__(self):
        return 'Opaque(%s,%s)' % (self.tag, self.data)


class Nil:
    def __repr__(self):
        return 'nil'


NIL = Nil()


class Tup(list):
    """tuple of results"""


class FnVal:
    def __init__(self, name, bind=()):
        self.name, self.bind = name, bind


RESUME = 'resume'


class Cell:
    """Abstract value of a memory node; subclasses materialise to lists."""
    def materialise(self, ex, st, tid):
        raise NotImplementedError


def clone(n):
    if type(n) is list:
        return [clone(x) for x in n]
    return n


class State:
    __slots__ = ('mem', 'facts', 'path', 'env', 'ghost')

    def __init__(self):
        self.mem = {}
        self.facts = []
        self.path = []
        self.env = {}
        self.ghost = {}

    def fork(self):
        s = State()
        s.mem = {k: clone(v) for k, v in self.mem.items()}
        s.facts = [dict(f) for f in self.facts]
        s.path = list(self.path)
        s.env = dict(self.env)
        s.ghost = dict(self.ghost)
        return s


class Panic:
    def __init__(self, why, pos):
        self.why, self.pos = why, pos

    def __repr__(self):
        return 'Panic(%s at %s)' % (self.why, self.pos)


def subst_node(n, env):
    if type(n) is list:
        return [subst_node(x, env) for x in n]
    if isinstance(n, V):
        p = n.p.subst(env)
        if p is n.p:
            return n
        lo, hi = poly.meet(iv(p), (n.lo, n.hi))
        return V(n.ty, p, lo, hi, n.node)
    if isinstance(n, Tup):
        return Tup(subst_node(x, env) for x in n)
    if isinstance(n, Cell) or hasattr(n, 'cases'):
        return n.subst(env)
    if isinstance(n, Slice) and isinstance(n.len, V):
        l = n.len.p.subst(env)
        if l is n.len.p:
            return n
        ln = l.cval() if l.is_const() else V(n.len.ty, l, n.len.lo, n.len.hi)
        cap = subst_node(n.cap, env) if isinstance(n.cap, V) else n.cap
        return Slice(n.obj, n.path, n.off, ln, cap)
    if isinstance(n, Opaque) and isinstance(n.data, IP):
        d = n.data.subst(env)
        return n if d is n.data else Opaque(n.tag, d)
    return n


class Exec:
    def __init__(self, prog, hooks=None, globals_mem=None):
        self.prog = prog
        self.hooks = hooks or {}
        self.nobj = 0
        self.nact, self.act, self.allocs = 0, [], {}
        self.obj_t = {}          # object id -> type id of its content
        self.obj_name = {}
        self.globals = {}        # name -> object id
        self.obs = []            # (kind, ok, msg, pos)
        self.steps = 0
        self.max_steps = 3_000_000
        self.writes = None
        self.inlined = set()
        self.applied = {}
        self.stack = []
        self.no_hook = set()
        self.inject = None
        self.park = []

    # ------------------------------------------------------------ objects
    def new_obj(self, tid, name=''):
        self.nobj += 1
        o = 'o%d' % self.nobj
        self.obj_t[o] = tid
        self.obj_name[o] = name
        return o

    def zero(self, tid):
        t = self.prog.types[tid]
        k = t['k']
        if k == 'basic':
            ty = self.prog.int_ty(tid)
            if ty is not None:
                return con(ty, 0)
            if t['name'] in ('string', 'untyped string'):
                return Opaque('str', '')
            return NIL
        if k == 'array':
            return [self.zero(t['elem']) for _ in range(t['len'])]
        if k == 'struct':
            if t.get('pkg') == 'math/big':
                return Opaque('big', IP.const(0))
            return [self.zero(f[1]) for f in t['fields']]
        return NIL

    def unpoison(self, node, tid):
        """an unusable location, component by component"""
        if isinstance(node, Opaque) and node.tag == 'poison':
            t = self.prog.types[tid]
            if t['k'] == 'array':
                return [node] * t['len']
            if t['k'] == 'struct':
                return [node] * len(t['fields'])
        return node

    def sub_tid(self, tid, i):
        t = self.prog.types[tid]
        if t['k'] == 'array':
            return t['elem']
        if t['k'] == 'struct':
            return t['fields'][i][1]
        raise VerifFail('unsupported', 'no sub-object in %s' % t['str'])

    def ptr_tid(self, p):
        tid = self.obj_t[p.obj]
        for i in p.path:
            tid = self.sub_tid(tid, i)
        return tid

    def _navigate(self, st, p, upto):
        """node list and its type at p.path[:upto], materialising cells on the way"""
        root = st.mem[p.obj]
        if isinstance(root, BufCell):
            if upto != 1 or len(p.path) != 1:
                raise VerifFail('unsupported', 'access to a buffer of symbolic length')
            return root.byte(p.path[0]), self.byte_tid()
        tid = self.obj_t[p.obj]
        path = p.path[:upto]
        if isinstance(root, Cell) and path:
            root = root.materialise(self, st, tid)
            st.mem[p.obj] = root
        node = root
        for n, i in enumerate(path):
            node = self.unpoison(node, tid)
            tid = self.sub_tid(tid, i)
            child = node[i]
            if isinstance(child, Cell) and n + 1 < len(path):
                child = child.materialise(self, st, tid)
                node[i] = child
            node, parent = child, node
        return node, tid

    def load(self, st, p):
        if hasattr(p, 'cases'):
            return self.load_sym(st, p)
        if not isinstance(p, Ptr):
            raise VerifFail('nil', 'load through %r' % (p,))
        if p.obj not in st.mem:
            raise VerifFail('unsupported', 'load of unknown object %s' % self.obj_name.get(p.obj))
        node, tid = self._navigate(st, p, len(p.path))
        return clone(node)

    def load_sym(self, st, p):
        """the value behind one of several pointers"""
        return self.choose(st, [(c, self.load(st, q)) for c, q in p.cases])

    def choose(self, st, vals):
        """one of several values, of which exactly one condition holds"""
        import field

        def comb(ns):
            a = ns[0][1]
            if all(isinstance(n, V) for _, n in ns):
                t = IP({})
                for c, n in ns:
                    t = t + c * n.p
                return val.mkf(a.ty, t, (min(n.lo for _, n in ns), max(n.hi for _, n in ns)), None)
            if all(isinstance(n, field.FECell) for _, n in ns):
                f = field.FP({})
                for c, n in ns:
                    f = f + field.fp(c) * n.f
                b = [(min(x[0] for x in bs), max(x[1] for x in bs)) for bs in zip(*[n.b for _, n in ns])]
                return field.FECell(f, b)
            import point
            k = next((n.kind for _, n in ns if isinstance(n, point.PtCell)), None)
            if k is not None:
                g, box = point.G({}), None
                for c, n in ns:
                    a = point.abstract(self, st, k, n)
                    if a is None:
                        break
                    g = g + a[0].times(c)
                    box = a[1] if box is None else point.hull(box, a[1])
                else:
                    return point.PtCell(k, g.norm(), box)
            if all(type(n) is list for _, n in ns):
                return [comb([(c, n[i]) for c, n in ns]) for i in range(len(a))]
            if any(isinstance(n, field.FECell) for _, n in ns):
                return comb([(c, n.materialise(self, st, None) if isinstance(n, field.FECell) else n) for c, n in ns])
            raise VerifFail('unsupported', 'load through a symbolic index')
        return comb(vals)

    def materialised(self, st, p):
        """as load, but cells below are turned into lists"""
        v = self.load(st, p)
        return self.mat_value(st, v, self.ptr_tid(p))

    def mat_value(self, st, v, tid):
        if isinstance(v, Cell):
            v = v.materialise(self, st, tid)
        if type(v) is list:
            return [self.mat_value(st, x, self.sub_tid(tid, i)) for i, x in enumerate(v)]
        return v

    def store(self, st, p, v):
        if isinstance(p, Ptr) and p.path and isinstance(st.mem.get(p.obj), BufCell):
            raise VerifFail('unsupported', 'write into a buffer of symbolic length')
        if hasattr(p, 'cases'):
            for c, q in p.cases:
                self.store(st, q, self.choose(st, [(c, v), (1 - c, self.load(st, q))]))
            return
        if not isinstance(p, Ptr):
            raise VerifFail('nil', 'store through %r' % (p,))
        v = clone(v)
        if self.writes is not None:
            self.writes.add(p.obj)
        if not p.path:
            st.mem[p.obj] = v
            return
        root = st.mem[p.obj]
        if isinstance(root, Cell):
            root = root.materialise(self, st, self.obj_t[p.obj])
            st.mem[p.obj] = root
        root = st.mem[p.obj] = self.unpoison(root, self.obj_t[p.obj])
        node = root
        tid = self.obj_t[p.obj]
        for i in p.path[:-1]:
            tid = self.sub_tid(tid, i)
            child = node[i]
            if isinstance(child, Cell):
                child = child.materialise(self, st, tid)
                node[i] = child
            child = node[i] = self.unpoison(child, tid)
            node = child
        node[p.path[-1]] = v

    # ------------------------------------------------------------ obligations
    def ob(self, kind, ok, msg, pos=''):
        self.obs.append((kind, bool(ok), msg, pos))
        return ok

    # ------------------------------------------------------------ operands
    def operand(self, st, regs, o):
        if o is None:
            return None
        k = o['k']
        if k == 'reg':
            return regs[o['n']]
        if k == 'const':
            ty = self.prog.int_ty(o['t'])
            if 'str' in o:
                return Opaque('str', o['str'])
            v = o.get('v')
            if ty is not None and v is not None:
                if isinstance(v, bool):
                    return con(BOOL, int(v))
                return con(ty, val.wrapc(ty, int(v)))
            if v is None and 'other' not in o:
                return self.zero(o['t'])
            raise VerifFail('unsupported', 'constant %r' % (o,))
        if k == 'global':
            return Ptr(self.global_obj(st, o['n'], o['t']))
        if k == 'func':
            return FnVal(o['n'])
        if k == 'free':
            return regs['free:' + o['n']]
        if k == 'builtin':
            return o
        raise VerifFail('unsupported', 'operand %r' % (o,))

    def global_obj(self, st, name, ptr_tid):
        if name not in self.globals:
            o = self.new_obj(self.prog.elem(ptr_tid), name)
            self.globals[name] = o
        o = self.globals[name]
        if o not in st.mem:
            gi = getattr(self, 'global_init', {}).get(name)
            if gi is not None:
                st.mem[o] = gi(self, st) if callable(gi) else clone(gi)
            else:
                st.mem[o] = self.zero(self.obj_t[o]) if name.startswith(('github.com/bwesterb',)) else Opaque('global', name)
        return o

    def global_by_name(self, st, name, tid):
        if name not in self.globals:
            o = self.new_obj(tid, name)
            self.globals[name] = o
        o = self.globals[name]
        if o not in st.mem:
            gi = getattr(self, 'global_init', {}).get(name)
            st.mem[o] = self.zero(tid) if gi is None else (gi(self, st) if callable(gi) else clone(gi))
        return o

    def big_tid(self):
        for i, t in enumerate(self.prog.types):
            if t.get('pkg') == 'math/big' and t.get('named') == 'Int':
                return i
        return -1

    def byte_tid(self):
        for i, t in enumerate(self.prog.types):
            if t['k'] == 'basic' and t['name'] in ('byte', 'uint8'):
                return i

    # ------------------------------------------------------------ running
    def call(self, st, fname, args, pos=''):
        """-> list of (state, result)   result: value | Tup | None | Panic"""
        h = self.hooks.get(fname)
        if h is not None and fname not in self.no_hook:
            r = h(self, st, args, pos)
            if r is not None:
                self.applied[fname] = self.applied.get(fname, 0) + 1
                return r
        if fname not in self.prog.funcs:
            raise VerifFail('unsupported', 'call of %s, which has no body and no contract' % fname, pos)
        self.inlined.add(fname)
        return self.run(st, fname, args)

    def push_facts(self, st):
        poly.OVER[:] = st.facts
        poly.C.extra['fzero'] = st.ghost.get('fzero', ())

    def run(self, st, fname, args, free=None):
        f = self.prog.funcs[fname]
        if len(self.stack) > 60:
            raise VerifFail('unsupported', 'recursion too deep in ' + fname)
        self.stack.append(fname)
        self.nact += 1
        self.act.append(self.nact)
        try:
            regs = {}
            for (n, t), a in zip(f['params'], args):
                regs[n] = a
            if free:
                for (n, t), a in zip(f['free'], free):
                    regs['free:' + n] = a
            if any(x['op'] == 'defer' for b in f['blocks'] for x in b['instrs']):
                regs['!defers'] = []
            merger = getattr(self, 'mergers', {}).get(fname)
            if merger is not None:
                return merger(self, st, f, regs)
            import merge
            work = [(st, regs, 0, None, 0)]
            out = []
            parked = {}
            cut = getattr(self, 'cuts', {}).get(fname)
            self.park.append((parked, work, cut(self, f) if cut else None))
            try:
                while work or parked:
                    if not work:
                        k = min(parked, key=lambda k: parked[k][0])
                        pr, lst = parked.pop(k)
                        items = [(s, r) for s, r, i in lst]
                        ct = self.park[-1][2]
                        if ct is not None and k[0] == ct.head:
                            items = ct.resume(self, k, items)
                        elif len(items) > 1:
                            items = merge.join(self, items)
                        for s, r in items:
                            work.append((s, r, k[0], RESUME, lst[0][2]))
                        continue
                    st1, regs1, b, prev, i = work.pop()
                    self.push_facts(st1)
                    r = self.run_block(st1, regs1, f, b, prev, i, work, out)
                    if r is not None:
                        out.append(r)
            finally:
                self.park.pop()
            if len(out) > 1 and len(self.stack) > 1:
                out = self.join_results(out)
            return out
        finally:
            self.stack.pop()
            self.act.pop()

    def join_results(self, out):
        """joins the outcomes of a call that agree in their concrete results"""
        import merge
        groups, rest = {}, []
        for st, r in out:
            if isinstance(r, Panic) or not st.ghost.get('alive'):
                rest.append((st, r))
                continue
            rs = r if isinstance(r, Tup) else [r]
            key = tuple(x.const() if isinstance(x, V) else None for x in rs)
            groups.setdefault(key, []).append((st, r))
        for lst in groups.values():
            rest += merge.join(self, lst) if len(lst) > 1 else lst
        return rest

    def mem_counters(self, st, regs, fl, b):
        """(alloc, value) of the variables in memory that are live at b and hold a known integer"""
        r = []
        for k, live in fl.mem.items():
            p = regs.get(k)
            if b in live and isinstance(p, Ptr) and not p.path:
                v = st.mem.get(p.obj)
                if isinstance(v, V) and v.p.is_const():
                    r.append((k, v.p.cval()))
        return tuple(r)

    def run_block(self, st, regs, f, b, prev, i, work, out):
        """Run until return or fork.  Returns an outcome or None (forked)."""
        blocks = f['blocks']
        while True:
            blk = blocks[b]
            ins = blk['instrs']
            n = len(ins)
            if i == 0 and prev is not RESUME:
                # phis first, in parallel
                vals = []
                while i < n and ins[i]['op'] == 'phi':
                    e = blk['preds'].index(prev)
                    vals.append((ins[i]['id'], self.operand(st, regs, ins[i]['edges'][e])))
                    i += 1
                for k, v in vals:
                    regs[k] = v
                parked, wk, cut = self.park[-1]
                if cut is not None and b == cut.head:
                    if not cut.arrive(self, st, regs, i, parked, b):
                        return None
                elif len(blk['preds']) > 1 and (wk or parked):
                    # wait for the other states
                    import merge
                    fl = merge.flow(f)
                    webs = {}
                    for k, v in regs.items():
                        w = fl.web.get(k)
                        if w is not None and isinstance(v, V) and v.p.is_const() and k in [q for q, _ in vals]:
                            webs[w] = v.p.cval()
                    mc = self.mem_counters(st, regs, fl, b)
                    webs.update((('m', k), c) for k, c in mc)
                    st.ghost['webs'] = {**st.ghost.get('webs', {}), **{(id(f), w): c for w, c in webs.items()}}
                    cur = {w[1]: c for w, c in st.ghost['webs'].items() if w[0] == id(f)}
                    key = (b, tuple(v.const() for k, v in vals if isinstance(v, V) and v.const() is not None and k in fl.web),
                           tuple((k, regs[k].const()) for k in sorted(fl.live[b]) if k in regs and isinstance(regs[k], V)), mc)
                    parked.setdefault(key, (fl.prio(cur, b), []))[1].append((st, regs, i))
                    return None
                if len(blk['preds']) > 1 and vals:
                    import merge
                    fl = merge.flow(f)
                    w = {(id(f), fl.web[k]): v.p.cval() for k, v in vals if k in fl.web and isinstance(v, V) and v.p.is_const()}
                    if w:
                        st.ghost['webs'] = {**st.ghost.get('webs', {}), **w}
            while i < n:
                x = ins[i]
                op = x['op']
                self.steps += 1
                if self.steps > self.max_steps:
                    raise VerifFail('unsupported', 'step limit', x.get('pos', ''))
                if op == 'jump':
                    prev, b, i = b, blk['succs'][0], 0
                    break
                if op == 'if':
                    c = self.operand(st, regs, x['x'])
                    cc = c.const()
                    if cc is None:
                        cc = self.decide(st, c)
                    if cc is not None:
                        prev, b, i = b, blk['succs'][0 if cc else 1], 0
                        break
                    # fork
                    outs = self.split(st, regs, c, x.get('pos', ''))
                    for st2, regs2, truth in outs:
                        work.append((st2, regs2, blk['succs'][0 if truth else 1], b, 0))
                    return None
                if op == 'return':
                    rs = [self.operand(st, regs, r) for r in x['xs']]
                    if not rs:
                        return (st, None)
                    if len(rs) == 1:
                        return (st, clone(rs[0]))
                    return (st, Tup(clone(r) for r in rs))
                if op == 'panic':
                    self.no_defers(regs, f, x)
                    return (st, Panic('explicit panic', x.get('pos', '')))
                if op == 'defer':
                    if 'invoke' in x or '!defers' not in regs:
                        raise VerifFail('unsupported', 'deferred call', x.get('pos', ''))
                    regs['!defers'] = regs['!defers'] + [[x, self.operand(st, regs, x['fn']), [self.operand(st, regs, a) for a in x['args']]]]
                    i += 1
                    continue
                if op == 'rundefers':
                    if '!defers' not in regs:
                        if any(y['op'] == 'defer' for bb in blocks for y in bb['instrs']):
                            raise VerifFail('unsupported', 'deferred calls after a join', x.get('pos', ''))
                        i += 1
                        continue
                    if not regs['!defers']:
                        i += 1
                        continue
                if op == 'call' or op == 'rundefers':
                    if op == 'rundefers':
                        # the deferred calls, last first
                        y, dfn, dargs = regs['!defers'][-1]
                        regs['!defers'] = regs['!defers'][:-1]
                        outs = self.do_call1(st, y, dfn, dargs)
                        x = {'id': '!deferred'}
                        i -= 1
                    else:
                        outs = self.do_call(st, regs, x)
                    if any(isinstance(r, Panic) for _, r in outs):
                        self.no_defers(regs, f, x)
                    if len(outs) == 1 and outs[0][0] is st:
                        r = outs[0][1]
                        if isinstance(r, Panic):
                            return (st, r)
                        regs[x['id']] = r
                        i += 1
                        self.push_facts(st)
                        continue
                    for st2, r in outs:
                        if isinstance(r, Panic):
                            out.append((st2, r))
                            continue
                        regs2 = dict(regs) if st2 is not st else regs
                        if st2.env:
                            regs2 = {k: subst_node(v, st2.env) for k, v in regs.items()}
                        else:
                            regs2 = dict(regs)
                        regs2[x['id']] = r
                        work.append((st2, regs2, b, prev, i + 1))
                    return None
                try:
                    self.step(st, regs, x, op)
                except Unsupported as e:
                    raise VerifFail('unsupported', str(e), x.get('pos', '')) from None
                except Panic2 as e:
                    self.no_defers(regs, f, x)
                    return (st, Panic(e.why, x.get('pos', '')))
                i += 1
            else:
                raise VerifFail('internal', 'fell off block')

    def no_defers(self, regs, f, x):
        if '!defers' in regs or any(y['op'] == 'defer' for b in f['blocks'] for y in b['instrs']):
            raise VerifFail('unsupported', 'a panic with deferred calls', x.get('pos', ''))

    def decide(self, st, c):
        lo, hi = poly.meet(iv(c.p), (c.lo, c.hi))
        if lo == hi:
            return lo
        vs = c.p.vars()
        gs = {poly.C.grp[v] for v in vs}
        if len(gs) == 1 and None not in gs:
            import merge
            g, = gs
            mem = poly.C.groups[g]
            r = {val.evalp(c.p, {v: int(v == u) for v, _ in mem}) for u in merge.alive(st, g)}
            if len(r) == 1:
                return r.pop()
        return None

    def split(self, st, regs, c, pos):
        """fork on the boolean value c -> [(state, regs, truth)]"""
        outs = []
        for truth in (0, 1):
            s2 = st.fork()
            env = self.assume(s2, c.p, truth)
            if env is None:
                continue
            s2.path.append('%s at %s' % ('taken' if truth else 'not taken', pos))
            if env:
                e = dict(env)
                s2.env.update(e)
                s2.mem = {k: subst_node(v, e) for k, v in s2.mem.items()}
                r2 = {k: subst_node(v, e) for k, v in regs.items()}
            else:
                r2 = dict(regs)
            outs.append((s2, r2, truth))
        return outs

    def assume(self, st, p, truth):
        """Add p == truth to the path.  Returns a substitution or None if infeasible."""
        env = {}
        q = p - truth
        poly.OVER[:] = st.facts
        lo, hi = iv(q)
        if lo is not None and (lo > 0 or hi < 0):
            return None
        nf = {}
        st.facts.append(nf)
        poly.OVER[:] = st.facts
        poly.add_fact(p, truth, truth, path=True)
        # single boolean variable: substitute it
        vs = q.vars()
        if len(vs) == 1 and poly.C.grp[next(iter(vs))] is None:
            v, = vs
            a = q.d.get((v,), 0)
            if abs(a) == 1 and set(q.d) <= {(v,), ()}:
                value = -q.cval() // a
                if poly.C.isb[v] and value not in (0, 1):
                    return None
                env[v] = value
                if poly.C.isb[v] and poly.C.grp[v] is None and getattr(self, 'join_bools', False):
                    st.ghost['alive'] = dict(st.ghost.get('alive', {}))
                    st.ghost['alive'][('b', v)] = frozenset((value,))
                poly.add_fact(IP.var(v), value, value, path=True)
                D = poly.C.defn[v]
                self.learn(D, value)
                if D is not None and D[0] == 'iszero' and value == 1:
                    self.all_zero(D[1], env)
                if value == 0:
                    self.all_zero(IP.var(v), env)
                if D is not None and D[0] == 'fiszero' and value == 1:
                    st.ghost['fzero'] = st.ghost.get('fzero', ()) + (D[1],)
                if D is not None and D[0] == 'fiszero' and value == 0:
                    st.ghost['fnonzero'] = st.ghost.get('fnonzero', ()) + (D[1],)
        elif vs and all(poly.C.grp[v] is not None for v in vs) and len({poly.C.grp[v] for v in vs}) == 1:
            # one-hot group: restrict the cases
            import merge
            g = poly.C.grp[next(iter(vs))]
            mem = poly.C.groups[g]
            cur = merge.alive(st, g)
            alive = [u for u in cur if val.evalp(q, {v: int(v == u) for v, _ in mem}) == 0]
            if not alive:
                return None
            for v, _ in mem:
                if v not in alive and v in cur:
                    env[v] = 0
            if len(alive) == 1:
                for v, x in mem:
                    env[v] = int(v == alive[0])
                w = poly.C.extra.get('fdp', {}).get(g)
                if w is not None and len(w.d) == 1 and len(w.vars()) == 1 and w == IP.var(next(iter(w.vars()))):
                    env[next(iter(w.vars()))] = dict(mem).get(alive[0], 0)
            st.ghost['alive'] = dict(st.ghost.get('alive', {}))
            st.ghost['alive'][g] = frozenset(alive)
        st.path.append('assume %r = %d' % (p, truth))
        return env

    def all_zero(self, p, env):
        """p = 0: then so are the operands of a disjunction"""
        if len(p.d) != 1:
            return
        (m, k), = p.d.items()
        if len(m) != 1 or poly.C.grp[m[0]] is not None:
            return
        env[m[0]] = 0
        poly.add_fact(IP.var(m[0]), 0, 0, path=True)
        D = poly.C.defn[m[0]]
        if D is not None and D[0] == 'op' and D[1] == '|':
            for x in (D[2], D[3]):
                poly.add_fact(x.p, 0, 0, path=True)
                self.all_zero(x.p, env)

    def learn(self, D, value):
        if D is None:
            return
        if D[0] == 'negfloor':
            B, k = D[1], D[2]
            if value == 1:
                poly.add_fact(B, None, -1, path=True)
            else:
                poly.add_fact(B, 0, None, path=True)
        elif D[0] == 'floor':
            B, k, off = D[1], D[2], D[3]
            q = value + off
            poly.add_fact(B, q << k, ((q + 1) << k) - 1, path=True)
        elif D[0] == 'iszero':
            if value == 1:
                poly.add_fact(D[1], 0, 0, path=True)
            else:
                lo, hi = iv(D[1])
                if lo == 0:
                    poly.add_fact(D[1], 1, None, path=True)
                if hi == 0:
                    poly.add_fact(D[1], None, -1, path=True)

    # ------------------------------------------------------------ instructions
    def do_call(self, st, regs, x):
        pos = x.get('pos', '')
        if 'invoke' in x:
            recv = self.operand(st, regs, x['recv'])
            h = self.hooks.get('invoke:' + x['invoke'])
            if h is not None:
                return h(self, st, [recv] + [self.operand(st, regs, a) for a in x['args']], pos)
            raise VerifFail('unsupported', 'interface call %s' % x['invoke'], pos)
        fn = self.operand(st, regs, x['fn'])
        args = [self.operand(st, regs, a) for a in x['args']]
        return self.do_call1(st, x, fn, args)

    def do_call1(self, st, x, fn, args):
        pos = x.get('pos', '')
        if isinstance(fn, dict):
            try:
                return [(st, self.builtin(st, fn['n'], args, x))]
            except Panic2 as e:
                return [(st, Panic(e.why, pos))]
        if isinstance(fn, FnVal):
            if fn.bind:
                return self.run(st, fn.name, args, free=fn.bind)
            try:
                return self.call(st, fn.name, args, pos)
            except Unsupported as e:
                raise VerifFail('unsupported', str(e), pos) from None
        raise VerifFail('unsupported', 'dynamic call', pos)

    def index(self, idx, ln, pos):
        c = idx.const()
        if c is not None:
            if not isinstance(ln, int):
                lo, hi = len_iv(ln)
                if not 0 <= c < lo:
                    raise Panic2('index %d may be out of range (length %s to %s)' % (c, lo, hi))
                return c
            if not (0 <= c < ln):
                raise Panic2('index %d out of range [0,%d)' % (c, ln))
            return c
        return None

    def step(self, st, regs, x, op):
        P = self.prog
        pos = x.get('pos', '')
        o = lambda k: self.operand(st, regs, x[k])
        if op == 'alloc':
            tid = P.elem(x['t'])
            # the same object in all states of this activation, unless this
            # state has executed the instruction before
            n = 0
            while True:
                ob = self.allocs.get((self.act[-1] if self.act else 0, x['id'], n))
                if ob is None or ob not in st.mem:
                    break
                n += 1
            if ob is None:
                ob = self.new_obj(tid, x.get('c', ''))
                self.allocs[(self.act[-1] if self.act else 0, x['id'], n)] = ob
            st.mem[ob] = self.zero(tid)
            regs[x['id']] = Ptr(ob)
        elif op == 'bin':
            a, b = o('x'), o('y')
            regs[x['id']] = self.bin(st, x, a, b, pos)
        elif op == 'un':
            tok = x['tok']
            a = o('x')
            if tok == '*':
                regs[x['id']] = self.load(st, a)
            elif tok == '-':
                ty = P.int_ty(x['t'])
                regs[x['id']] = val.vsub(con(ty, 0), a, ty)
            elif tok == '^':
                ty = P.int_ty(x['t'])
                full = -1 if ty[1] else (1 << ty[0]) - 1
                regs[x['id']] = val.bitop('^', a, con(ty, full), ty)
            elif tok == '!':
                regs[x['id']] = V(BOOL, 1 - a.p, 1 - a.hi, 1 - a.lo, ('!', a))
            else:
                raise VerifFail('unsupported', 'unary ' + tok, pos)
        elif op == 'fieldaddr':
            a = o('x')
            if hasattr(a, 'cases'):
                regs[x['id']] = a.sub(x['i'])
                return
            if not isinstance(a, Ptr):
                raise Panic2('nil dereference')
            regs[x['id']] = Ptr(a.obj, a.path + (x['i'],))
        elif op == 'indexaddr':
            a = o('x')
            idx = o('i')
            if isinstance(a, Ptr):
                t = P.types[self.ptr_tid(a)]
                ln = t['len']
                base, path = 0, a.path
            elif isinstance(a, Slice):
                ln = a.len
                base, path = a.off, a.path
            else:
                raise Panic2('index of nil')
            c = self.index(idx, ln, pos)
            if c is None:
                regs[x['id']] = self.symbolic_index(st, a.obj, path, base, ln, idx, pos)
            else:
                regs[x['id']] = Ptr(a.obj, path + (base + c,))
        elif op == 'index':
            a = o('x')
            idx = o('i')
            if isinstance(a, Cell):
                a = a.materialise(self, st, x['xt'])
            if isinstance(a, Opaque):
                raise VerifFail('unsupported', 'string indexing', pos)
            c = self.index(idx, len(a), pos)
            if c is None:
                raise VerifFail('unsupported', 'symbolic index of array value', pos)
            regs[x['id']] = a[c]
        elif op == 'field':
            a = o('x')
            if isinstance(a, Cell):
                raise VerifFail('unsupported', 'field of abstract struct value', pos)
            regs[x['id']] = a[x['i']]
        elif op == 'store':
            self.store(st, o('addr'), o('val'))
        elif op == 'convert':
            a = o('x')
            ty = P.int_ty(x['t'])
            if ty is not None and isinstance(a, V):
                regs[x['id']] = val.conv(a, ty)
            else:
                regs[x['id']] = self.convert(st, a, x, pos)
        elif op in ('changetype', 'changeiface'):
            regs[x['id']] = o('x')
        elif op == 'makeiface':
            a = o('x')
            regs[x['id']] = a if isinstance(a, Opaque) else Opaque('iface', a)
        elif op == 'extract':
            regs[x['id']] = o('x')[x['i']]
        elif op == 'slice':
            regs[x['id']] = self.slice(st, regs, x, pos)
        elif op == 'makeslice':
            ln = o('len')
            tid = P.types[x['t']]['elem']
            c = ln.const()
            if c is None:
                ob = self.new_obj(-1, 'makeslice')
                st.mem[ob] = Opaque('bytes', None)
                regs[x['id']] = Slice(ob, (), 0, ln, ln)
                return
            key = ('array', tid, c)
            ob = self.new_obj(self.array_tid(tid, c), 'makeslice')
            st.mem[ob] = [self.zero(tid) for _ in range(c)]
            regs[x['id']] = Slice(ob, (), 0, c, c)
        elif op == 'makeclosure':
            fn = o('fn')
            regs[x['id']] = FnVal(fn.name, [self.operand(st, regs, b) for b in x['bind']])
        elif op == 'slicetoarrayptr':
            a = o('x')
            t = P.types[P.elem(x['t'])]
            if not isinstance(a, Slice) or not isinstance(a.len, int):
                raise VerifFail('unsupported', 'slice to array pointer', pos)
            if a.len < t['len']:
                raise Panic2('slice too short')
            bt = P.types[self.ptr_tid(Ptr(a.obj, a.path))]
            if a.off == 0 and bt['len'] == t['len']:
                regs[x['id']] = Ptr(a.obj, a.path)
            else:
                raise VerifFail('unsupported', 'slice to array pointer (window)', pos)
        else:
            raise VerifFail('unsupported', 'instruction %s %s' % (op, x.get('what', '')), pos)

    def array_tid(self, tid, n):
        for i, t in enumerate(self.prog.types):
            if t['k'] == 'array' and t['elem'] == tid and t['len'] == n and 'named' not in t:
                return i
        self.prog.types.append({'k': 'array', 'elem': tid, 'len': n, 'str': '[%d]?' % n})
        return len(self.prog.types) - 1

    def symbolic_index(self, st, obj, path, base, ln, idx, pos):
        if not isinstance(ln, int):
            raise VerifFail('unsupported', 'symbolic index into a slice of symbolic length', pos)
        import merge
        gs = {poly.C.grp[v] for v in idx.p.vars()}
        if len(gs) != 1 or None in gs:
            cs = val.small_cases(idx)
            if cs is None:
                raise VerifFail('unsupported', 'index is not concrete', pos)
            if cs[0][0] < 0 or cs[-1][0] >= ln:
                raise Panic2('index may be out of range [0,%d)' % ln)
            return merge.SymPtr([(c, Ptr(obj, path + (base + n,))) for n, c in cs])
        g, = gs
        mem = poly.C.groups[g]
        by = {}
        for u in merge.alive(st, g):
            n = val.evalp(idx.p, {v: int(v == u) for v, _ in mem})
            if not 0 <= n < ln:
                raise Panic2('index %d out of range [0,%d)' % (n, ln))
            by.setdefault(n, set()).add(u)
        cases = []
        al = merge.alive(st, g)
        for n, us in sorted(by.items()):
            c = merge.indicator(g, frozenset(us)) if len(us) < len(al) else IP.const(1)
            if None in us and len(us) < len(al):
                c = IP.const(1)
                for v in al:
                    if v is not None and v not in us:
                        c = c - IP.var(v)
            cases.append((c, Ptr(obj, path + (base + n,))))
        if len(cases) == 1:
            return cases[0][1]
        return merge.SymPtr(cases)

    def convert(self, st, a, x, pos):
        P = self.prog
        t = P.types[x['t']]
        if isinstance(a, Opaque) and a.tag == 'str' and t['k'] == 'slice':
            if isinstance(a.data, Slice):
                return a.data          # (immutable on both sides as far as the engine allows)
            vs = a.data if type(a.data) is list else [con((8, False), c) for c in a.data.encode()] if isinstance(a.data, str) else None
            if vs is None:
                raise VerifFail('unsupported', 'conversion of a string', pos)
            ob = self.new_obj(self.array_tid(self.byte_tid(), len(vs)), 'bytes')
            st.mem[ob] = list(vs)
            return Slice(ob, (), 0, len(vs), len(vs))
        if isinstance(a, Opaque):
            return a
        if a is NIL and t['k'] == 'basic':
            return Opaque('str', '')
        if isinstance(a, Slice) and t['k'] == 'basic':
            return Opaque('str', self.slice_vals(st, a) if isinstance(a.len, int) else a)
        raise VerifFail('unsupported', 'conversion to %s' % t['str'], pos)

    def slice_vals(self, st, s):
        return [self.load(st, Ptr(s.obj, s.path + (s.off + i,))) for i in range(s.len)]

    def bin(self, st, x, a, b, pos):
        P = self.prog
        tok = x['tok']
        if isinstance(a, V) and isinstance(b, V):
            ty = P.int_ty(x['xt'])
            return val.binop(tok, a, b, ty)
        if tok in ('==', '!='):
            r = self.equal(st, a, b, x, pos)
            if tok == '!=':
                r = V(BOOL, 1 - r.p, 1 - r.hi, 1 - r.lo)
            return r
        raise VerifFail('unsupported', 'binary %s on %r, %r' % (tok, a, b), pos)

    def equal(self, st, a, b, x, pos):
        if a is NIL or b is NIL:
            c = b if a is NIL else a
            return con(BOOL, int(c is NIL))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return con(BOOL, int(a == b))
        if isinstance(a, Cell) and isinstance(b, Cell):
            r = a.equal(self, st, b)
            if r is not None:
                return r
        if isinstance(a, Cell):
            a = a.materialise(self, st, x['xt'])
        if isinstance(b, Cell):
            b = b.materialise(self, st, x['xt'])
        if type(a) is list and type(b) is list:
            return self.list_equal(a, b)
        raise VerifFail('unsupported', 'comparison', pos)

    def list_equal(self, a, b):
        """Arrays of machine integers: one equality of the packed integers."""
        diff = IP({})
        sh = 0
        flat_a, flat_b = flat(a), flat(b)
        for p, q in zip(flat_a, flat_b):
            d = p.p - q.p
            # pack differences: |d| < 2^w, base 2^(w+1) makes the packing injective
            w = p.ty[0]
            lo, hi = iv(d)
            if lo > 0 or hi < 0:
                return con(BOOL, 0)
            diff = diff + d * (1 << sh)
            sh += w
        # sum d_i 2^(w i) = 0 with |d_i| < 2^w  does not imply all d_i = 0 in
        # general, but for digits x_i, y_i in [0,2^w) packing is injective
        if all(p.lo >= 0 and q.lo >= 0 for p, q in zip(flat_a, flat_b)):
            b = val.is_zero_bit(diff)
            return val.mkf(BOOL, b, (0, 1), ('packeq', flat_a, flat_b))
        r = IP.const(1)
        for p, q in zip(flat_a, flat_b):
            r = r * val.is_zero_bit(p.p - q.p)
        return val.mkf(BOOL, r, (0, 1), None)

    def slice(self, st, regs, x, pos):
        P = self.prog
        a = self.operand(st, regs, x['x'])
        low = self.operand(st, regs, x['low'])
        high = self.operand(st, regs, x['high'])
        if isinstance(a, Opaque):
            return Opaque('str', ('slice', a))
        if isinstance(a, Ptr):
            t = P.types[self.ptr_tid(a)]
            obj, path, off, ln, cap = a.obj, a.path, 0, t['len'], t['len']
        elif isinstance(a, Slice):
            obj, path, off, ln, cap = a.obj, a.path, a.off, a.len, a.cap
        elif a is NIL:
            return NIL
        else:
            raise VerifFail('unsupported', 'slicing %r' % (a,), pos)
        l = 0 if low is None else low.const()
        h = ln if high is None else high.const()
        if h is None:
            if low is None and isinstance(ln, V) and (high.p - ln.p).d == {}:
                h = ln
            else:
                hl, hh = len_iv(high)
                h = hl if hl == hh else None
        if l is None and low is not None:
            ll, lh = len_iv(low)
            l = ll if ll == lh else None
        if h is None and l == 0 and isinstance(cap, int):
            if hl < 0 or hh > cap:
                raise Panic2('slice bounds out of range')
            return Slice(obj, path, off, high, cap)
        if h is None and l == 0:
            c = st.mem.get(obj)
            if isinstance(c, BufCell) and c.n is not None and (c.n.p - high.p).d == {} and off == 0:
                return Slice(obj, path, off, high, cap)
        if l is None or h is None:
            raise VerifFail('unsupported', 'symbolic slice bounds', pos)
        if not isinstance(cap, int):
            return self.slice_sym(st, obj, path, off, ln, cap, l, h, pos)
        if isinstance(h, V):
            hl, hh = len_iv(h)
            if hl != hh:
                if l:
                    raise VerifFail('unsupported', 'symbolic slice bounds', pos)
                return Slice(obj, path, off, h, cap)
            h = hl
        if not (0 <= l <= h <= cap):
            raise Panic2('slice bounds out of range')
        mx = self.operand(st, regs, x['max'])
        ncap = cap - l if mx is None else mx.const() - l
        return Slice(obj, path, off + l, h - l, ncap)

    def slice_sym(self, st, obj, path, off, ln, cap, l, h, pos):
        # slice of a buffer of symbolic length: s[l:h]
        if isinstance(h, int):
            lo, hi = len_iv(cap)
            if off == 0:
                lo = max(lo, slice_len_iv(st, Slice(obj, path, off, ln, cap))[0])
            if h > lo:
                raise Panic2('slice bounds out of range with capacity in [%s,%s]' % (lo, hi))
            return Slice(obj, path, off + l, h - l, h - l)
        if l == 0:
            return Slice(obj, path, off, ln, cap)
        raise VerifFail('unsupported', 'slicing a buffer of symbolic length', pos)

    def builtin(self, st, name, args, x):
        pos = x.get('pos', '')
        if name == 'len' or name == 'cap':
            a = args[0]
            if isinstance(a, Slice):
                n = a.len if name == 'len' else a.cap
                return n if isinstance(n, V) else con(val.INT, n)
            if a is NIL:
                return con(val.INT, 0)
            if type(a) is list:
                return con(val.INT, len(a))
            if isinstance(a, Opaque) and a.tag == 'str' and isinstance(a.data, str):
                return con(val.INT, len(a.data.encode()))
            if isinstance(a, Opaque) and a.tag == 'str' and type(a.data) is list:
                return con(val.INT, len(a.data))
            if isinstance(a, Opaque) and a.tag == 'str' and isinstance(a.data, Slice):
                n = a.data.len
                return n if isinstance(n, V) else con(val.INT, n)
            if isinstance(a, Ptr):
                return con(val.INT, self.prog.types[self.ptr_tid(a)]['len'])
            raise VerifFail('unsupported', 'len of %r' % (a,), pos)
        if name == 'copy':
            d, s = args
            if isinstance(s, Opaque) and s.tag == 'str' and isinstance(s.data, Slice):
                s = s.data
            if d is NIL or s is NIL:
                return con(val.INT, 0)
            if isinstance(d, Slice) and isinstance(s, Slice):
                dl, sl = slice_len_iv(st, d), slice_len_iv(st, s)
                if dl[0] == dl[1]:
                    if sl[0] >= dl[0]:
                        s = Slice(s.obj, s.path, s.off, dl[0], s.cap)
                        d = Slice(d.obj, d.path, d.off, dl[0], d.cap)
                    elif sl[0] == sl[1]:
                        s = Slice(s.obj, s.path, s.off, sl[0], s.cap)
                        d = Slice(d.obj, d.path, d.off, dl[0], d.cap)
                    else:
                        # an unknown number of bytes: the destination is unknown
                        n = val.sym(val.INT, 'copied%d' % len(poly.C.name), 0, dl[0])
                        for i in range(dl[0]):
                            self.store(st, Ptr(d.obj, d.path + (d.off + i,)), val.sym((8, False), 'unknown%d' % len(poly.C.name)))
                        return n
                h = self.hooks.get('copy')
                if h is not None:
                    r = h(self, st, args, pos)
                    if r is not None:
                        return r
                if isinstance(d.len, int) and isinstance(s.len, int):
                    n = min(d.len, s.len)
                    dt = self.obj_t[d.obj]
                    # whole-array copy of abstract cells
                    if n and d.off == 0 and s.off == 0 and not isinstance(st.mem.get(s.obj), BufCell):
                        dp, sp = Ptr(d.obj, d.path), Ptr(s.obj, s.path)
                        dn, sn = self.load_raw(st, dp), self.load_raw(st, sp)
                        td, ts = self.prog.types[self.ptr_tid(dp)], self.prog.types[self.ptr_tid(sp)]
                        if td['k'] == 'array' and ts['k'] == 'array' and td['len'] == n and ts['len'] == n:
                            self.store(st, dp, self.load(st, sp))
                            return con(val.INT, n)
                    vals = [self.load(st, Ptr(s.obj, s.path + (s.off + i,))) for i in range(n)]
                    for i, v in enumerate(vals):
                        self.store(st, Ptr(d.obj, d.path + (d.off + i,)), v)
                    return con(val.INT, n)
            raise VerifFail('unsupported', 'copy %r' % (args,), pos)
        if name == 'append':
            return self.append(st, args, x, pos)
        if name in ('min', 'max'):
            cs = [a.const() for a in args]
            if all(c is not None for c in cs):
                return con(args[0].ty, min(cs) if name == 'min' else max(cs))
        if name.startswith('ssa:'):
            return NIL
        raise VerifFail('unsupported', 'builtin %s' % name, pos)

    def append(self, st, args, x, pos):
        d, s = args
        if isinstance(s, Opaque) and s.tag == 'str':
            if isinstance(s.data, Slice):
                s = s.data
            elif type(s.data) is list or isinstance(s.data, str):
                s = self.convert(st, s, {'t': x['t']}, pos)
        if s is NIL:
            return d
        if d is NIL:
            d = Slice(None, (), 0, 0, 0)
        if not isinstance(s, Slice) or not isinstance(s.len, int) or not isinstance(d.len, int) or not isinstance(d.cap, int):
            raise VerifFail('unsupported', 'append %r' % (args,), pos)
        if s.len == 0:
            return d if d.obj is not None else NIL
        n = d.len + s.len
        if n > d.cap:
            # a new array (its spare capacity is unspecified: none here)
            tid = self.prog.types[x['t']]['elem']
            ob = self.new_obj(self.array_tid(tid, n), 'append')
            st.mem[ob] = [self.zero(tid) for _ in range(n)]
            if d.len:
                self.builtin(st, 'copy', [Slice(ob, (), 0, d.len, n), d], x)
            r = Slice(ob, (), 0, n, n)
        else:
            r = Slice(d.obj, d.path, d.off, n, d.cap)
        self.builtin(st, 'copy', [Slice(r.obj, r.path, r.off + d.len, s.len, s.len), s], x)
        return r

    def load_raw(self, st, p):
        if hasattr(p, 'cases'):
            return self.load_sym(st, p)
        node, _ = self._navigate(st, p, len(p.path))
        return node


class Panic2(Exception):
    def __init__(self, why):
        super().__init__(why)
        self.why = why


def flat(n):
    if type(n) is list:
        r = []
        for x in n:
            r += flat(x)
        return r
    return [n]

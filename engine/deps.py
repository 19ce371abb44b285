"""Assumed contracts of functions outside the repository."""
import poly
from poly import IP, iv
import val
from val import V, con, BOOL
from symexec import Opaque, NIL, Tup, Ptr, Slice, Panic, VerifFail
import field
import symexec

U64 = (64, False)
INT = val.INT


def b_mul(w):
    U = (w, False)

    def f(ex, st, a, pos):
        x, y = a
        p = x.p * y.p
        cs = (x.lo * y.lo, x.hi * y.hi)
        poly.add_fact(p, cs[0], cs[1])
        hi = poly.floordiv2k(p, w)
        h = val.mkf(U, hi, (cs[0] >> w, cs[1] >> w), None)
        lo = val.mk(U, p - hi * (1 << w), (0, min((1 << w) - 1, cs[1])))
        return [(st, Tup([h, lo]))]
    return f


def b_add(w):
    U = (w, False)

    def f(ex, st, a, pos):
        x, y, c = a
        if c.hi > 1:
            raise VerifFail('unsupported', 'carry not known to be 0 or 1', pos)
        p = x.p + y.p + c.p
        l, h = x.lo + y.lo + c.lo, x.hi + y.hi + c.hi
        poly.add_fact(p, l, h)
        q = poly.floordiv2k(p, w)
        carry = val.mkf(U, q, (l >> w, h >> w), None)
        s = val.mkf(U, p - q * (1 << w), (0, (1 << w) - 1), None)
        return [(st, Tup([s, carry]))]
    return f


def b_sub(w):
    U = (w, False)

    def f(ex, st, a, pos):
        x, y, c = a
        if c.hi > 1:
            raise VerifFail('unsupported', 'borrow not known to be 0 or 1', pos)
        p = x.p - y.p - c.p
        l, h = x.lo - y.hi - c.hi, x.hi - y.lo - c.lo
        poly.add_fact(p, l, h)
        q = poly.floordiv2k(p, w)
        borrow = val.mkf(U, -q, (-(h >> w), -(l >> w)), None)
        s = val.mkf(U, p - q * (1 << w), (0, (1 << w) - 1), None)
        return [(st, Tup([s, borrow]))]
    return f


def bytes_equal(ex, st, a, pos):
    x, y = a
    if not all(isinstance(s, Slice) and isinstance(s.len, int) for s in a):
        raise VerifFail('unsupported', 'bytes.Equal of slices of symbolic length', pos)
    if x.len != y.len:
        return [(st, con(BOOL, 0))]
    b = val.is_zero_bit(field.packed(ex.slice_vals(st, x), 8) - field.packed(ex.slice_vals(st, y), 8))
    return [(st, val.mkf(BOOL, b, (0, 1), None))]


def read_full(ex, st, a, pos):
    r = a[0]
    if not (isinstance(r, Opaque) and r.tag == 'global' and r.data == 'crypto/rand.Reader'):
        raise VerifFail('unsupported', 'io.ReadFull from %r' % (r,), pos)
    return rand_read(ex, st, a, pos)


def hash_value(name, token, n):
    """the digest of a byte string as a little-endian integer: a function of the string"""
    T = poly.C.extra.setdefault('digest', {})
    k = (name, token)
    if k not in T:
        T[k] = IP.var(poly.C.new('%s(%s)' % (name, token), 0, (1 << (8 * n)) - 1))
    return T[k]


def bytes_token(ex, st, x):
    """identity of the content of a byte slice"""
    t = symexec.buf_token(ex, st, x)
    if t is not None:
        return t
    if isinstance(x, Slice) and isinstance(x.len, int):
        return ('val', x.len, field.packed(ex.slice_vals(st, x), 8))
    raise VerifFail('unsupported', 'hash of %r' % (x,))


def sha(name, n):
    def f(ex, st, a, pos):
        return [(st, field.BYCell(hash_value(name, bytes_token(ex, st, a[0]), n), n))]
    return f


def sha_new(name, n):
    """a running hash: the digest of what has been written to it so far"""
    def f(ex, st, a, pos):
        k = len([g for g in st.ghost if g[0] == 'hash'])
        st.ghost[('hash', k)] = ()
        return [(st, Opaque('hash', (name, n, ('hash', k))))]
    return f


def hash_of(a, what, pos):
    if not (isinstance(a[0], Opaque) and a[0].tag == 'hash'):
        raise VerifFail('unsupported', 'interface call %s' % what, pos)
    return a[0].data


def hash_write(ex, st, a, pos):
    name, n, g = hash_of(a, 'Write', pos)
    s = a[1]
    if s is not NIL and not (isinstance(s, Slice) and isinstance(s.len, int) and s.len == 0):
        st.ghost[g] = st.ghost[g] + (bytes_token(ex, st, s),)
    ln = con(INT, 0) if s is NIL else con(INT, s.len) if isinstance(s.len, int) else s.len
    return [(st, Tup([ln, NIL]))]


def hash_reset(ex, st, a, pos):
    st.ghost[hash_of(a, 'Reset', pos)[2]] = ()
    return [(st, None)]


def hash_sum(ex, st, a, pos):
    name, n, g = hash_of(a, 'Sum', pos)
    ts = st.ghost[g]
    if all(t[0] == 'val' for t in ts if type(t) is tuple) and all(type(t) is tuple for t in ts):
        p, k = IP.const(0), 0
        for t in ts:
            p, k = p + t[2] * (1 << (8 * k)), k + t[1]
        ts = (('val', k, p),)
    d = a[1]
    if d is NIL:
        d = Slice(None, (), 0, 0, 0)
    if not (isinstance(d, Slice) and isinstance(d.len, int) and isinstance(d.cap, int)):
        raise VerifFail('unsupported', 'Sum appending to %r' % (d,), pos)
    byte = next(t for t, x in enumerate(ex.prog.types) if ex.prog.int_ty(t) == (8, False))
    if d.len + n > d.cap:
        ob = ex.new_obj(ex.array_tid(byte, d.len + n), 'Sum')
        st.mem[ob] = [ex.zero(byte) for _ in range(d.len + n)]
        for i, v in enumerate(ex.slice_vals(st, d) if d.len else ()):
            ex.store(st, Ptr(ob, (i,)), v)
        r = Slice(ob, (), 0, d.len + n, d.len + n)
    else:
        r = Slice(d.obj, d.path, d.off, d.len + n, d.cap)
    fill(ex, st, Slice(r.obj, r.path, r.off + d.len, n, n), hash_value(name, ts[0] if len(ts) == 1 else ('cat',) + ts, n), pos)
    return [(st, r)]


def hash_size(ex, st, a, pos):
    return [(st, con(INT, hash_of(a, 'Size', pos)[1]))]


def fill(ex, st, s, p, pos):
    """store the integer p into the byte slice s, little endian"""
    if not isinstance(s, Slice) or not isinstance(s.len, int):
        raise VerifFail('unsupported', 'filling a slice of symbolic length', pos)
    c = field.BYCell(p, s.len).materialise(ex, st, None)
    for i, v in enumerate(c):
        ex.store(st, Ptr(s.obj, s.path + (s.off + i,)), v)


def rand_bytes(ex, n):
    T = poly.C.extra.setdefault('rand', [])
    v = IP.var(poly.C.new('rand%d' % len(T), 0, (1 << (8 * n)) - 1))
    T.append((v, n))
    return v


def rand_read(ex, st, a, pos):
    s = a[-1]
    if not isinstance(s, Slice) or not isinstance(s.len, int):
        raise VerifFail('unsupported', 'rand.Read', pos)
    bad = st.fork()
    bad.ghost['randfail'] = True
    fill(ex, bad, s, IP.var(poly.C.new('norand', 0, (1 << (8 * s.len)) - 1)), pos)
    good = st.fork()
    T = poly.C.extra.setdefault('randseen', {})
    fill(ex, good, s, rand_bytes(ex, s.len), pos)
    return [(bad, Tup([con(INT, 0), Opaque('error', 'rand')])), (good, Tup([con(INT, s.len), NIL]))]


# ---------------------------------------------------------------- math/big
def bigval(ex, st, p, pos):
    n = ex.load(st, p)
    if isinstance(n, Opaque) and n.tag == 'big':
        return n.data
    raise VerifFail('unsupported', 'big.Int in an unknown state', pos)


def bigset(ex, st, p, v):
    ex.store(st, p, Opaque('big', v))
    return [(st, p)]


def big_setbytes(ex, st, a, pos):
    s = a[1]
    if not isinstance(s, Slice) or not isinstance(s.len, int):
        raise VerifFail('unsupported', 'big.Int.SetBytes of symbolic length', pos)
    return bigset(ex, st, a[0], field.packed(list(reversed(ex.slice_vals(st, s))), 8))


def big_setstring(ex, st, a, pos):
    if not isinstance(a[1], Opaque) or not isinstance(a[1].data, str):
        raise VerifFail('unsupported', 'big.Int.SetString', pos)
    try:
        v = int(a[1].data, a[2].const())
    except ValueError:
        return [(st, Tup([NIL, con(BOOL, 0)]))]
    bigset(ex, st, a[0], IP.const(v))
    return [(st, Tup([a[0], con(BOOL, 1)]))]


def big_mod(ex, st, a, pos):
    x, m = bigval(ex, st, a[1], pos), bigval(ex, st, a[2], pos)
    if not m.is_const() or m.cval() <= 0:
        raise VerifFail('unsupported', 'big.Int.Mod by a symbolic modulus', pos)
    m = m.cval()
    lo, hi = iv(x)
    if x.is_const():
        v = IP.const(x.cval() % m)
    elif lo is not None and lo >= 0 and hi is not None and hi < m:
        v = x
    elif m == field.LL:
        v = field.scan(field.fp(x, m))
    elif m == field.PP:
        v = field.canon(field.fp(x, m))
    else:
        v = IP.var(poly.C.new('mod%d' % len(poly.C.name), 0, m - 1))
    return bigset(ex, st, a[0], v)


def big_bytes(ex, st, a, pos):
    v = bigval(ex, st, a[0], pos)
    lo, hi = iv(v)
    if lo is None or lo < 0 or hi is None or hi >= 1 << 600:
        raise VerifFail('unsupported', 'big.Int.Bytes of unbounded value', pos)
    outs = []
    n0, n1 = (lo.bit_length() + 7) // 8, (hi.bit_length() + 7) // 8
    for n in range(n0, n1 + 1):
        s2 = st.fork()
        nf = {}
        s2.facts.append(nf)
        poly.OVER[:] = s2.facts
        poly.add_fact(v, 256 ** (n - 1) if n else 0, 256 ** n - 1, path=True)
        o = ex.new_obj(ex.array_tid(ex.byte_tid(), n), 'bigbytes')
        p = IP.const(0) if n == 0 else v
        out = []
        for i in range(n):
            x = poly.floordiv2k(p, 8 * i)
            y = poly.floordiv2k(p, 8 * (i + 1)) if i + 1 < n else IP.const(0)
            b = x - y * 256
            poly.add_fact(b, 0, 255, path=True)
            out.append(V((8, False), b, 0, 255, ('leafp',)))
        s2.mem[o] = list(reversed(out))
        if n == 0:
            s2.path.append('big.Int is zero')
            for m in (field.LL, field.PP):
                if hi < m:
                    s2.ghost['fzero'] = s2.ghost.get('fzero', ()) + (field.fp(v, m),)
        outs.append((s2, Slice(o, (), 0, n, n)))
    poly.OVER[:] = st.facts
    return outs


def big_fillbytes(ex, st, a, pos):
    v = bigval(ex, st, a[0], pos)
    s = a[1]
    if not isinstance(s, Slice) or not isinstance(s.len, int):
        raise VerifFail('unsupported', 'big.Int.FillBytes', pos)
    lo, hi = iv(v)
    if lo is None or lo < 0 or hi is None or hi >= 256 ** s.len:
        return [(st, Panic('big.Int.FillBytes: buffer too small', pos))]
    c = field.BYCell(v, s.len).materialise(ex, st, None)
    for i, x in enumerate(reversed(c)):
        ex.store(st, Ptr(s.obj, s.path + (s.off + i,)), x)
    return [(st, s)]


def big_bin(op):
    def f(ex, st, a, pos):
        return bigset(ex, st, a[0], op(bigval(ex, st, a[1], pos), bigval(ex, st, a[2], pos)))
    return f


def big_set(ex, st, a, pos):
    return bigset(ex, st, a[0], bigval(ex, st, a[1], pos))


def big_setint(ex, st, a, pos):
    return bigset(ex, st, a[0], a[1].p)


def big_newint(ex, st, a, pos):
    o = ex.new_obj(ex.big_tid(), 'big')
    st.mem[o] = Opaque('big', a[0].p)
    return [(st, Ptr(o))]


# ---------------------------------------------------------------- crypto/subtle
def subtle_compare(ex, st, a, pos):
    x, y = a
    if not all(isinstance(s, Slice) and isinstance(s.len, int) for s in a):
        raise VerifFail('unsupported', 'ConstantTimeCompare of slices of symbolic length', pos)
    if x.len != y.len:
        return [(st, con(INT, 0))]
    b = val.is_zero_bit(field.packed(ex.slice_vals(st, x), 8) - field.packed(ex.slice_vals(st, y), 8))
    return [(st, val.mkf(INT, b, (0, 1), None))]


def subtle_copy(ex, st, a, pos):
    v, x, y = a
    if not all(isinstance(s, Slice) and isinstance(s.len, int) for s in (x, y)):
        raise VerifFail('unsupported', 'ConstantTimeCopy of slices of symbolic length', pos)
    if x.len != y.len:
        return [(st, Panic('subtle: slices have different lengths', pos))]
    if v.lo < 0 or v.hi > 1:
        raise VerifFail('unsupported', 'ConstantTimeCopy with a selector other than 0, 1', pos)
    xs, ys = ex.slice_vals(st, x), ex.slice_vals(st, y)
    for i, (p, q) in enumerate(zip(xs, ys)):
        r = val.mkf((8, False), p.p + v.p * (q.p - p.p), (0, 255), None)
        ex.store(st, Ptr(x.obj, x.path + (x.off + i,)), r)
    return [(st, None)]


def subtle_select(ex, st, a, pos):
    v, x, y = a
    if v.lo < 0 or v.hi > 1:
        raise VerifFail('unsupported', 'ConstantTimeSelect with a selector other than 0, 1', pos)
    return [(st, val.mkf(INT, y.p + v.p * (x.p - y.p), (min(x.lo, y.lo), max(x.hi, y.hi)), None))]


def subtle_eq(ex, st, a, pos):
    r = val.compare('==', a[0], a[1])
    return [(st, val.mkf(INT, r.p, (0, 1), ('conv', r)))]


# ---------------------------------------------------------------- base64 and hex
# RFC 4648 in both directions: uninterpreted functions of the bytes.  Assumed:
# decoding what was encoded gives back the bytes (stated in DESIGN.md).
def text_token(ex, st, x, pos):
    if isinstance(x, Opaque) and x.tag == 'str':
        if isinstance(x.data, Slice):
            x = x.data
        elif type(x.data) is list:
            return ('val', len(x.data), field.packed(x.data, 8)), len(x.data)
        elif isinstance(x.data, str):
            b = x.data.encode()
            return ('val', len(b), IP.const(int.from_bytes(b, 'little'))), len(b)
    if x is NIL:
        return ('val', 0, IP.const(0)), 0
    if isinstance(x, Slice):
        t = symexec.buf_token(ex, st, x)
        if t is not None:
            lo, hi = symexec.len_iv(x.len)
            return t, lo if lo == hi else x.len
        lo, hi = symexec.slice_len_iv(st, x)
        if lo == hi:
            x = Slice(x.obj, x.path, x.off, lo, x.cap)
            return ('val', lo, field.packed(ex.slice_vals(st, x), 8)), lo
    raise VerifFail('unsupported', 'decoding of %r' % (x,), pos)


def dec_bits(kind, token, L):
    """(accepted, number of bytes) of a decoder on a text"""
    T = poly.C.extra.setdefault('decoders', {})
    k = (kind, token)
    if k not in T:
        ok = IP.var(poly.C.new('decodes(%s,%d)' % (kind, len(T)), 0, 1))
        lo, hi = symexec.len_iv(L)
        if kind == 'hex':
            n = con(INT, L // 2) if isinstance(L, int) else None
        else:
            h = dec_max(kind, hi)
            n = V(INT, IP.var(poly.C.new('decoded(%s,%d)' % (kind, len(T)), 0, h)), 0, h, ('leafp',))
        T[k] = (ok, n)
    return T[k]


def dec_max(kind, n):
    if kind == 'hex':
        return n // 2
    return n * 6 // 8 if 'Raw' in kind else n // 4 * 3


def enc_len(kind, n):
    if kind == 'hex':
        return 2 * n
    return (n * 8 + 5) // 6 if 'Raw' in kind else (n + 2) // 3 * 4


def dec_value(kind, token, n):
    """the decoded bytes, as a number"""
    return field.packed([symexec.buf_byte((kind, token), i) for i in range(n)], 8)


def enc_value(kind, n, p):
    T = poly.C.extra.setdefault('encoders', {})
    k = (kind, n, p)
    if k not in T:
        T[k] = IP.var(poly.C.new('%s(%d)' % (kind, len(T)), 0, (1 << (8 * enc_len(kind, n))) - 1))
    return T[k]


def b64kind(e, pos):
    if isinstance(e, Opaque) and e.tag == 'global' and e.data.startswith('encoding/base64.'):
        return e.data
    raise VerifFail('unsupported', 'base64 encoding %r' % (e,), pos)


def as_bytes(ex, st, x, pos):
    """the bytes of a slice of known length"""
    if x is NIL:
        return []
    if isinstance(x, Opaque) and x.tag == 'str' and type(x.data) is list:
        return x.data
    if isinstance(x, Slice):
        lo, hi = symexec.slice_len_iv(st, x)
        if lo == hi:
            return ex.slice_vals(st, Slice(x.obj, x.path, x.off, lo, x.cap))
    raise VerifFail('unsupported', 'encoding of a slice of symbolic length', pos)


def do_decode(ex, st, kind, dst, src, pos):
    """dst: slice or None (a new one is made)"""
    token, L = text_token(ex, st, src, pos)
    if kind == 'hex' and not isinstance(L, int):
        raise VerifFail('unsupported', 'hex decoding of a text of symbolic length', pos)
    ok, n = dec_bits(kind, token, L)
    lo, hi = symexec.len_iv(L)
    outs = []
    if dst is not None:
        dl = (0, 0) if dst is NIL else symexec.len_iv(dst.len)
        fits = dl[0] >= dec_max(kind, hi)
        if not fits and dst is not NIL and not isinstance(dst.len, int):
            # made with DecodedLen of the same length
            fits = dst.len.node == ('declen', kind, L.p if isinstance(L, V) else L)
        if not fits:
            return [(st, Panic('the buffer may be too small for the decoded text', pos))]
    for b in (0, 1):
        s2 = st.fork()
        env = ex.assume(s2, ok, b)
        if env is None:
            continue
        s2.env.update(env)
        s2.mem = {k: symexec.subst_node(x, env) for k, x in s2.mem.items()}
        m = n if b else val.sym(INT, 'undecoded%d' % len(poly.C.name), 0, dec_max(kind, hi))
        key = (kind, token) if b else (kind, 'error', len(poly.C.name))
        err = NIL if b else Opaque('error', pos)
        if dst is None:
            o = ex.new_obj(-1, 'decoded')
            s2.mem[o] = symexec.BufCell(key, m)
            c = m.const()
            sl = Slice(o, (), 0, m if c is None else c, m if c is None else c)
            outs.append((s2, Tup([sl, err])))
            continue
        if dst is not NIL:
            if isinstance(dst.len, int):
                for i in range(min(dst.len, dec_max(kind, hi))):
                    ex.store(s2, Ptr(dst.obj, dst.path + (dst.off + i,)), symexec.buf_byte(key, i))
            else:
                if dst.off or dst.path:
                    raise VerifFail('unsupported', 'decoding into a part of a buffer', pos)
                s2.mem[dst.obj] = symexec.BufCell(key, m)
        outs.append((s2, Tup([m, err])))
    return outs


def b64_decode(ex, st, a, pos):
    return do_decode(ex, st, b64kind(a[0], pos), a[1], a[2], pos)


def b64_decodestring(ex, st, a, pos):
    return do_decode(ex, st, b64kind(a[0], pos), None, a[1], pos)


def hex_decode(ex, st, a, pos):
    return do_decode(ex, st, 'hex', a[0], a[1], pos)


def hex_decodestring(ex, st, a, pos):
    return do_decode(ex, st, 'hex', None, a[0], pos)


def do_encode(ex, st, kind, dst, src, pos, string=False):
    bs = as_bytes(ex, st, src, pos)
    n = enc_len(kind, len(bs))
    p = enc_value(kind, len(bs), field.packed(bs, 8))
    c = field.BYCell(p, n).materialise(ex, st, None)
    if string:
        return Opaque('str', c)
    if dst is NIL or symexec.slice_len_iv(st, dst)[0] < n:
        return Panic('the buffer is too small for the encoded bytes', pos)
    if not isinstance(dst.len, int):
        raise VerifFail('unsupported', 'encoding into a slice of symbolic length', pos)
    for i, v in enumerate(c):
        ex.store(st, Ptr(dst.obj, dst.path + (dst.off + i,)), v)
    return n


def b64_encode(ex, st, a, pos):
    r = do_encode(ex, st, b64kind(a[0], pos), a[1], a[2], pos)
    return [(st, r if isinstance(r, Panic) else None)]


def b64_encodestring(ex, st, a, pos):
    return [(st, do_encode(ex, st, b64kind(a[0], pos), None, a[1], pos, True))]


def hex_encode(ex, st, a, pos):
    r = do_encode(ex, st, 'hex', a[0], a[1], pos)
    return [(st, r if isinstance(r, Panic) else con(INT, r))]


def hex_encodestring(ex, st, a, pos):
    return [(st, do_encode(ex, st, 'hex', None, a[0], pos, True))]


def enclen(kind):
    def f(ex, st, a, pos):
        k = kind or b64kind(a[0], pos)
        c = a[-1].const()
        if c is None:
            raise VerifFail('unsupported', 'EncodedLen of a symbolic length', pos)
        return [(st, con(INT, enc_len(k, c)))]
    return f


def declen(kind):
    def f(ex, st, a, pos):
        k = kind or b64kind(a[0], pos)
        x = a[-1]
        lo, hi = symexec.len_iv(x)
        if lo == hi:
            return [(st, con(INT, dec_max(k, lo)))]
        if lo < 0:
            raise VerifFail('unsupported', 'DecodedLen of a negative length', pos)
        T = poly.C.extra.setdefault('declen', {})
        if (k, x.p) not in T:
            l, h = dec_max(k, lo), dec_max(k, hi)
            T[(k, x.p)] = V(INT, IP.var(poly.C.new('DecodedLen%d' % len(T), l, h)), l, h, ('declen', k, x.p))
        return [(st, T[(k, x.p)])]
    return f


def opaque_error(ex, st, a, pos):
    return [(st, Opaque('error', pos))]


def opaque_string(ex, st, a, pos):
    return [(st, Opaque('str', ('formatted', pos)))]


def skip(ex, st, a, pos):
    return [(st, None)]


def hooks():
    h = {
        'fmt.Errorf': opaque_error,
        'errors.New': opaque_error,
        'fmt.Sprintf': opaque_string,
        'fmt.Sprint': opaque_string,
        '(*math/big.Int).String': opaque_string,
        '(*math/big.Int).Text': opaque_string,
    }
    for n, w in (('64', 64), ('32', 32), ('', val.WORD)):
        h['math/bits.Mul' + n] = b_mul(w)
        h['math/bits.Add' + n] = b_add(w)
        h['math/bits.Sub' + n] = b_sub(w)
    h['bytes.Equal'] = bytes_equal
    h['io.ReadFull'] = read_full
    h['crypto/sha512.Sum512'] = sha('sha512', 64)
    h['crypto/sha256.Sum256'] = sha('sha256', 32)
    h['crypto/sha512.New'] = sha_new('sha512', 64)
    h['crypto/sha256.New'] = sha_new('sha256', 32)
    h.update({'invoke:Write': hash_write, 'invoke:Sum': hash_sum, 'invoke:Reset': hash_reset, 'invoke:Size': hash_size})
    h['crypto/rand.Read'] = rand_read
    h['crypto/subtle.ConstantTimeCompare'] = subtle_compare
    h['crypto/subtle.ConstantTimeCopy'] = subtle_copy
    h['crypto/subtle.ConstantTimeSelect'] = subtle_select
    h['crypto/subtle.ConstantTimeEq'] = subtle_eq
    h['crypto/subtle.ConstantTimeByteEq'] = subtle_eq
    E = '(*encoding/base64.Encoding).'
    h.update({E + 'EncodedLen': enclen(None), E + 'DecodedLen': declen(None), E + 'Encode': b64_encode, E + 'EncodeToString': b64_encodestring,
              E + 'Decode': b64_decode, E + 'DecodeString': b64_decodestring})
    h.update({'encoding/hex.EncodedLen': enclen('hex'), 'encoding/hex.DecodedLen': declen('hex'), 'encoding/hex.Encode': hex_encode,
              'encoding/hex.EncodeToString': hex_encodestring, 'encoding/hex.Decode': hex_decode, 'encoding/hex.DecodeString': hex_decodestring})
    B = '(*math/big.Int).'
    h.update({B + 'SetBytes': big_setbytes, B + 'SetString': big_setstring, B + 'Mod': big_mod, B + 'Bytes': big_bytes,
              B + 'FillBytes': big_fillbytes, B + 'Add': big_bin(lambda x, y: x + y), B + 'Sub': big_bin(lambda x, y: x - y),
              B + 'Mul': big_bin(lambda x, y: x * y), B + 'Set': big_set, B + 'SetUint64': big_setint, B + 'SetInt64': big_setint,
              'math/big.NewInt': big_newint})
    for p in ('crypto/rand', 'crypto/sha512', 'crypto/sha256', 'encoding/base64', 'encoding/binary', 'encoding/hex',
              'fmt', 'math/big', 'math/bits', 'errors', 'crypto/subtle', 'io', 'bytes', 'strings'):
        h[p + '.init'] = skip
    return h

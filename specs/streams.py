"""Byte-addressed model of iostreams (trusted): typed cells written by write()/<<, read back by read()/>>/getline.

kind[b]: 0 nothing known, n unsigned integer of n bytes, 50+n signed, 100+n floating, 200 open C string, 201 NUL-terminated string.
A read whose size or type differs from the cell written at that offset yields an arbitrary value."""
from vc.contract import *
from vc.interp import *
import z3
Z, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
S = z3.Select
TRUSTED = ['iostreams modelled as byte-addressed typed cells: values written by write()/<< are read back unchanged by a read of the same type at the same offset; '
           'files keep their content across close and open; writes do not fail']
STREAMS = ['std::basic_fstream', 'std::basic_ifstream', 'std::basic_ofstream', 'std::basic_iostream', 'std::basic_istream', 'std::basic_ostream',
           'std::basic_stringstream', 'std::basic_istringstream', 'std::basic_ostringstream', 'std::basic_ios']


def mk(I, T, nm, lift=()):
    c = lambda n, s: SV(z3.Const(nm + '.' + n, lift_sort(s, lift)), None)
    st = StV('$stream', {'kind': c('kind', z3.ArraySort(Z, Z)), 'iv': c('iv', z3.ArraySort(Z, Z)), 'rv': c('rv', z3.ArraySort(Z, R)),
                         'sv': c('sv', z3.ArraySort(Z, I.Str)), 'len': c('len', Z), 'g': c('g', Z), 'p': c('p', Z), 'open': c('open', Z),
                         'ok': c('ok', B), 'app': c('app', B), 'joint': c('joint', B)})
    return st


def wf(s):
    b = z3.Int('b!w')
    f = lambda k: s.f[k].t
    return And(f('len') >= 0, f('g') >= 0, f('g') <= f('len'), f('p') >= 0, f('p') <= f('len'), f('open') >= -1, f('open') <= f('len'),
               forall([b], Implies(Or(b >= f('len'), b < 0), S(f('kind'), b) == 0), S(f('kind'), b)))


def upd(s, **k):
    return StV('$stream', {**s.f, **{a: (v if isinstance(v, V) else SV(v, None)) for a, v in k.items()}})


def empty(I, T):
    s = mk(I, T, I.name('estream'))
    return upd(s, kind=z3.K(Z, IntVal(0)), len=IntVal(0), g=IntVal(0), p=IntVal(0), open=IntVal(-1), ok=BoolVal(True), app=BoolVal(False), joint=BoolVal(False))


def kind_of(I, T):
    T = I.T(T)
    if T['k'] == 'enum':
        T = I.T(T['u'])
    if T['k'] == 'int':
        return T['w'] // 8 + (50 if T['sg'] and T['w'] > 8 else 0)
    if T['k'] == 'bool':
        return 51
    if T['k'] == 'float':
        return 100 + T['w'] // 8
    raise Unsupported('stream cell of type %s' % T.get('s'))


def strlen(I, s):
    r = I.uf('strlen', I.Str, INT)(s)
    I.fact(r >= 0)
    I.fact((r == 0) == (s == I.strlit(b'').t))
    return r


def access(I, lv):
    h = getattr(I, 'stream_access', None)
    if h is not None:
        h(I, lv)


def put(I, lv, kind, val, size, string=False):
    """Appends (or overwrites in place) one cell."""
    access(I, lv)
    s = I.read(lv)
    f = lambda k: s.f[k].t
    w = If(f('app'), f('len'), f('p'))
    if I.valid(w == f('len')):
        w = f('len')
    at_end = w == f('len')
    I.check('stream write at the end or over a cell of the same size', Or(at_end, And(S(f('kind'), w) == kind, BoolVal(not string))))
    n = dict(kind=z3.Store(f('kind'), w, IntVal(kind)))
    if string:
        n['sv'] = z3.Store(f('sv'), w, val)
    elif val.sort() == R:
        n['rv'] = z3.Store(f('rv'), w, val)
    else:
        n['iv'] = z3.Store(f('iv'), w, I.toint(val))
    ln = z3.simplify(w + size)
    n['len'] = z3.simplify(If(at_end, ln, f('len')))
    n['p'] = ln
    n['g'] = z3.simplify(If(f('joint'), ln, f('g')))
    n['open'] = w if string else IntVal(-1)
    I.write(lv, upd(s, **n))
    return w


def put_char(I, lv, t):
    s = I.read(lv)
    op = s.f['open'].t
    put(I, lv, 1, t, 1)
    s2 = I.read(lv)
    z = z3.simplify(t)
    if z3.is_int_value(z) and z.as_long() == 0:
        I.write(lv, upd(s2, kind=z3.simplify(If(op >= 0, z3.Store(s2.f['kind'].t, op, IntVal(201)), s2.f['kind'].t))))


def setg(I, lv, g):
    s = I.read(lv)
    I.write(lv, upd(s, g=g, p=z3.simplify(If(s.f['joint'].t, g, s.f['p'].t))))


def get(I, lv, T, size):
    """Reads one value of type T; returns None when the bytes cannot be there (read failed)."""
    access(I, lv)
    T = I.T(T)
    s = I.read(lv)
    f = lambda k: s.f[k].t
    kind = kind_of(I, T)
    g = f('g')
    c = And(f('ok'), S(f('kind'), g) == kind)
    k = I.choose([c, And(Not(c), f('ok'), g + size <= f('len')), And(Not(c), Or(Not(f('ok')), g + size > f('len')))]) if not I.valid(c) else 0
    if k == 0:
        I.fact(g + size <= f('len'))
        v = SV(S(f('rv') if kind > 100 else f('iv'), g), T)
        if T['k'] == 'bool':
            v = SV(v.t != 0, T)
        I.assume_range(v)
        setg(I, lv, z3.simplify(g + size))
        return v
    if k == 1:
        setg(I, lv, z3.simplify(g + size))
        return I.fresh(T, 'cell')
    I.write(lv, upd(I.read(lv), ok=BoolVal(False)))
    return None


def pointee(I, c, i):
    """Type and LV behind reinterpret_cast<char*>(&x)."""
    n = c.nodes[i]
    while n.get('e') in ('cast', 'paren') and n.get('ck') in ('BitCast', 'NoOp', 'LValueToRValue') and 'x' in n:
        n2 = n['x']
        if I.T(n2['t'])['k'] != 'ptr':
            break
        n = n2
    T = I.T(n['t'])
    if T['k'] != 'ptr':
        raise Unsupported('stream buffer argument')
    return I.T(T['to'])


def data_lv(I, v, T):
    if isinstance(v, PyV) and isinstance(v.o, LV):
        return v.o
    if isinstance(v, ItV):
        return v.cont + ('i', v.pos)
    if isinstance(v, SV):
        return I.deref(v, T)
    raise Unsupported('stream buffer %r' % (v,))


def csize(I, v):
    n = z3.simplify(v.t)
    if not z3.is_int_value(n):
        raise Unsupported('stream block of symbolic size')
    return n.as_long()


def width(T):
    return (T.get('w') or 8) // 8


def write(I, c):
    T = pointee(I, c, 0)
    p, n = c.rd(0), csize(I, c.rd(1))
    lv = data_lv(I, p, T)
    TT = I.T(T['u']) if T['k'] == 'enum' else T
    I.check('stream block size is the size of the value (line %s)' % c.line, BoolVal(n == width(TT)))
    v = I.read(lv, T)
    if not isinstance(v, SV):
        raise Unsupported('stream write of %r' % (v,))
    put(I, c.this, kind_of(I, T), v.t, n)
    return c.this


def read(I, c):
    T = pointee(I, c, 0)
    p, n = c.rd(0), csize(I, c.rd(1))
    lv = data_lv(I, p, T)
    TT = I.T(T['u']) if T['k'] == 'enum' else T
    I.check('stream block size is the size of the value (line %s)' % c.line, BoolVal(n == width(TT)))
    v = get(I, c.this, T, n)
    if v is not None:
        I.write(lv, v)
    return c.this


def shl(I, c):
    """std::operator<<(ostream&, char | const char* | string)"""
    lv = c.arg(0)
    v = c.rd(1)
    if not isinstance(lv, LV) or not isinstance(I.read(lv), StV):
        raise Unsupported('<< on a non-stream')
    if isinstance(v, SV) and v.t.sort() == I.Str:
        put(I, lv, 200, v.t, strlen(I, v.t), True)
        return lv
    if isinstance(v, SV) and v.t.sort() == INT:
        put_char(I, lv, v.t)
        return lv
    raise Unsupported('<< of %r' % (v,))


def shr(I, c):
    """std::operator>>(istream&, char&)"""
    lv, d = c.arg(0), c.arg(1)
    T = c.argT(1)
    if T['k'] != 'int' or T['w'] != 8:
        raise Unsupported('>> of %s' % T.get('s'))
    v = get(I, lv, T, 1)
    if v is not None:
        ws = Or(v.t == 32, And(v.t >= 9, v.t <= 13))      # skipped as white space
        r = I.fresh(T, 'nonws')
        if I.valid(Not(ws)):
            r = v
        else:
            s = I.read(lv)
            s2 = upd(s, g=I.const(Z, 'g'), ok=I.const(B, 'ok'))
            I.write(lv, StV('$stream', {k: SV(If(ws, s2.f[k].t, s.f[k].t), None) if k in ('g', 'ok') else s.f[k] for k in s.f}))
            r = SV(If(ws, r.t, v.t), T)
        I.write(d, r)
    return lv


def getline(I, c):
    lv, d = c.arg(0), c.arg(1)
    if c.n() < 3:
        raise Unsupported('getline of lines')
    z = z3.simplify(c.rd(2).t)
    if not (z3.is_int_value(z) and z.as_long() == 0):
        raise Unsupported('getline delimiter')
    access(I, lv)
    s = I.read(lv)
    f = lambda k: s.f[k].t
    hit = And(f('ok'), S(f('kind'), f('g')) == 201)
    k = 0 if I.valid(hit) else I.choose([hit, Not(hit)])
    if k == 0:
        v = S(f('sv'), f('g'))
        I.fact(f('g') + strlen(I, v) + 1 <= f('len'))
        I.write(d, SV(v, {'k': 'str'}))
        setg(I, lv, z3.simplify(f('g') + strlen(I, v) + 1))
        return lv
    I.write(d, SV(I.const(I.Str, 'line'), {'k': 'str'}))
    g = I.const(Z, 'g')
    I.assume(And(g >= 0, g <= f('len')))
    setg(I, lv, g)
    I.write(lv, upd(I.read(lv), ok=I.const(B, 'ok')))
    return lv


def seek(which):
    def fn(I, c):
        access(I, c.this)
        s = I.read(c.this)
        off = c.rd(0).t
        if c.n() == 2:
            d = z3.simplify(c.rd(1).t)
            if not z3.is_int_value(d):
                raise Unsupported('seek direction')
            base = {0: IntVal(0), 1: s.f[which].t, 2: s.f['len'].t}[d.as_long()]
            off = z3.simplify(base + off)
        I.check('stream seek inside the file (line %s)' % c.line, And(off >= 0, off <= s.f['len'].t))
        other = 'p' if which == 'g' else 'g'
        ok = s.f['ok'].t
        I.write(c.this, upd(s, **{which: z3.simplify(If(ok, off, s.f[which].t)), other: z3.simplify(If(And(s.f['joint'].t, ok), off, s.f[other].t))}))
        return c.this
    return fn


def tell(which):
    def fn(I, c):
        access(I, c.this)
        s = I.read(c.this)
        return SV(z3.simplify(If(s.f['ok'].t, s.f[which].t, IntVal(-1))), {'k': 'int', 'w': 64, 'sg': True, 's': 'long'})
    return fn


def good(I, c):
    return SV(I.read(c.this).f['ok'].t, None)


def install(I):
    I.opaque_types = dict(getattr(I, 'opaque_types', {}))
    I.opaque_zero = dict(getattr(I, 'opaque_zero', {}))
    for s in STREAMS:
        I.opaque_types[s] = mk
        I.opaque_zero[s] = empty
    for n in ('std::mutex', 'std::lock_guard', 'std::fpos'):
        I.opaque_types[n] = lambda I, T, nm, lift: SV(z3.Const(nm, lift_sort(Z, lift)), {'k': 'opaque', 's': 'x'})
        I.opaque_zero[n] = lambda I, T: SV(IntVal(0), {'k': 'opaque', 's': 'x'})
    e = {}
    e['std::basic_ostream::write'] = write
    e['std::basic_istream::read'] = read
    e['std::operator<<'] = shl
    e['std::operator>>'] = shr
    e['std::getline'] = getline
    e['std::basic_istream::seekg'] = seek('g')
    e['std::basic_ostream::seekp'] = seek('p')
    e['std::basic_istream::tellg'] = tell('g')
    e['std::basic_ostream::tellp'] = tell('p')
    e['std::basic_ostream::flush'] = lambda I, c: c.this
    e['std::fpos::operator long'] = lambda I, c: c.rdthis()
    for s in STREAMS:
        e[s + '::good'] = e[s + '::operator bool'] = good
    e['std::operator|'] = lambda I, c: SV(I.bitop('|', c.rd(0).t, c.rd(1).t, {'k': 'int', 'w': 32, 'sg': True}), None)
    e['ctor std::mutex'] = lambda I, c: SV(IntVal(0), {'k': 'opaque', 's': 'x'})

    def lock(I, c):
        if '$lock' in I.st.ghost:
            I.gset('$lock', SV(BoolVal(True), None))
        return SV(IntVal(0), {'k': 'opaque', 's': 'x'})
    e['ctor std::lock_guard'] = e['ctor std::unique_lock'] = lock
    for k, v in e.items():
        I.extra.setdefault(k, v)


def frame_template(lc):
    """Every modified leaf keeps its value of loop entry (only the inductive ones survive)."""
    I = lc.I
    for m in sorted(lc.M, key=str):
        if m[0] != 'root' or m[1] not in lc.entry.roots:
            continue
        lv = LV('root', m[1], tuple(('f', x) for x in m[2]))
        v0 = lc.get(lc.entry, lv)

        def stream(v, lv):
            if isinstance(v, StV):
                if v.cls == '$stream':
                    f = lambda st, k: lc.get(st, lv).f[k].t
                    yield ('stream positions of %s inside the file' % (lv.path,), lambda st: And(f(st, 'g') >= 0, f(st, 'g') <= f(st, 'len'), f(st, 'p') >= 0, f(st, 'p') <= f(st, 'len')))
                else:
                    for k in v.f:
                        yield from stream(v.f[k], lv + ('f', k))
        yield from stream(v0, lv)
        if isinstance(v0, PyV):
            continue
        for i, t in enumerate(leaves(v0)):
            yield ('unchanged %s.%d' % ('.'.join(m[2]) or m[1], i), lambda st, lv=lv, i=i, t=t: leaves(lc.get(st, lv))[i] == t)

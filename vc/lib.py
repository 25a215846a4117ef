"""Trusted contracts of the standard library (and of the few third-party types the code uses)."""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll, Exists
from .core import *

REG = {}


def lib(*names):
    def d(fn):
        for n in names:
            REG[n] = fn
        return fn
    return d


def const_name(I, b):
    return I.name(b)


# ------------------------------------------------------------------ no-ops / identity
@lib('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::__addressof', 'std::addressof')
def _(I, c):
    return c.arg(0)


@lib('std::vector::reserve', 'std::basic_string::reserve', 'std::vector::shrink_to_fit', 'std::unordered_map::reserve',
     'std::basic_string::shrink_to_fit')
def _(I, c):
    c.args()
    return VOID


@lib('__assert_fail')
def _(I, c):
    if I.quiet == 0:
        I.check('assertion holds (line %s)' % c.line, BoolVal(False))
    raise PathEnd()


@lib('std::min')
def _(I, c):
    a, b = c.rd(0), c.rd(1)
    return I.new_root(SV(If(I.compare('<', b.t, a.t), b.t, a.t), a.T))


@lib('std::max')
def _(I, c):
    a, b = c.rd(0), c.rd(1)
    return I.new_root(SV(If(I.compare('<', a.t, b.t), b.t, a.t), a.T))


@lib('std::swap')
def _(I, c):
    a, b = c.lv(0), c.lv(1)
    x, y = I.read(a, c.argT(0)), I.read(b, c.argT(1))
    I.write(a, y)
    I.write(b, x)
    return VOID


# ------------------------------------------------------------------ math
def mathfn(name, n=1):
    def fn(I, c):
        s = I.dsort()
        a = [c.rd(i).t for i in range(n)]
        if I.cfg.dbl == 'real':
            a = [z3.ToReal(t) if t.sort() == INT else t for t in a]
        r = I.uf('c_' + name, *([s] * (n + 1)))(*a)
        return SV(r, c.ret() if c.f else None)
    return fn


for _n in ('sin', 'cos', 'tan', 'atan', 'exp', 'log', 'sqrt', 'asin', 'acos', 'sinh', 'cosh', 'log2', 'cbrt'):
    REG[_n] = REG['std::' + _n] = mathfn(_n)
for _n in ('atan2', 'fmod', 'hypot'):
    REG[_n] = REG['std::' + _n] = mathfn(_n, 2)


@lib('pow', 'std::pow')
def _(I, c):
    a, b = c.rd(0).t, c.rd(1).t
    a, b = z3.simplify(a), z3.simplify(b)
    s = I.dsort()
    if I.cfg.dbl == 'real' and (z3.is_rational_value(a) or z3.is_int_value(a)):
        two = a.as_fraction() == 2 if z3.is_rational_value(a) else a.as_long() == 2
        if two:
            bi = z3.simplify(b)
            if bi.sort() == REAL and z3.is_app(bi) and bi.decl().kind() == z3.Z3_OP_TO_REAL:
                bi = bi.arg(0)
            if bi.sort() == INT:
                if z3.is_int_value(bi):
                    return SV(z3.RealVal(2 ** bi.as_long()) if bi.as_long() >= 0 else z3.Q(1, 2 ** -bi.as_long()), c.ret())
                return SV(I.uf('pow2', INT, REAL)(bi), c.ret())
            if z3.is_rational_value(bi) and bi.as_fraction().denominator == 1:
                n = bi.as_fraction().numerator
                return SV(z3.RealVal(2 ** n) if n >= 0 else z3.Q(1, 2 ** -n), c.ret())
    if I.cfg.dbl == 'real':
        a = z3.ToReal(a) if a.sort() == INT else a
        b = z3.ToReal(b) if b.sort() == INT else b
        if z3.is_rational_value(b) and b.as_fraction().denominator == 1 and 0 <= b.as_fraction().numerator <= 4:
            r = z3.RealVal(1)
            for _i in range(b.as_fraction().numerator):
                r = r * a
            return SV(r, c.ret())
    return SV(I.uf('c_pow', s, s, s)(a, b), c.ret())


@lib('floor', 'std::floor')
def _(I, c):
    a = c.rd(0).t
    if I.cfg.dbl == 'real':
        return SV(z3.ToReal(z3.ToInt(a)), c.ret())
    return SV(z3.fpRoundToIntegral(z3.RTN(), a), c.ret())


@lib('ceil', 'std::ceil')
def _(I, c):
    a = c.rd(0).t
    if I.cfg.dbl == 'real':
        return SV(-z3.ToReal(z3.ToInt(-a)), c.ret())
    return SV(z3.fpRoundToIntegral(z3.RTP(), a), c.ret())


@lib('round', 'std::round')
def _(I, c):
    a = c.rd(0).t
    if I.cfg.dbl == 'real':
        h = z3.Q(1, 2)
        return SV(If(a >= 0, z3.ToReal(z3.ToInt(a + h)), -z3.ToReal(z3.ToInt(-a + h))), c.ret())
    return SV(z3.fpRoundToIntegral(z3.RNA(), a), c.ret())


@lib('std::abs', 'abs', 'fabs', 'std::fabs')
def _(I, c):
    a = c.rd(0)
    if z3.is_fp(a.t):
        return SV(z3.fpAbs(a.t), a.T)
    return SV(If(a.t >= 0, a.t, -a.t), a.T)


@lib('std::isnan')
def _(I, c):
    a = c.rd(0)
    return SV(z3.fpIsNaN(a.t) if z3.is_fp(a.t) else BoolVal(False), None)


@lib('std::numeric_limits::infinity')
def _(I, c):
    return SV(I.dconst(float('inf')), c.ret())


@lib('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest', 'std::numeric_limits::epsilon')
def _(I, c):
    import sys
    T = c.ret()
    nm = c.f['sn']
    if T['k'] == 'float':
        v = {'max': sys.float_info.max, 'min': sys.float_info.min, 'lowest': -sys.float_info.max, 'epsilon': sys.float_info.epsilon}[nm]
        return SV(I.dconst(v), T)
    lo, hi = I.irange(T)
    return SV(IntVal(hi if nm == 'max' else lo), T)


# ------------------------------------------------------------------ vector / string / deque (and list used as a sequence)
SEQ = ['std::vector', 'std::basic_string', 'std::deque', 'std::list', 'std::initializer_list', 'std::array']


def seq(*ms):
    def d(fn):
        for s in SEQ:
            for m in ms:
                REG[s + '::' + m] = fn
        return fn
    return d


def vthis(I, c):
    v = c.rdthis()
    if not isinstance(v, VecV):
        raise Unsupported('sequence operation %s on %r' % (c.q, v))
    return v


@seq('size', 'length')
def _(I, c):
    v = c.rdthis()
    if isinstance(v, SV):   # opaque string
        r = I.uf('strlen', I.Str, INT)(v.t)
        I.fact(r >= 0)
        return SV(r, c.ret())
    I.fact(And(v.len >= 0, v.len <= 2 ** 48)) if not z3.is_int_value(v.len) else None
    return SV(v.len, c.ret())


@seq('empty')
def _(I, c):
    v = c.rdthis()
    if isinstance(v, SV):
        return SV(v.t == I.strlit(b'').t, c.ret())
    return SV(v.len == 0, c.ret())


@seq('data', 'c_str')
def _(I, c):
    v = c.rdthis()
    if isinstance(v, SV):
        return v
    return ItV('vec', c.this, IntVal(0))


@seq('operator[]', 'at')
def _(I, c):
    i = c.rd(0).t
    I.bounds(c.this, i, c.line)
    return c.this + ('i', i)


@seq('front')
def _(I, c):
    I.bounds(c.this, IntVal(0), c.line, 'front()')
    return c.this + ('i', IntVal(0))


@seq('back')
def _(I, c):
    v = vthis(I, c)
    i = z3.simplify(v.len - 1)
    I.bounds(c.this, i, c.line, 'back()')
    return c.this + ('i', i)


@seq('begin', 'cbegin')
def _(I, c):
    return ItV('vec', c.this, IntVal(0))


@seq('end', 'cend')
def _(I, c):
    return ItV('vec', c.this, vthis(I, c).len)


@seq('rbegin', 'crbegin')
def _(I, c):
    return ItV('vec', c.this, z3.simplify(vthis(I, c).len - 1), None, True)


@seq('rend', 'crend')
def _(I, c):
    return ItV('vec', c.this, IntVal(-1), None, True)


@lib('std::begin', 'std::cbegin')
def _(I, c):
    return ItV('vec', c.lv(0), IntVal(0))


@lib('std::end', 'std::cend')
def _(I, c):
    return ItV('vec', c.lv(0), c.rd(0).len)


def push(I, lv, x):
    v = I.read(lv)
    I.lift_ok(x)
    I.write(lv, VecV(z3.simplify(v.len + 1), store(v.el, v.len, x), v.kind))


@seq('push_back')
def _(I, c):
    push(I, c.this, c.rd(0))
    return VOID


def construct_from(I, T, c, start=0):
    """Builds a T from the call's arguments start.. (emplace)."""
    T = I.noref(T)
    args = c.args()[start:]
    vals = [I.read(a, c.argT(start + i)) if isinstance(a, LV) else a for i, a in enumerate(args)]
    if I.scalar_sort(T) is not None:
        if not vals:
            return I.zero(T)
        return coerce(I, vals[0], T)
    n = I.rname(T)
    if n == 'std::pair' and len(vals) == 2 and not (isinstance(vals[0], StV) and vals[0].cls == 'std::pair' and len(vals) == 1):
        return StV('std::pair', {'first': vals[0], 'second': vals[1]})
    if len(vals) == 1 and same_shape(I, vals[0], T):
        return vals[0]
    if I.is_own(T):
        cands = [f for f in I.m.funcs.values() if f.get('ctor') and not f.get('dflt') and I.noref(f['cls']).get('rid') == T['rid'] and len(f['params']) == len(args)]
        cands = [f for f in cands if not (len(f['params']) == 1 and I.noref(f['params'][0]['t']).get('rid') == T['rid'])]
        if len(cands) == 1:
            return I.construct(cands[0], args)
        if not args:
            return I.zero(T)
    if not vals:
        return I.zero(T)
    h = REG.get('ctor ' + (n or ''))
    if h:
        old = c.T
        c2 = c
        from .interp import Call
        c2 = Call(I, None, None, None, c.e, args)
        c2.T = T
        c2.f = None
        return h(I, c2)
    raise Unsupported('construct %s from %d arguments' % (T.get('s'), len(vals)))


def coerce(I, v, T):
    S = v.T or T
    if T['k'] == 'float' and v.t.sort() == INT:
        return SV(I.int2dbl(v.t, T), T)
    if T['k'] == 'int' and v.t.sort() == INT:
        return SV(I.wrap(v.t, T), T)
    return SV(v.t, T)


def same_shape(I, v, T):
    if isinstance(v, StV):
        return v.cls == T.get('n') or v.cls == I.rname(T) or v.cls.startswith('$') and I.rname(T) in getattr(I, 'opaque_types', {})
    n = I.rname(T)
    from .interp import VEC_TYPES, MAP_TYPES, SET_TYPES, PTR_TYPES
    if isinstance(v, VecV):
        return n in VEC_TYPES or n == 'std::basic_string'
    if isinstance(v, MapV):
        return n in MAP_TYPES or n in SET_TYPES
    if isinstance(v, SV):
        return n in PTR_TYPES or n == 'std::basic_string' and v.t.sort() == I.Str
    return isinstance(v, PyV)


@seq('emplace_back')
def _(I, c):
    push(I, c.this, construct_from(I, I.targ(c.thisT(), 0), c))
    return VOID


@seq('pop_back')
def _(I, c):
    v = vthis(I, c)
    if I.cfg.bounds:
        I.check('pop_back of a non-empty container (line %s)' % c.line, v.len > 0)
    I.write(c.this, VecV(z3.simplify(v.len - 1), v.el, v.kind))
    return VOID


@seq('clear')
def _(I, c):
    v = vthis(I, c)
    I.write(c.this, VecV(IntVal(0), v.el, v.kind))
    return VOID


@seq('resize')
def _(I, c):
    v = vthis(I, c)
    n = c.rd(0).t
    fill = c.rd(1) if c.n() > 1 else I.zero(I.targ(c.thisT(), 0) if v.kind != 'str' else I.chartype())
    new = fill_from(I, v, v.len, fill)
    I.write(c.this, VecV(n, new, v.kind))
    return VOID


def fill_from(I, v, frm, fill):
    """Elements from index frm on become fill."""
    nv = I.refresh(v.el, 'fill')
    i = z3.Int('i!q')
    for a, b, f in zip(leaves(nv), leaves(v.el), leaves(fill)):
        I.assume(ForAll([i], z3.Select(a, i) == If(i < frm, z3.Select(b, i), f), patterns=[z3.Select(a, i)]))
    return nv


@seq('swap')
def _(I, c):
    o = c.lv(0)
    a, b = I.read(c.this), I.read(o)
    I.write(c.this, b)
    I.write(o, a)
    return VOID


@seq('operator=')
def _(I, c):
    v = c.rd(0)
    if isinstance(v, SV) and v.t.sort() == INT and v.T and v.T.get('ch'):
        v = strchar(I, v)
    if isinstance(v, ItV):
        raise Unsupported('assignment from pointer')
    I.write(c.this, v)
    return c.this


def strchar(I, ch):
    return VecV(IntVal(1), SV(z3.K(INT, ch.t), I.chartype()), 'str')


def concat(I, a, b):
    """Sequence concatenation; concrete-length appends become stores."""
    lb = z3.simplify(b.len)
    if z3.is_int_value(lb) and lb.as_long() <= 64:
        el = a.el
        for k in range(lb.as_long()):
            el = store(el, z3.simplify(a.len + k), select(b.el, IntVal(k)))
        return VecV(z3.simplify(a.len + lb), el, a.kind)
    nv = I.refresh(a.el, 'cat')
    i = z3.Int('i!q')
    for n, x, y in zip(leaves(nv), leaves(a.el), leaves(b.el)):
        I.assume(ForAll([i], z3.Select(n, i) == If(i < a.len, z3.Select(x, i), z3.Select(y, i - a.len)), patterns=[z3.Select(n, i)]))
    return VecV(z3.simplify(a.len + b.len), nv, a.kind)


def range_vec(I, a, b):
    """[a, b) as a sequence value."""
    if not (isinstance(a, ItV) and a.kind == 'vec'):
        raise Unsupported('iterator range')
    src = I.read(a.cont)
    if a.rev:
        nv = I.refresh(src.el, 'rev')
        i = z3.Int('i!q')
        for n, x in zip(leaves(nv), leaves(src.el)):
            I.assume(ForAll([i], z3.Select(n, i) == z3.Select(x, a.pos - i), patterns=[z3.Select(n, i)]))
        return VecV(z3.simplify(a.pos - b.pos), nv, src.kind)
    if z3.is_int_value(z3.simplify(a.pos)) and z3.simplify(a.pos).as_long() == 0:
        return VecV(b.pos, src.el, src.kind)
    nv = I.refresh(src.el, 'rng')
    i = z3.Int('i!q')
    for n, x in zip(leaves(nv), leaves(src.el)):
        I.assume(ForAll([i], z3.Select(n, i) == z3.Select(x, a.pos + i), patterns=[z3.Select(n, i)]))
    return VecV(z3.simplify(b.pos - a.pos), nv, src.kind)


def splice(I, v, pos, mid):
    """v[0,pos) ++ mid ++ v[pos,)"""
    p = z3.simplify(pos)
    if p.eq(z3.simplify(v.len)):
        return concat(I, v, mid)
    nv = I.refresh(v.el, 'ins')
    i = z3.Int('i!q')
    for n, x, y in zip(leaves(nv), leaves(v.el), leaves(mid.el)):
        I.assume(ForAll([i], z3.Select(n, i) == If(i < p, z3.Select(x, i), If(i < p + mid.len, z3.Select(y, i - p), z3.Select(x, i - mid.len))),
                        patterns=[z3.Select(n, i)]))
    return VecV(z3.simplify(v.len + mid.len), nv, v.kind)


@seq('insert')
def _(I, c):
    v = vthis(I, c)
    it = c.rd(0)
    if not isinstance(it, ItV):
        raise Unsupported('insert by index')
    if c.n() == 3:
        mid = range_vec(I, c.rd(1), c.rd(2))
    else:
        x = c.rd(1)
        mid = VecV(IntVal(1), vmap(lambda t: z3.K(INT, t), x), v.kind)
    I.write(c.this, splice(I, v, it.pos, mid))
    return ItV('vec', c.this, it.pos)


@seq('erase')
def _(I, c):
    v = vthis(I, c)
    it = c.rd(0)
    n = IntVal(1)
    if c.n() == 2:
        n = c.rd(1).pos - it.pos
    if I.cfg.bounds:
        I.check('erase range valid (line %s)' % c.line, And(it.pos >= 0, n >= 0, it.pos + n <= v.len))
    nv = I.refresh(v.el, 'era')
    i = z3.Int('i!q')
    for a, x in zip(leaves(nv), leaves(v.el)):
        I.assume(ForAll([i], z3.Select(a, i) == If(i < it.pos, z3.Select(x, i), z3.Select(x, i + n)), patterns=[z3.Select(a, i)]))
    I.write(c.this, VecV(z3.simplify(v.len - n), nv, v.kind))
    return ItV('vec', c.this, it.pos)


@lib('ctor std::vector', 'ctor std::deque', 'ctor std::list')
def _(I, c):
    T = c.T
    n = c.n()
    args = [a for a in c.args()]
    vals = [c.rd(i) for i in range(n)]
    while vals and isinstance(vals[-1], SV) and vals[-1].T is not None and 'allocator' in str(vals[-1].T.get('s')):
        vals.pop()
    if not vals:
        return I.zero(T)
    if isinstance(vals[0], VecV):
        return VecV(vals[0].len, vals[0].el, 'vec')
    if isinstance(vals[0], ItV):
        v = range_vec(I, vals[0], vals[1])
        return VecV(v.len, v.el, 'vec')
    fill = vals[1] if len(vals) > 1 else I.zero(I.targ(T, 0))
    v = I.fresh(T, 'vec')
    return VecV(vals[0].t, vmap(lambda a, b: z3.K(INT, b), v.el, fill), 'vec')


@lib('ctor std::allocator')
def _(I, c):
    return SV(IntVal(0), {'k': 'opaque', 's': 'allocator'})


@lib('ctor std::basic_string')
def _(I, c):
    vals = [c.rd(i) for i in range(c.n())]
    vals = [v for v in vals if not (isinstance(v, SV) and v.T is not None and 'allocator' in str(v.T.get('s')))]
    if not vals:
        return I.strlit(b'')
    if isinstance(vals[0], ItV):
        if len(vals) > 1 and isinstance(vals[1], ItV):
            v = range_vec(I, vals[0], vals[1])
            return VecV(v.len, v.el, 'str')
        if len(vals) == 1:
            raise Unsupported('string from char*')
        v = range_vec(I, vals[0], ItV('vec', vals[0].cont, vals[0].pos + vals[1].t))
        return VecV(v.len, v.el, 'str')
    if isinstance(vals[0], (VecV,)) or isinstance(vals[0], SV) and vals[0].t.sort() == I.Str:
        if len(vals) == 1:
            return vals[0]
    if isinstance(vals[0], SV) and len(vals) == 2 and isinstance(vals[1], SV) and I.cfg.strs == 'vec':
        return VecV(vals[0].t, SV(z3.K(INT, vals[1].t), I.chartype()), 'str')
    raise Unsupported('string constructor')


def is_opstr(I, v):
    return isinstance(v, SV) and v.t.sort() == I.Str


def strcat(I, a, b):
    if is_opstr(I, a) or is_opstr(I, b):
        def s(v):
            if is_opstr(I, v):
                return v.t
            return I.uf('str_of_char', INT, I.Str)(v.t)
        return SV(I.uf('strcat', I.Str, I.Str, I.Str)(s(a), s(b)), a.T)
    if isinstance(a, SV):
        a = strchar(I, a)
    if isinstance(b, SV):
        b = strchar(I, b)
    return concat(I, a, b)


@lib('std::basic_string::operator+=', 'std::basic_string::append')
def _(I, c):
    I.write(c.this, strcat(I, c.rdthis(), c.rd(0)))
    return c.this


@lib('std::operator+')
def _(I, c):
    a, b = c.rd(0), c.rd(1)
    return strcat(I, a, b)


def val_eq(I, a, b):
    if is_opstr(I, a) and is_opstr(I, b):
        return a.t == b.t
    if isinstance(a, SV) and isinstance(b, SV):
        return I.compare('==', a.t, b.t)
    if isinstance(a, VecV) and isinstance(b, VecV):
        la, lb = z3.simplify(a.len), z3.simplify(b.len)
        if z3.is_int_value(lb) and lb.as_long() <= 40 or z3.is_int_value(la) and la.as_long() <= 40:
            n = lb.as_long() if z3.is_int_value(lb) else la.as_long()
            return And([a.len == b.len] + [x == y for k in range(n) for x, y in
                                           zip(leaves(select(a.el, IntVal(k))), leaves(select(b.el, IntVal(k))))])
        from .contract import vec_eq
        return vec_eq(a, b)
    if isinstance(a, StV) and isinstance(b, StV):
        return And([val_eq(I, a.f[k], b.f[k]) for k in a.f])
    raise Unsupported('== on %r' % (a,))


@lib('std::operator==', '__gnu_cxx::operator==', 'std::__detail::operator==')
def _(I, c):
    a, b = c.rd(0), c.rd(1)
    if isinstance(a, (ItV,)) or isinstance(b, ItV):
        return SV(I.veq_op('==', a, b), c.ret())
    if nullcmp(a, b):
        return SV(nullcmp_t(I, a, b), c.ret())
    return SV(val_eq(I, a, b), c.ret())


@lib('std::operator!=', '__gnu_cxx::operator!=', 'std::__detail::operator!=')
def _(I, c):
    a, b = c.rd(0), c.rd(1)
    if isinstance(a, ItV) or isinstance(b, ItV):
        return SV(I.veq_op('!=', a, b), c.ret())
    if nullcmp(a, b):
        return SV(Not(nullcmp_t(I, a, b)), c.ret())
    return SV(Not(val_eq(I, a, b)), c.ret())


def nullcmp(a, b):
    return isinstance(a, PyV) or isinstance(b, PyV)


def nullcmp_t(I, a, b):
    return BoolVal(False) if not (isinstance(a, PyV) and isinstance(b, PyV)) else BoolVal(pyeq(a.o, b.o))


@lib('std::operator<')
def _(I, c):
    a, b = c.rd(0), c.rd(1)
    if is_opstr(I, a):
        return SV(I.uf('str_lt', I.Str, I.Str, BOOL)(a.t, b.t), c.ret())
    if isinstance(a, ItV):
        return SV(I.veq_op('<', a, b), c.ret())
    raise Unsupported('operator<')


@lib('__gnu_cxx::operator<')
def _(I, c):
    return SV(I.veq_op('<', c.rd(0), c.rd(1)), c.ret())


@lib('__gnu_cxx::operator-', 'std::operator-')
def _(I, c):
    return I.it_arith('-', c.rd(0), c.rd(1), c.ret())


@lib('std::basic_string::substr')
def _(I, c):
    v = vthis(I, c)
    p = c.rd(0).t
    n = c.rd(1).t if c.n() > 1 else v.len
    ln = If(p + n > v.len, v.len - p, n)
    r = range_vec(I, ItV('vec', c.this, p), ItV('vec', c.this, p + ln))
    return VecV(z3.simplify(ln), r.el, 'str')


# ------------------------------------------------------------------ iterators
IT = ['__gnu_cxx::__normal_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
      'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::reverse_iterator', 'std::_Deque_iterator',
      'std::__detail::_Node_iterator_base', 'std::_Bit_iterator']


def itm(*ms):
    def d(fn):
        for s in IT:
            for m in ms:
                REG[s + '::' + m] = fn
        return fn
    return d


def it_targ(I, c):
    return c.ret()


@itm('operator*')
def _(I, c):
    it = c.rdthis()
    if it.kind == 'vec':
        I.bounds(it.cont, it.pos, c.line, 'dereferenced iterator')
    elif it.kind == 'map' and I.cfg.bounds and it.end is not None:
        I.check('dereferenced iterator is not end (line %s)' % c.line, Not(it.end))
    return I.deref(it, c.ret())


@itm('operator->')
def _(I, c):
    it = c.rdthis()
    if it.kind == 'vec':
        I.bounds(it.cont, it.pos, c.line, 'dereferenced iterator')
    elif it.kind == 'map' and I.cfg.bounds and it.end is not None:
        I.check('dereferenced iterator is not end (line %s)' % c.line, Not(it.end))
    lv = I.deref(it, c.ret())
    if lv.kind == 'heap' and not lv.path:
        return SV(lv.base, {'k': 'ptr'})
    return PyV(lv)


@itm('operator++')
def _(I, c):
    it = c.rdthis()
    nv = I.step(it, 1, None)
    I.write(c.this, nv)
    return it if c.n() else c.this


@itm('operator--')
def _(I, c):
    it = c.rdthis()
    nv = I.step(it, -1, None)
    I.write(c.this, nv)
    return it if c.n() else c.this


@itm('operator+', 'operator-')
def _(I, c):
    return I.it_arith(c.f['sn'][-1], c.rdthis(), c.rd(0), None)


@itm('operator+=', 'operator-=')
def _(I, c):
    I.write(c.this, I.it_arith(c.f['sn'][-2], c.rdthis(), c.rd(0), None))
    return c.this


@itm('operator[]')
def _(I, c):
    it = I.it_arith('+', c.rdthis(), c.rd(0), None)
    I.bounds(it.cont, it.pos, c.line, 'dereferenced iterator')
    return I.deref(it, c.ret())


@itm('operator=')
def _(I, c):
    I.write(c.this, c.rd(0))
    return c.this


@itm('operator==')
def _(I, c):
    return SV(I.veq_op('==', c.rdthis(), c.rd(0)), c.ret())


@itm('operator!=')
def _(I, c):
    return SV(I.veq_op('!=', c.rdthis(), c.rd(0)), c.ret())


for _s in IT:
    def _ctor(I, c):
        if c.n() == 0:
            raise Unsupported('singular iterator')
        return c.rd(0)
    REG['ctor ' + _s] = _ctor


@lib('std::distance')
def _(I, c):
    return I.it_arith('-', c.rd(1), c.rd(0), c.ret())


@lib('std::next')
def _(I, c):
    return I.step(c.rd(0), 1, None) if c.n() < 2 else I.it_arith('+', c.rd(0), c.rd(1), None)


@lib('std::prev')
def _(I, c):
    return I.step(c.rd(0), -1, None)


@lib('std::advance')
def _(I, c):
    lv = c.lv(0)
    I.write(lv, I.it_arith('+', I.read(lv), c.rd(1), None))
    return VOID


# ------------------------------------------------------------------ pair / tuple
@lib('ctor std::pair')
def _(I, c):
    vals = [c.rd(i) for i in range(c.n())]
    if not vals:
        return I.zero(c.T)
    if len(vals) == 1:
        return vals[0]
    out = {}
    for k, (n, v) in enumerate(zip(('first', 'second'), vals)):
        ft = I.noref(I.targ(c.T, k))
        if isinstance(v, SV) and I.scalar_sort(ft) is not None:
            v = coerce(I, v, ft)
        out[n] = v
    return StV('std::pair', out)


@lib('std::make_pair')
def _(I, c):
    return StV('std::pair', {'first': c.rd(0), 'second': c.rd(1)})


@lib('std::make_tuple')
def _(I, c):
    return StV('std::tuple', {'e%d' % i: c.rd(i) for i in range(c.n())})


@lib('ctor std::tuple')
def _(I, c):
    T = I.T(c.f['cls'])
    n = len(T['args'])
    if c.n() == 1 and isinstance(c.rd(0), StV) and c.rd(0).cls == 'std::tuple' and len(c.rd(0).f) == n:
        return c.rd(0)
    if c.n() != n:
        raise Unsupported('tuple constructor')
    return StV('std::tuple', {'e%d' % i: c.rd(i) for i in range(n)})


@lib('std::get')
def _(I, c):
    i = c.f['targs'][0].get('v')
    lv = c.arg(0)
    if i is None or not (isinstance(lv, LV) and isinstance(I.read(lv), StV) and I.read(lv).cls == 'std::tuple'):
        raise Unsupported('std::get')
    return lv + ('f', 'e%d' % i)


@lib('std::pair::operator=', 'std::tuple::operator=')
def _(I, c):
    I.write(c.this, c.rd(0))
    return c.this


# ------------------------------------------------------------------ smart pointers
PT = ['std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr']


def ptm(*ms):
    def d(fn):
        for s in PT:
            for m in ms:
                REG[s + '::' + m] = fn
        return fn
    return d


@ptm('operator*')
def _(I, c):
    return I.deref(c.rdthis(), c.ret())


@ptm('operator->', 'get', 'lock')
def _(I, c):
    return c.rdthis()


@ptm('operator bool', 'conv')
def _(I, c):
    v = c.rdthis()
    return SV(v.t != 0 if isinstance(v, SV) else BoolVal(True), c.ret())


@ptm('operator=')
def _(I, c):
    I.write(c.this, c.rd(0))
    return c.this


@ptm('reset')
def _(I, c):
    I.write(c.this, c.rd(0) if c.n() else SV(IntVal(0), {'k': 'ptr'}))
    return VOID


@ptm('release')
def _(I, c):
    v = c.rdthis()
    I.write(c.this, SV(IntVal(0), {'k': 'ptr'}))
    return v


@ptm('use_count')
def _(I, c):
    return SV(I.const(INT, 'use'), c.ret())


for _s in PT:
    def _ctor(I, c):
        vals = [c.rd(i) for i in range(c.n())]
        return vals[0] if vals else SV(IntVal(0), {'k': 'ptr'})
    REG['ctor ' + _s] = _ctor


@lib('std::make_shared', 'std::make_unique')
def _(I, c):
    T = I.targ(c.ret(), 0)
    v = construct_from(I, T, c)
    return I.alloc(T, v)


@lib('std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::const_pointer_cast')
def _(I, c):
    return c.rd(0)


# ------------------------------------------------------------------ maps and sets
MAPS = ['std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap']


def mapm(*ms):
    def d(fn):
        for s in MAPS:
            for m in ms:
                REG[s + '::' + m] = fn
        return fn
    return d


def key_of(I, v):
    return enc(v)


def enum_of(I, lv, m):
    """Enumeration of a map's keys: (keys: Int -> K, idx: K -> Int), created once per map value."""
    kid = (m.has.get_id(), m.size.get_id())
    if kid in I.st.maps:
        return I.st.maps[kid][:2]
    keys = z3.Const(I.name('keys'), z3.ArraySort(INT, m.ks))
    idx = z3.Const(I.name('idx'), z3.ArraySort(m.ks, INT))
    i = z3.Int('i!q')
    k = z3.Const('k!q', m.ks)
    I.assume(ForAll([i], Implies(And(i >= 0, i < m.size), And(z3.Select(m.has, z3.Select(keys, i)), z3.Select(idx, z3.Select(keys, i)) == i)),
                    patterns=[z3.Select(keys, i)]))
    I.assume(ForAll([k], Implies(z3.Select(m.has, k), And(z3.Select(idx, k) >= 0, z3.Select(idx, k) < m.size, z3.Select(keys, z3.Select(idx, k)) == k)),
                    patterns=[z3.Select(m.has, k)]))
    I.st.maps[kid] = (keys, idx, m.has, m.size)
    return keys, idx


@mapm('size')
def _(I, c):
    m = c.rdthis()
    I.assume_range(m)
    return SV(m.size, c.ret())


@mapm('empty')
def _(I, c):
    m = c.rdthis()
    k = z3.Const('k!q', m.ks)
    I.fact((m.size == 0) == ForAll([k], Not(z3.Select(m.has, k)), patterns=[z3.Select(m.has, k)]))
    return SV(m.size == 0, c.ret())


@mapm('clear')
def _(I, c):
    m = c.rdthis()
    I.write(c.this, MapV(z3.K(m.ks, BoolVal(False)), m.val, IntVal(0), m.ks, m.T))
    return VOID


@mapm('find')
def _(I, c):
    m = c.rdthis()
    k = key_of(I, c.rd(0))
    return ItV('map', c.this, k, Not(z3.Select(m.has, k)))


@mapm('count')
def _(I, c):
    m = c.rdthis()
    k = key_of(I, c.rd(0))
    return SV(If(z3.Select(m.has, k), IntVal(1), IntVal(0)), c.ret())


@mapm('end', 'cend')
def _(I, c):
    return ItV('map', c.this, None, None)


@mapm('begin', 'cbegin')
def _(I, c):
    m = c.rdthis()
    keys, idx = enum_of(I, c.this, m)
    I.assume_range(m)
    return ItV('map', c.this, z3.Select(keys, IntVal(0)), m.size == 0)


def mapit_step(I, it, d):
    m = I.read(it.cont)
    keys, idx = enum_of(I, it.cont, m)
    if it.pos is None:
        raise Unsupported('-- from map end')
    j = z3.Select(idx, it.pos) + d
    return ItV('map', it.cont, z3.Select(keys, j), j >= m.size)


@mapm('at')
def _(I, c):
    m = c.rdthis()
    k = key_of(I, c.rd(0))
    if I.choose([z3.Select(m.has, k), Not(z3.Select(m.has, k))]) == 1:
        raise CxxThrow('std::out_of_range')
    return c.this + ('k', k)


def put(I, lv, m, k, v):
    has = z3.Select(m.has, k)
    I.write(lv, MapV(z3.Store(m.has, k, BoolVal(True)), store(m.val, k, v) if m.val is not None else None,
                     z3.simplify(m.size + If(has, IntVal(0), IntVal(1))), m.ks, m.T))


@mapm('operator[]')
def _(I, c):
    m = c.rdthis()
    k = key_of(I, c.rd(0))
    dflt = I.zero(I.targ(c.thisT(), 1))
    cur = select(m.val, k)
    put(I, c.this, m, k, ite(z3.Select(m.has, k), cur, dflt))
    return c.this + ('k', k)


@mapm('emplace', 'insert', 'try_emplace')
def _(I, c):
    m = c.rdthis()
    T = c.thisT()
    if c.n() == 2 and isinstance(c.rd(0), ItV) and isinstance(c.rd(1), ItV):
        raise Unsupported('range insert into map/set')
    if m.val is None:
        v = construct_from(I, I.targ(T, 0), c)
        k = key_of(I, v)
        has = z3.Select(m.has, k)
        I.write(c.this, MapV(z3.Store(m.has, k, BoolVal(True)), None, z3.simplify(m.size + If(has, IntVal(0), IntVal(1))), m.ks, m.T))
        return StV('std::pair', {'first': ItV('map', c.this, k, BoolVal(False)), 'second': SV(Not(has), None)})
    if c.n() == 1:
        p = c.rd(0)
        kv, vv = p.f['first'], p.f['second']
    else:
        kv = c.rd(0)
        vv = c.rd(1)
        VT = I.targ(T, 1)
        if not same_shape(I, vv, VT) and I.scalar_sort(I.noref(VT)) is None:
            vv = construct_from(I, VT, c, 1)
        elif isinstance(vv, SV) and I.scalar_sort(I.noref(VT)) is not None:
            vv = coerce(I, vv, I.noref(VT))
    k = key_of(I, kv)
    has = z3.Select(m.has, k)
    cur = select(m.val, k)
    put(I, c.this, m, k, ite(has, cur, vv))
    return StV('std::pair', {'first': ItV('map', c.this, k, BoolVal(False)), 'second': SV(Not(has), None)})


@mapm('erase')
def _(I, c):
    m = c.rdthis()
    a = c.rd(0)
    k = a.pos if isinstance(a, ItV) else key_of(I, a)
    if isinstance(a, ItV) and I.cfg.bounds:
        I.check('erased iterator is not end (line %s)' % c.line, Not(a.end))
    has = z3.Select(m.has, k)
    I.write(c.this, MapV(z3.Store(m.has, k, BoolVal(False)), m.val, z3.simplify(m.size - If(has, IntVal(1), IntVal(0))), m.ks, m.T))
    if isinstance(a, ItV):
        return PyV('erased-next')
    return SV(If(has, IntVal(1), IntVal(0)), c.ret())


@mapm('operator=')
def _(I, c):
    I.write(c.this, c.rd(0))
    return c.this


for _s in MAPS:
    def _ctor(I, c):
        if c.n() == 0:
            return I.zero(c.T)
        v = c.rd(0)
        if isinstance(v, MapV):
            return v
        if isinstance(v, SV):
            return I.zero(c.T)
        raise Unsupported('map constructor')
    REG['ctor ' + _s] = _ctor


# ------------------------------------------------------------------ std::function
@lib('ctor std::function')
def _(I, c):
    return c.rd(0) if c.n() else PyV(None)


@lib('std::function::operator()')
def _(I, c):
    v = c.rdthis()
    return I.invoke(v, c.args(), c.e)


@lib('std::function::operator=')
def _(I, c):
    I.write(c.this, c.rd(0))
    return c.this


# ------------------------------------------------------------------ algorithms (as loops over the iterator range)
def iter_loop(I, c, first, last, body):
    """Runs body(iterator) for first..last with the loop rule; the position lives in a root so invariants can see it."""
    pos = I.new_root(first)
    fr = I.frames[-1]
    key = ('alg', id(c.e))
    fr.vars[key] = pos
    fr.names[key] = ('it', None)
    en = I.new_root(last)
    fr.vars[key + ('end',)] = en
    fr.names[key + ('end',)] = ('end', None)
    s = c.e if c.e is not None else {'l': None}
    try:
        I.loop(s, lambda: I.veq_op('!=', I.read(pos), I.read(en)), lambda: body(I.read(pos)), lambda: I.write(pos, I.step(I.read(pos), 1, None)))
    finally:
        pass


@lib('std::for_each')
def _(I, c):
    f = c.rd(2)
    fl = I.new_root(f)
    iter_loop(I, c, c.rd(0), c.rd(1), lambda it: I.invoke(f if isinstance(f, PyV) else fl, [I.deref(it, None)], c.e))
    return f


# ------------------------------------------------------------------ algorithms with pure functors (quantified over the range)
def _same(a, b):
    if a is b:
        return True
    x, y = leaves(a), leaves(b)
    return len(x) == len(y) and all(p.eq(q) for p, q in zip(x, y)) and not isinstance(a, PyV)


def pure(I, lo, hi, n, body):
    """(index constants, condition over them): truth of body(indices in [lo, hi)), which must have no effect and make no new values."""
    ix = [I.const(INT, 'e') for _ in range(n)]
    base = I.st
    ctr = base.ctr
    own = {str(i) for i in ix}

    def run():
        for i in ix:
            I.assume(And(lo <= i, i < hi))
        run.pc = len(I.st.pc)
        r = body(*ix)
        r = I.read(r) if isinstance(r, LV) else r
        return I.truth(r) if isinstance(r, V) else r
    outs = I.explore(run, base)
    alts = []
    for r, st in outs:
        for k, v in base.roots.items():
            if not _same(v, st.roots[k]):
                raise Unsupported('functor with effects')
        for k, v in base.heap.items():
            if not _same(v, st.heap[k]):
                raise Unsupported('functor with effects')
        for k, v in base.ghost.items():
            if not _same(v, st.ghost[k]):
                raise Unsupported('functor with effects')
        conds = [c for c in st.pc[run.pc:] if c.get_id() not in st.facts]
        alts.append(And(conds + [r]))
    p = z3.simplify(Or(alts)) if alts else BoolVal(False)
    seen, todo = set(), [p]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            nm = t.decl().name()
            if t.num_args() == 0 and '!' in nm and nm not in own:
                try:
                    if int(nm.split('!')[-1].split('.')[0]) > ctr:
                        raise Unsupported('functor makes new values')
                except ValueError:
                    pass
            todo += t.children()
    return ix, p


def vec_range(a, b):
    if not (isinstance(a, ItV) and isinstance(b, ItV) and a.kind == 'vec' and b.kind == 'vec' and not a.rev and not b.rev and pyeq(a.cont, b.cont)):
        raise Unsupported('algorithm over this kind of range')
    return a.cont, a.pos, b.pos


def trigger(I, cont, i):
    try:
        return [l for l in leaves(I.read(cont + ('i', i))) if z3.is_app(l)][0]
    except Exception:
        return None


def elem_pred(I, c, k):
    """The condition of find/any_of.. over an index of the range."""
    cont, a, b = vec_range(c.rd(0), c.rd(1))
    f = c.rd(2)
    fl = f if isinstance(f, PyV) else I.new_root(f)
    if k == 'value':
        x = f
        ix, p = pure(I, a, b, 1, lambda i: val_eq(I, I.read(cont + ('i', i)), x))
    else:
        ix, p = pure(I, a, b, 1, lambda i: I.invoke(fl, [cont + ('i', i)], c.e))
    at = lambda t: z3.substitute(p, (ix[0], t))
    j = z3.Int(I.name('j') + '!q')
    return cont, a, b, at, j, trigger(I, cont, j)


def find(I, c, k, neg=False):
    cont, a, b, at, j, tr = elem_pred(I, c, k)
    P = (lambda t: Not(at(t))) if neg else at
    r = I.const(INT, 'found')
    I.assume(Implies(a <= b, And(a <= r, r <= b)))
    I.assume(forall([j], Implies(And(a <= j, j < r), Not(P(j))), tr))
    I.assume(Implies(r < b, P(r)))
    return ItV('vec', cont, r)


REG['std::find'] = lambda I, c: find(I, c, 'value')
REG['std::find_if'] = lambda I, c: find(I, c, 'pred')
REG['std::find_if_not'] = lambda I, c: find(I, c, 'pred', True)


def some(I, c, neg, all_):
    cont, a, b, at, j, tr = elem_pred(I, c, 'pred')
    P = (lambda t: Not(at(t))) if neg else at
    r = I.const(BOOL, 'any')
    w = I.const(INT, 'witness')
    I.assume(Implies(r, And(a <= w, w < b, P(w))))
    I.assume(Implies(Not(r), forall([j], Implies(And(a <= j, j < b), Not(P(j))), tr)))
    return SV(Not(r) if all_ else r, c.ret())


REG['std::any_of'] = lambda I, c: some(I, c, False, False)
REG['std::none_of'] = lambda I, c: some(I, c, False, True)
REG['std::all_of'] = lambda I, c: some(I, c, True, True)


def fresh_range(I, cont, a, b, nm):
    """Replaces the elements of [a, b): (old sequence, new element leaves)."""
    v = I.read(cont)
    nv = I.refresh(v.el, nm)
    return v, nv


@lib('std::reverse')
def _(I, c):
    cont, a, b = vec_range(c.rd(0), c.rd(1))
    v, nv = fresh_range(I, cont, a, b, 'rev')
    i = z3.Int('i!q')
    for n, x in zip(leaves(nv), leaves(v.el)):
        I.assume(ForAll([i], z3.Select(n, i) == If(And(a <= i, i < b), z3.Select(x, a + b - 1 - i), z3.Select(x, i)), patterns=[z3.Select(n, i)]))
    I.write(cont, VecV(v.len, nv, v.kind))
    return VOID


@lib('std::sort', 'std::stable_sort')
def _(I, c):
    """A permutation of the range which is ordered by the comparator (evaluated on two arbitrary elements of the result)."""
    cont, a, b = vec_range(c.rd(0), c.rd(1))
    v, nv = fresh_range(I, cont, a, b, 'sorted')
    P = z3.Const(I.name('perm'), z3.ArraySort(INT, INT))
    Q = z3.Const(I.name('inv'), z3.ArraySort(INT, INT))
    i, j = z3.Int('i!q'), z3.Int('j!q')
    ins = lambda t: And(a <= t, t < b)
    for n, x in zip(leaves(nv), leaves(v.el)):
        I.assume(ForAll([i], z3.Select(n, i) == z3.Select(x, z3.Select(P, i)), patterns=[z3.Select(n, i)]))
        I.assume(ForAll([i], z3.Select(x, i) == z3.Select(n, z3.Select(Q, i)), patterns=[z3.Select(x, i)]))
    I.assume(ForAll([i], And(Implies(ins(i), ins(z3.Select(P, i))), Implies(Not(ins(i)), z3.Select(P, i) == i), z3.Select(Q, z3.Select(P, i)) == i), patterns=[z3.Select(P, i)]))
    I.assume(ForAll([i], And(Implies(ins(i), ins(z3.Select(Q, i))), Implies(Not(ins(i)), z3.Select(Q, i) == i), z3.Select(P, z3.Select(Q, i)) == i), patterns=[z3.Select(Q, i)]))
    I.write(cont, VecV(v.len, nv, v.kind))
    if c.n() > 2:
        f = c.rd(2)
        fl = f if isinstance(f, PyV) else I.new_root(f)
        less = lambda p, q: I.invoke(fl, [cont + ('i', p), cont + ('i', q)], c.e)
    else:
        less = lambda p, q: less_than(I, cont + ('i', p), cont + ('i', q), c)
    ix, p = pure(I, a, b, 2, less)
    at = lambda s, t: z3.substitute(p, (ix[0], s), (ix[1], t))
    ti, tj = trigger(I, cont, i), trigger(I, cont, j)
    I.assume(forall([i, j], Implies(And(a <= i, i < j, j < b), Not(at(j, i))), [ti, tj] if ti is not None else None))
    I.sorts = getattr(I, 'sorts', []) + [(P, Q)]
    return VOID


def less_than(I, p, q, c):
    x = I.read(p)
    if isinstance(x, SV) and x.t.sort() != I.Str:
        return SV(I.compare('<', x.t, I.read(q).t), None)
    if isinstance(x, StV):
        r = I.m.recbyname.get(x.cls)
        for m in (r or {}).get('methods', []):
            if m['n'] == 'operator<':
                d = I.m.funcs.get(m['id'])
                if d:
                    return I.dispatch(Call_(I, dict(d), p, [q], c.e))
        for d in I.m.find(r['n'].rsplit('::', 1)[0] + '::operator<') if r else []:
            return I.dispatch(Call_(I, dict(d), None, [p, q], c.e))
    raise Unsupported('ordering of the elements')


def Call_(I, f, this, args, e):
    from .interp import Call
    return Call(I, f, this, None, e, args)


@lib('std::transform')
def _(I, c):
    if c.n() != 4:
        raise Unsupported('transform of two ranges')
    f = c.rd(3)
    fl = f if isinstance(f, PyV) else I.new_root(f)
    out = named_root(I, c, c.rd(2))

    def body(it):
        r = I.invoke(fl, [I.deref(it, None)], c.e)
        r = I.read(r) if isinstance(r, LV) else r
        emit(I, out, r)
    iter_loop(I, c, c.rd(0), c.rd(1), body)
    return I.read(out)


def named_root(I, c, v):
    lv = I.new_root(v)
    fr = I.frames[-1]
    fr.vars[('alg-out', id(c.e))] = lv
    fr.names[('alg-out', id(c.e))] = ('out', None)
    return lv


def emit(I, out, r):
    o = I.read(out)
    if isinstance(o, PyV) and isinstance(o.o, tuple) and o.o[0] == 'back':
        push(I, o.o[1], r)
    else:
        I.write(I.deref(o, None), r)
        I.write(out, I.step(o, 1, None))


@lib('std::back_inserter')
def _(I, c):
    return PyV(('back', c.arg(0)))


@lib('std::copy')
def _(I, c):
    out = named_root(I, c, c.rd(2))
    iter_loop(I, c, c.rd(0), c.rd(1), lambda it: emit(I, out, I.read(I.deref(it, None))))
    return I.read(out)


for _n, _op in (('less', '<'), ('greater', '>'), ('less_equal', '<='), ('greater_equal', '>='), ('equal_to', '=='), ('not_equal_to', '!=')):
    REG['std::%s::operator()' % _n] = lambda I, c, op=_op: SV(I.compare(op, c.rd(0).t, c.rd(1).t), c.ret())
    REG['ctor std::%s' % _n] = lambda I, c, n=_n: SV(IntVal(0), {'k': 'opaque', 's': 'std::' + n})


def all_equal(I, x, n, y, nm='k'):
    """For all k in [0, n): x(k) == y(k)."""
    k = z3.Int(I.name(nm) + '!q')
    u, v = x(k), y(k)
    return ForAll([k], Implies(And(0 <= k, k < n), val_eq(I, u, v)))


@lib('std::equal')
def _(I, c):
    f, l, g = c.rd(0), c.rd(1), c.rd(2)
    if c.n() not in (3, 4) or any(not isinstance(i, ItV) or i.kind != 'vec' for i in (f, l, g)) or f.rev != l.rev or not pyeq(f.cont, l.cont) or c.n() == 4 and not isinstance(c.rd(3), ItV):
        raise Unsupported('std::equal over these ranges')
    at = lambda it: lambda k: I.read(it.cont + ('i', it.pos - k if it.rev else it.pos + k))
    n = f.pos - l.pos if f.rev else l.pos - f.pos
    r = I.const(BOOL, 'equal')
    same = all_equal(I, at(f), n, at(g))
    if c.n() == 4:
        h = c.rd(3)
        same = And(n == (g.pos - h.pos if g.rev else h.pos - g.pos), same)
    elif I.cfg.bounds:
        L = I.read(g.cont).len
        I.check('the second range is as long (line %s)' % c.line, Implies(n > 0, (g.pos - n + 1 >= 0) if g.rev else (g.pos + n <= L)))
    I.assume(r == same)
    return SV(r, c.ret())


NPOS = IntVal(2 ** 64 - 1)


def str_find(I, c, back):
    v, s = vthis(I, c), c.rd(0)
    if not isinstance(v, VecV) or c.n() > 2:
        raise Unsupported('find in this string')
    if isinstance(s, SV):
        s = strchar(I, s)
    if not isinstance(s, VecV):
        raise Unsupported('find of this value')
    lim = v.len - s.len
    p = c.rd(1).t if c.n() > 1 else NPOS if back else IntVal(0)
    lo, hi = (IntVal(0), If(p < lim, p, lim)) if back else (p, lim)
    at = lambda o: all_equal(I, lambda k: select(v.el, o + k), s.len, lambda k: select(s.el, k))
    r, j = I.const(INT, 'found'), z3.Int(I.name('j') + '!q')
    ok = And(lo <= r, r <= hi, lim >= 0)
    I.assume(Or(r == NPOS, And(ok, at(r))))
    I.assume(forall([j], Implies(And(lo <= j, j <= hi, lim >= 0, Or(r == NPOS, (j > r) if back else (j < r))), Not(at(j))), leaves(select(v.el, j))[0]))
    return SV(r, c.ret())


REG['std::basic_string::find'] = lambda I, c: str_find(I, c, False)
REG['std::basic_string::rfind'] = lambda I, c: str_find(I, c, True)


@lib('std::basic_string::compare')
def _(I, c):
    v = vthis(I, c)
    if not isinstance(v, VecV) or c.n() not in (1, 3):
        raise Unsupported('compare of these strings')
    s = c.rd(c.n() - 1)
    p = c.rd(0).t if c.n() == 3 else IntVal(0)
    n = If(c.rd(1).t < v.len - p, c.rd(1).t, v.len - p) if c.n() == 3 else v.len
    if c.n() == 3:
        I.check('compare starts in the string (line %s)' % c.line, p <= v.len)
    r = I.const(INT, 'compared')
    I.assume((r == 0) == And(n == s.len, all_equal(I, lambda k: select(v.el, p + k), n, lambda k: select(s.el, k))))
    return SV(r, c.ret())

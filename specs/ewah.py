"""Model of EWAHBoolArray: a set of bit positions with an append cursor.

set(i) only appends (i < sizeInBits: no effect); a bitmap restored by read() must not be appended to (its last marker is not restored)."""
from streams import *
BS = z3.ArraySort(Z, B)
TRUSTED = ['EWAHBoolArray modelled as a set of bit positions (third-party library lib/ewah): or/and/xor are the set operations, iteration is in increasing order, '
           'set(i) has an effect only behind the last bit, write followed by read restores the set but not the ability to append']
CLS = 'EWAHBoolArray'


def mk(I, T, nm, lift):
    return StV('$bits', {'set': SV(z3.Const(nm + '.set', lift_sort(BS, lift)), None), 'size': SV(z3.Const(nm + '.size', lift_sort(Z, lift)), None),
                         'app': SV(z3.Const(nm + '.app', lift_sort(B, lift)), None)})


def empty(I=None, T=None):
    return StV('$bits', {'set': SV(z3.K(Z, BoolVal(False)), None), 'size': SV(IntVal(0), None), 'app': SV(BoolVal(True), None)})


def combine(I, a, b, f, keep_left=False):
    o = z3.Int('o!b')
    n = z3.Const(I.name('bits'), BS)
    x, y = a.f['set'].t, b.f['set'].t
    I.fact(forall([o], S(n, o) == f(S(x, o), S(y, o)), S(n, o)))
    p, q = a.f['size'].t, b.f['size'].t
    return StV('$bits', {'set': SV(n, None), 'size': SV(p if keep_left else If(p >= q, p, q), None), 'app': SV(BoolVal(True), None)})


OPS = {'logicalor': Or, 'logicaland': And, 'logicalxor': z3.Xor, 'logicalandnot': lambda a, b: And(a, Not(b)),
       'operator|': Or, 'operator&': And, 'operator^': z3.Xor, 'operator-': lambda a, b: And(a, Not(b))}


def elements(I, v):
    """Increasing enumeration of the set: (root with the sequence, index of a member)."""
    d = I.st.maps
    k = ('ewah', v.f['set'].t.get_id())
    if k in d:
        return d[k][:2]
    s = v.f['set'].t
    el = z3.Const(I.name('bit'), z3.ArraySort(Z, Z))
    ix = z3.Const(I.name('bitidx'), z3.ArraySort(Z, Z))
    n = z3.Const(I.name('nbits'), Z)
    i, o = z3.Ints('i!b o!b')
    I.fact(n >= 0)
    I.fact(forall([i], Implies(And(i >= 0, i < n), And(S(s, S(el, i)), S(ix, S(el, i)) == i, S(el, i) >= 0)), S(el, i)))
    I.fact(forall([o], Implies(S(s, o), And(S(ix, o) >= 0, S(ix, o) < n, S(el, S(ix, o)) == o)), S(s, o)))
    if getattr(I, 'ewah_sorted', False):
        j = z3.Int('j!b')
        I.fact(forall([i, j], Implies(And(i >= 0, i < j, j < n), S(el, i) < S(el, j)), [S(el, i), S(el, j)]))
    lv = I.new_root(VecV(n, SV(el, {'k': 'int', 'w': 64, 'sg': False, 's': 'unsigned long', 'i': -7}), 'vec'))
    d[k] = (lv, ix, s, n)
    return lv, ix


def install(I):
    I.opaque_types = dict(getattr(I, 'opaque_types', {}))
    I.opaque_zero = dict(getattr(I, 'opaque_zero', {}))
    I.opaque_types[CLS] = mk
    I.opaque_zero[CLS] = empty
    e = {}

    def op(f):
        def h(I, c):
            r = combine(I, c.rdthis(), c.rd(0), f)
            if c.n() == 2:
                I.write(c.lv(1), r)
                return VOID
            return r
        return h
    for n, f in OPS.items():
        e[CLS + '::' + n] = op(f)

    def set_(I, c):
        v = c.rdthis()
        i = c.rd(0).t
        I.check('a bit is only appended to a bitmap which was not restored by read (line %s)' % c.line, v.f['app'].t)
        ok = i >= v.f['size'].t
        I.write(c.this, StV('$bits', {'set': SV(If(ok, z3.Store(v.f['set'].t, i, True), v.f['set'].t), None), 'size': SV(If(ok, i + 1, v.f['size'].t), None), 'app': v.f['app']}))
        return SV(ok, c.ret())
    e[CLS + '::set'] = set_

    def get(I, c):
        return SV(S(c.rdthis().f['set'].t, c.rd(0).t), c.ret())
    e[CLS + '::get'] = get

    def reset(I, c):
        I.write(c.this, empty())
        return VOID
    e[CLS + '::reset'] = reset
    e[CLS + '::sizeInBits'] = lambda I, c: SV(c.rdthis().f['size'].t, c.ret())
    e['ctor ' + CLS] = lambda I, c: c.rd(0) if c.n() else empty()

    def assign(I, c):
        I.write(c.this, c.rd(0))
        return c.this
    e[CLS + '::operator='] = assign

    def begin(I, c):
        lv, ix = elements(I, c.rdthis())
        return ItV('vec', lv, IntVal(0))

    def end(I, c):
        # end() is a bogus iterator without a container: comparing with it tells whether the other one is exhausted
        lv, ix = elements(I, c.rdthis())
        return ItV('vec', lv, I.read(lv).len)
    e[CLS + '::begin'], e[CLS + '::end'] = begin, end
    it = 'EWAHBoolArraySetBitForwardIterator'

    def deref(I, c):
        v = c.rdthis()
        I.bounds(v.cont, v.pos, c.line, 'dereferenced iterator')
        return I.read(I.deref(v, c.ret()))

    def inc(I, c):
        v = c.rdthis()
        I.write(c.this, I.step(v, 1, None))
        return v if c.n() else c.this
    e[it + '::operator*'] = deref
    e[it + '::operator++'] = inc
    e[it + '::operator!='] = lambda I, c: SV(I.veq_op('!=', c.rdthis(), c.rd(0)), c.ret())
    e[it + '::operator=='] = lambda I, c: SV(I.veq_op('==', c.rdthis(), c.rd(0)), c.ret())
    e['ctor ' + it] = lambda I, c: c.rd(0)
    for k, v in e.items():
        I.extra.setdefault(k, v)

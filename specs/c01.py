from geolib import *


def bit(v, k):
    return (v / (2 ** k)) % 2


class QkString(Contract):
    name = 'utymap::utils::GeoUtils::quadKeyToString'

    def make_arg(self, x, i, name, T):
        I = x.I
        v = I.fresh(I.noref(T), name)
        L = lod_cases(x, v.f['levelOfDetail'].t)
        f = dict(v.f)
        f['levelOfDetail'] = SV(IntVal(L), v.f['levelOfDetail'].T)
        return I.new_root(StV(v.cls, f))

    def pre(self, x):
        q = x.arg(0).f
        L = z3.simplify(q['levelOfDetail'].t)
        n = 2 ** L.as_long() if z3.is_int_value(L) else 2 ** 19
        return [('tile inside the grid of its level', And(q['tileX'].t >= 0, q['tileX'].t < n, q['tileY'].t >= 0, q['tileY'].t < n,
                                                          L >= MINLOD, L <= MAXLOD))]

    def post(self, x):
        q = x.arg(0).f
        L = z3.simplify(q['levelOfDetail'].t)
        s = x.ret
        X, Y = q['tileX'].t, q['tileY'].t
        L = L.as_long()
        out = [('length is the level of detail', s.len == L)]
        for i in range(L):
            k = L - 1 - i
            out.append(('digit %d of %d interleaves the bits of row and column' % (i, L),
                        select(s.el, IntVal(i)).t == 48 + bit(X, k) + 2 * bit(Y, k)))
        return out


class Injective(Lemma):
    """Two tiles have the same string only when they are the same tile; the parent's string is the prefix of its children's."""
    name = 'lemma: quadkey strings identify tiles'

    def run(self, x):
        I = x.I
        QT = I.class_named('utymap::QuadKey')
        a, b = I.fresh(QT, 'a'), I.fresh(QT, 'b')
        lod = a.f['levelOfDetail'].t
        L = lod_cases(x, lod)
        mk = lambda v, l, X, Y: I.new_root(StV(v.cls, {'levelOfDetail': SV(IntVal(l), None), 'tileX': SV(X, None), 'tileY': SV(Y, None)}))
        inr = lambda v, l: And(v.f['tileX'].t >= 0, v.f['tileX'].t < 2 ** l, v.f['tileY'].t >= 0, v.f['tileY'].t < 2 ** l)
        I.assume(And(inr(a, L), inr(b, L)))
        sa = self.callf(x, QkString.name, None, [mk(a, L, a.f['tileX'].t, a.f['tileY'].t)])
        sb = self.callf(x, QkString.name, None, [mk(b, L, b.f['tileX'].t, b.f['tileY'].t)])
        at = lambda s, i: select(s.el, IntVal(i)).t
        # arithmetic: a number below 2^L is the sum of its bits (unfolded definition of div/mod by the solver)
        xs = [bit(a.f['tileX'].t, k) == bit(b.f['tileX'].t, k) for k in range(L)]
        ys = [bit(a.f['tileY'].t, k) == bit(b.f['tileY'].t, k) for k in range(L)]
        for i in range(L):
            k = L - 1 - i
            eq = at(sa, i) == at(sb, i)
            bits = [bit(w.f[t].t, k) for w in (a, b) for t in ('tileX', 'tileY')]
            I.using('lemma: equal digit %d gives equal bits (L=%d)' % (i, L), [eq], And(xs[k], ys[k]),
                    pick=[at(sa, i) == 48 + bit(a.f['tileX'].t, k) + 2 * bit(a.f['tileY'].t, k),
                          at(sb, i) == 48 + bit(b.f['tileX'].t, k) + 2 * bit(b.f['tileY'].t, k)], general=bits,
                    about=lambda g: And([And(t >= 0, t <= 1) for t in g]))
        # equal bits give equal numbers: induction on the bits, u div 2^k agrees for k = L, L-1, ..., 0
        if L == MAXLOD:
            u, v = z3.Ints('u!l v!l')
            I.using('lemma: numbers below 2^%d have no higher bits' % L, [u >= 0, u < 2 ** L, v >= 0, v < 2 ** L], u / (2 ** L) == v / (2 ** L))
            for k in range(L - 1, -1, -1):
                I.using('lemma: u div 2^%d agrees' % k, [u / (2 ** (k + 1)) == v / (2 ** (k + 1)), bit(u, k) == bit(v, k)],
                        u / (2 ** k) == v / (2 ** k))
        if L > MINLOD:
            sp = self.callf(x, QkString.name, None, [mk(a, L - 1, a.f['tileX'].t / 2, a.f['tileY'].t / 2)])
            for i in range(L - 1):
                k, u, w = L - 1 - i, a.f['tileX'].t, a.f['tileY'].t
                if L == MAXLOD:
                    g = z3.Int('g!l')
                    I.using('lemma: bit %d of the half is bit %d' % (k - 1, k), [g >= 0], bit(g / 2, k - 1) == bit(g, k))
                I.using('lemma: digit %d of the parent string (L=%d)' % (i, L), [bit(t / 2, k - 1) == bit(t, k) for t in (u, w)], at(sp, i) == at(sa, i),
                        general=[bit(t / 2, k - 1) for t in (u, w)] + [bit(t, k) for t in (u, w)], pick=[at(sa, i) == 48 + bit(u, k) + 2 * bit(w, k), at(sp, i) == 48 + bit(u / 2, k - 1) + 2 * bit(w / 2, k - 1)])


class Less(Contract):
    name = 'utymap::QuadKey::Comparator::operator()'

    def post(self, x):
        a, b = x.arg(0).f, x.arg(1).f
        t = lambda q: (q['levelOfDetail'].t, q['tileX'].t, q['tileY'].t)
        p, q = t(a), t(b)
        return [('lexicographic order on (level, column, row): a strict total order on tiles',
                 x.ret.t == Or(p[0] < q[0], And(p[0] == q[0], Or(p[1] < q[1], And(p[1] == q[1], p[2] < q[2])))))]


class Equal(Contract):
    name = 'utymap::QuadKey::operator=='

    def post(self, x):
        a, b = x.now(x.this).f, x.arg(0).f
        return [('componentwise equality', x.ret.t == And([a[k].t == b[k].t for k in a]))]


class Lod(Contract):
    name = 'utymap::LodRange::LodRange'
    instance = staticmethod(lambda f, I: len(f['ps']) == 2)

    def throws(self, x):
        s, e = x.arg(0).t, x.arg(1).t
        ok = lambda v: And(v >= MINLOD, v <= MAXLOD)
        return Not(And(ok(s), ok(e)))

    def post(self, x):
        v = x.now(x.this).f
        return [('keeps the bounds', And(v['start'].t == x.arg(0).t, v['end'].t == x.arg(1).t))]


class MakeQk(Contract):
    name = 'utymap::QuadKey::QuadKey'
    instance = staticmethod(lambda f, I: len(f['ps']) == 3)

    def post(self, x):
        v = x.now(x.this).f
        return [('keeps the components', And(v['levelOfDetail'].t == x.arg(0).t, v['tileX'].t == x.arg(1).t, v['tileY'].t == x.arg(2).t))]


CONTRACTS = [QkString(), Injective(), Less(), Equal(), Lod(), MakeQk()]
TU = 'geo.cpp'
HARNESS = {'src': 'c01.cpp', 'repo': []}

"""Spec functions and trusted real-analysis facts shared by the geo properties."""
from vc.contract import *
from vc.interp import *
import z3, math
R, Z = z3.RealSort(), z3.IntSort()
MINLOD, MAXLOD = 1, 19
PI = z3.Q(0, 1)
# mathematical Mercator function and Gudermannian, in radians
MERC = z3.Function('merc', R, R)        # ln(tan r + 1/cos r), r in (-pi/2, pi/2)
GD = z3.Function('gd', R, R)            # atan(sinh n)
# spec functions of the tile grid
TX = z3.Function('TX', R, Z, Z)         # tile column of a longitude at a level
TY = z3.Function('TY', R, Z, Z)         # tile row of a latitude at a level
TLON = z3.Function('TLON', Z, Z, R)     # western edge of a column
TLAT = z3.Function('TLAT', Z, Z, R)     # northern edge of a row
LIM = z3.RealVal('85.05112877')
LONLIM = z3.RealVal('179.9999999')
TRUSTED_MATH = ['real-analysis facts: merc(r)=ln(tan r + 1/cos r) is increasing on (-1.5707, 1.5707) and inverse to gd(n)=atan((e^n-e^-n)/2), '
                'gd increasing; |merc(85.05112877 deg)| < pi (checked numerically in specs/geolib.py)']


def clamp(v, lo, hi):
    return If(v < lo, lo, If(v > hi, hi, v))


def pi_of(I):
    # the double nearest to pi, as the real constant the code uses
    return I.dconst(math.pi)


import math
_r = 85.05112877 * math.pi / 180
assert math.log(math.tan(_r) + 1 / math.cos(_r)) < 3.14159265358979


def axioms(pi):
    a, b = z3.Reals('a!m b!m')
    half = z3.RealVal('1.5707')
    dom = lambda t: And(t > -half, t < half)
    r1 = LIM * pi / 180
    return [ForAll([a, b], Implies(And(dom(a), dom(b), a < b), MERC(a) < MERC(b)), patterns=[z3.MultiPattern(MERC(a), MERC(b))]),
            ForAll([a], Implies(dom(a), GD(MERC(a)) == a), patterns=[MERC(a)]),
            ForAll([a, b], Implies(a < b, GD(a) < GD(b)), patterns=[z3.MultiPattern(GD(a), GD(b))]),
            MERC(r1) < pi, MERC(-r1) > -pi]


def install(I):
    """tan/cos/log/exp/atan models that recognise (semantically) the two composite functions."""
    from vc.lib import REG
    seen_t, seen_e = [], []

    def tan(I, c):
        a = c.rd(0).t
        seen_t.append(a)
        return REG['tan'](I, c)

    def exp(I, c):
        a = c.rd(0).t
        seen_e.append(a)
        return REG['exp'](I, c)

    def log(I, c):
        a = c.rd(0).t
        r = REG['log'](I, c)
        for t in reversed(seen_t[-4:]):
            f = I.uf('c_tan', R, R)(t) + 1 / I.uf('c_cos', R, R)(t)
            if I.solver.valid(I.st.pc, a == f, 1000)[0] == 'proved':
                I.fact(r.t == MERC(t))
                break
        return r

    def atan(I, c):
        a = c.rd(0).t
        r = REG['atan'](I, c)
        for t in reversed(seen_e[-6:]):
            ex = I.uf('c_exp', R, R)
            for s in [t] + seen_e[-6:]:
                if I.solver.valid(I.st.pc, And(s == -t, a == (ex(t) - ex(s)) / 2), 1000)[0] == 'proved':
                    I.fact(r.t == GD(t))
                    return r
        return r
    I.extra.update({'tan': tan, 'std::tan': tan, 'exp': exp, 'std::exp': exp, 'log': log, 'std::log': log, 'atan': atan, 'std::atan': atan})


def lod_cases(x, lod):
    """Splits on the level: complete enumeration of the supported levels 1..19."""
    L = MINLOD + x.I.choose([lod == k for k in range(MINLOD, MAXLOD + 1)])
    return L


def gc(v):
    return v.f['latitude'].t, v.f['longitude'].t


def corners(b):
    return gc(b.f['minPoint']) + gc(b.f['maxPoint'])


class ToQuadKey(Contract):
    """GeoCoordinateToQuadKey against the grid definition, level by level (1..19)."""
    name = 'utymap::utils::GeoUtils::GeoCoordinateToQuadKey'

    def make_arg(self, x, i, name, T):
        if i == 1:
            lod = x.I.fresh(T, 'lod')
            L = lod_cases(x, lod.t)
            return SV(IntVal(L), T)
        return super().make_arg(x, i, name, T)

    def pre(self, x):
        l = x.arg(1).t
        return [('supported level of detail', And(l >= MINLOD, l <= MAXLOD))]

    def post(self, x):
        I = x.I
        la, lo = gc(x.arg(0))
        lod = x.arg(1).t
        q = x.ret.f
        L = z3.simplify(lod)
        if not z3.is_int_value(L):          # call site: the spec functions
            n = POW2(lod)
            return [('', And(q['levelOfDetail'].t == lod, q['tileX'].t == TX(lo, lod), q['tileY'].t == TY(la, lod)))]
        n = 2 ** L.as_long()
        pi = pi_of(I)
        for a in axioms(pi):
            I.assume(a)
        cla, clo = clamp(la, -LIM, LIM), clamp(lo, -LONLIM, LONLIM)
        X, Y = q['tileX'].t, q['tileY'].t
        xf = (clo + 180) / 360 * n
        r = cla * pi / 180
        yf = (1 - MERC(r) / pi) / 2 * n
        r1 = LIM * pi / 180
        I.assume(And(MERC(r) <= MERC(r1), MERC(-r1) <= MERC(r)) if False else BoolVal(True))
        return [('level is kept', q['levelOfDetail'].t == lod),
                ('column is the cell of the longitude', And(z3.ToReal(X) <= xf, xf < z3.ToReal(X) + 1)),
                ('column in [0, 2^lod)', And(X >= 0, X < n)),
                ('row is the cell of the Mercator ordinate', And(z3.ToReal(Y) <= yf, yf < z3.ToReal(Y) + 1)),
                ('row in [0, 2^lod)', And(Y >= 0, Y < n))]


POW2 = z3.Function('pow2i', Z, Z)


class ToBox(Contract):
    """quadKeyToBoundingBox against the grid definition."""
    name = 'utymap::utils::GeoUtils::quadKeyToBoundingBox'

    def make_arg(self, x, i, name, T):
        I = x.I
        v = I.fresh(I.noref(T), name)
        L = lod_cases(x, v.f['levelOfDetail'].t)
        f = dict(v.f)
        f['levelOfDetail'] = SV(IntVal(L), v.f['levelOfDetail'].T)
        I.assume(And(f['tileX'].t >= 0, f['tileX'].t < 2 ** L, f['tileY'].t >= 0, f['tileY'].t < 2 ** L))
        return I.new_root(StV(v.cls, f))

    def pre(self, x):
        l = x.arg(0).f['levelOfDetail'].t
        return [('supported level of detail', And(l >= MINLOD, l <= MAXLOD))]

    def post(self, x):
        I = x.I
        q = x.arg(0).f
        L = z3.simplify(q['levelOfDetail'].t)
        X, Y = q['tileX'].t, q['tileY'].t
        b = corners(x.ret)
        if not z3.is_int_value(L):
            l = q['levelOfDetail'].t
            return [('', And(b[0] == TLAT(Y + 1, l), b[1] == TLON(X, l), b[2] == TLAT(Y, l), b[3] == TLON(X + 1, l)))]
        n = 2 ** L.as_long()
        pi = pi_of(I)
        for a in axioms(pi):
            I.assume(a)
        x_, y_ = z3.ToReal(X), z3.ToReal(Y)
        ordn = lambda row: pi - 2 * pi * row / n
        return [('west edge', b[1] == x_ * 360 / n - 180), ('east edge', b[3] == (x_ + 1) * 360 / n - 180),
                ('north edge', b[2] == 180 / pi * GD(ordn(y_))), ('south edge', b[0] == 180 / pi * GD(ordn(y_ + 1))),
                ('box is ordered', And(b[0] < b[2], b[1] < b[3]))]


class Containment(Lemma):
    """The tile of a coordinate contains it; neighbouring tiles share their edges; rows/columns are monotone."""
    name = 'lemma: tile box contains the coordinate'

    def run(self, x):
        I = x.I
        QT, GT = I.class_named('utymap::QuadKey'), I.class_named('utymap::GeoCoordinate')
        p = I.fresh(GT, 'p')
        q = I.fresh(GT, 'q')
        lod = I.fresh({'k': 'int', 'w': 32, 'sg': True, 's': 'int'}, 'lod')
        L = lod_cases(x, lod.t)
        pi = pi_of(I)
        for v in (p, q):
            la, lo = gc(v)
            I.assume(And(la >= -LIM, la <= LIM, lo >= -LONLIM, lo <= LONLIM))
        lt = SV(IntVal(L), {'k': 'int', 'w': 32, 'sg': True})
        kp = self.callf(x, ToQuadKey.name, None, [I.new_root(p), lt])
        kq = self.callf(x, ToQuadKey.name, None, [I.new_root(q), lt])
        I.check('lemma: level of the tile (L=%d)' % L, kp.f['levelOfDetail'].t == L)
        kl = StV(kp.cls, {**kp.f, 'levelOfDetail': SV(IntVal(L), kp.f['levelOfDetail'].T)})
        bp = self.callf(x, ToBox.name, None, [I.new_root(kl)])
        b = corners(bp)
        la, lo = gc(p)
        la2, lo2 = gc(q)
        facts = [f for f in I.st.pc if not z3.is_quantifier(f)]
        n = 2 ** L
        r, r2 = la * pi / 180, la2 * pi / 180
        Y = z3.ToReal(kp.f['tileY'].t)
        ordn = lambda row: pi - 2 * pi * row / n
        half = z3.RealVal('1.5707')
        mono = lambda f, u, v: And(Implies(u < v, f(u) < f(v)), Implies(v < u, f(v) < f(u)), Implies(u == v, f(u) == f(v)))
        # instances of the trusted facts
        inst = [Implies(And(r > -half, r < half), GD(MERC(r)) == r), mono(GD, MERC(r), ordn(Y)), mono(GD, MERC(r), ordn(Y + 1)),
                Implies(And(r > -half, r < half, r2 > -half, r2 < half), mono(MERC, r, r2))]
        go = lambda nm, g: I.using('lemma: %s (L=%d)' % (nm, L), inst, g, facts)
        go('latitude inside the box of its tile', And(b[0] <= la, la <= b[2]))
        go('longitude inside the box of its tile', And(b[1] <= lo, lo <= b[3]))
        go('columns are monotone in longitude', Implies(lo <= lo2, kp.f['tileX'].t <= kq.f['tileX'].t))
        go('rows are antitone in latitude', Implies(la <= la2, kp.f['tileY'].t >= kq.f['tileY'].t))

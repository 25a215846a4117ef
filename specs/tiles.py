"""Visiting tiles as a ghost loop: the visitor is called once for every member of a set, in any order."""
from vc.contract import *
from vc.interp import *
import z3
from geolib import *
B = z3.BoolSort()
S = z3.Select


def key_sort(I):
    return I.key_sort(I.class_named('utymap::QuadKey'))


def qfield(I, q, name):
    fs = [f for f, ft, c, _ in I.rec_fields(I.class_named('utymap::QuadKey'))]
    return q.sort().accessor(0, fs.index(name))(q)


def tile_fn(I):
    return I.uf('tile', R, R, R, R, key_sort(I), B)


def box_leaves(b):
    return list(corners(b))


def tile_box(I, q):
    l, X, Y = [qfield(I, q, n) for n in ('levelOfDetail', 'tileX', 'tileY')]
    return [TLAT(Y + 1, l), TLON(X, l), TLAT(Y, l), TLON(X + 1, l)]


def overlap(a, b):
    return And(a[0] <= b[2], b[0] <= a[2], a[1] <= b[3], b[1] <= a[3], a[0] <= a[2], b[0] <= b[2], a[1] <= a[3], b[1] <= b[3])


def in_range(I, q):
    l, X, Y = [qfield(I, q, n) for n in ('levelOfDetail', 'tileX', 'tileY')]
    return And(l >= MINLOD, l <= MAXLOD, X >= 0, Y >= 0)


class Visit:
    """x.done: root of the ghost set of visited tiles of the current visit; x.cur: tile being visited."""

    def __init__(self, x):
        self.x, self.keys = x, {}
        x.done = x.cur = x.members = None

    def __call__(self, I, c):
        x = self.x
        bbox, lod, fn = c.rd(0), c.rd(1).t, c.arg(2)
        b = box_leaves(bbox)
        tile = tile_fn(I)
        mem = lambda q: And(qfield(I, q, 'levelOfDetail') == lod, tile(*(b + [q])))
        ks = key_sort(I)
        saved = (x.done, x.cur, x.members)
        x.done = I.new_root(SV(z3.K(ks, BoolVal(False)), None))
        x.members = mem
        QT = I.class_named('utymap::QuadKey')
        s = self.keys.setdefault((c.line, len(I.frames)), {'l': c.line})
        box = {}

        def cond():
            D = I.read(x.done).t
            more = z3.Const(I.name('more'), B)
            q = I.fresh(QT, 'tile')
            box['q'] = q
            t, a = enc(q), z3.Const('a!v', ks)
            I.fact(Implies(more, And(mem(t), Not(S(D, t)), in_range(I, t), overlap(b, tile_box(I, t)))))
            I.fact(Implies(Not(more), forall([a], Implies(mem(a), S(D, a)), [tile(*(b + [a]))])))
            x.cur = t
            return more

        def body():
            q = box['q']
            BT = I.class_named('utymap::BoundingBox')
            bv = I.refresh(I.fresh(BT, 'tilebox'), 'tilebox')
            I.assume(And([p == r for p, r in zip(box_leaves(bv), tile_box(I, enc(q)))]))
            I.invoke(fn, [I.new_root(q), I.new_root(bv)], c.e)

        def inc():
            I.write(x.done, SV(z3.Store(I.read(x.done).t, enc(box['q']), True), None))
        try:
            D = I.read(x.done).t
            I.inv_loop(s, cond, body, inc)
        finally:
            x.done, x.cur, x.members = saved
        return VOID

    def templates(self, lc):
        """Visited tiles are members."""
        x = self.x
        if x.done is None:
            return
        I = lc.I
        a = z3.Const('a!v', key_sort(I))
        yield ('visited tiles are members', lambda st: forall([a], Implies(S(lc.get(st, x.done).t, a), x.members(a)), S(lc.get(st, x.done).t, a)))


class Grid(Lemma):
    """Tiles of a level have distinct centres (farther apart than the tolerance of GeoCoordinate::operator==)."""
    name = 'lemma: tiles of one level have distinct centres'

    def run(self, x):
        I = x.I
        QT = I.class_named('utymap::QuadKey')
        lod = I.fresh({'k': 'int', 'w': 32, 'sg': True, 's': 'int'}, 'lod')
        L = lod_cases(x, lod.t)
        n = 2 ** L
        pi = pi_of(I)
        p, q = I.fresh(QT, 'p'), I.fresh(QT, 'q')
        bs = []
        for v in (p, q):
            v = StV(v.cls, {**v.f, 'levelOfDetail': SV(IntVal(L), v.f['levelOfDetail'].T)})
            I.assume(And(v.f['tileX'].t >= 0, v.f['tileX'].t < n, v.f['tileY'].t >= 0, v.f['tileY'].t < n))
            bs.append(corners(self.callf(x, ToBox.name, None, [I.new_root(v)])))
        facts = [f for f in I.st.pc if not z3.is_quantifier(f)]
        a, b = bs
        X, Y, U, V = p.f['tileX'].t, p.f['tileY'].t, q.f['tileX'].t, q.f['tileY'].t
        ordn = lambda row: pi - 2 * pi * z3.ToReal(row) / n
        inst = [slope(GD(ordn(Y)), GD(ordn(V)), ordn(Y), ordn(V)), slope(GD(ordn(Y + 1)), GD(ordn(V + 1)), ordn(Y + 1), ordn(V + 1))]
        I.using('lemma: columns are apart (L=%d)' % L, inst, Implies(X < U, And(b[1] >= a[1] + 360 / z3.RealVal(n), b[3] >= a[3] + 360 / z3.RealVal(n))), facts)
        I.using('lemma: rows are apart (L=%d)' % L, inst, Implies(Y < V, And(b[2] <= a[2] - 10 / z3.RealVal(n), b[0] <= a[0] - 10 / z3.RealVal(n))), facts)


def slope(fa, fb, a, b):
    # gd' = sech >= sech(pi) > 0.08 on [-pi, pi]
    return Implies(a > b, fa - fb >= (a - b) * z3.RealVal('0.08'))


TRUSTED_SLOPE = 'real-analysis fact: gd(a)-gd(b) >= 0.08(a-b) for -pi <= b < a <= pi (sech(pi) = 0.086)'
assert 1 / math.cosh(math.pi) > 0.08


def grid_axioms():
    """What the lemma gives (n <= 2^19)."""
    X, U, l = z3.Ints('X!g U!g l!g')
    gap = z3.RealVal('0.00001')
    ok = And(l >= MINLOD, l <= MAXLOD, X >= 0)
    return [forall([X, U, l], Implies(And(ok, X < U), TLON(U, l) >= TLON(X, l) + gap), [TLON(U, l), TLON(X, l)]),
            forall([X, U, l], Implies(And(ok, X < U), TLAT(U, l) <= TLAT(X, l) - gap), [TLAT(U, l), TLAT(X, l)])]

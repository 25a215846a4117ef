from geolib import *
import geolib
import c03


def lit(i, l):
    return SV(i, None)


class VisitTileRange(Contract):
    """The visitor is called exactly once for each tile of the column/row ranges of the box corners that intersects the box."""
    name = 'utymap::utils::GeoUtils::visitTileRange'
    instance = staticmethod(lambda f, I: 'TileVisitor' in str(I.T(f['ps'][2])['s']))

    def ghost(self, x):
        x.I.st.ghost['visits'] = SV(z3.K(Z, z3.K(Z, IntVal(0))), None)

        def visit(I, c):
            q = c.rd(0)
            b = c.rd(1)
            X, Y, l = q.f['tileX'].t, q.f['tileY'].t, q.f['levelOfDetail'].t
            c_ = corners(b)
            I.check('%s: the visitor gets the box of its tile' % self.name,
                    And(l == x.arg(1).t, c_[0] == TLAT(Y + 1, l), c_[1] == TLON(X, l), c_[2] == TLAT(Y, l), c_[3] == TLON(X + 1, l)))
            v = I.gget('visits').t
            row = z3.Select(v, Y)
            I.gset('visits', SV(z3.Store(v, Y, z3.Store(row, X, z3.Select(row, X) + 1)), None))
            return VOID
        x.I.extra['verif::TileVisitor::operator()'] = visit

    def pre(self, x):
        l = x.arg(1).t
        return [('supported level of detail', And(l >= MINLOD, l <= MAXLOD))]

    def rng(self, x):
        b = corners(x.arg(0))
        l = x.arg(1).t
        return TX(b[1], l), TX(b[3], l), TY(b[2], l), TY(b[0], l)

    def want(self, x, X, Y):
        b = corners(x.arg(0))
        l = x.arg(1).t
        x0, x1, y0, y1 = self.rng(x)
        t = (TLAT(Y + 1, l), TLON(X, l), TLAT(Y, l), TLON(X + 1, l))
        ov = lambda l1, h1, l2, h2: And(l1 <= h1, l2 <= h2, l1 <= h2, l2 <= h1)
        return And(x0 <= X, X <= x1, y0 <= Y, Y <= y1, ov(b[0], b[2], t[0], t[2]), ov(b[1], b[3], t[1], t[3]))

    def pre2(self, x):
        pass

    def post(self, x):
        b = corners(x.arg(0))
        v = x.g('visits').t
        X, Y = z3.Ints('X!p Y!p')
        valid = And(b[0] <= b[2], b[1] <= b[3])
        cnt = z3.Select(z3.Select(v, Y), X)
        return [('each tile of the range that intersects the box is visited exactly once and no other tile is',
                 ForAll([X, Y], cnt == If(And(valid, self.want(x, X, Y)), IntVal(1), IntVal(0)))),
                ]

    def modifies(self, x):
        return [('ghost', 'visits')]

    def invariants(self, x):
        def tmpl(lc):
            X, Y = z3.Ints('X!i Y!i')
            V = lambda st: z3.Select(z3.Select(st.ghost['visits'].t, Y), X)
            ps = lc.positions()
            allp = [(n, (lambda st, lv=lv: lc.get(st, lv).t)) for n, lv in lc.ints()]
            form = {'y<p': lambda p: Y < p, 'y>p': lambda p: Y > p, 'x<p': lambda p: X < p, 'x>p': lambda p: X > p}
            for n, p in ps:
                for k, d in form.items():
                    yield 'visited exactly %s (%s)' % (k, n), lambda st, p=p, d=d: forall([X, Y], V(st) == If(And(self.want(x, X, Y), d(p(st))), IntVal(1), IntVal(0)), V(st))
            for n, p in ps:
                for n2, p2 in allp:
                    if n2 == n:
                        continue
                    for nm, d in (('y,x', lambda a, b: Or(Y < a, And(Y == a, X < b))), ('x,y', lambda a, b: Or(X < a, And(X == a, Y < b))),
                                  ('-y,x', lambda a, b: Or(Y > a, And(Y == a, X < b)))):
                        yield 'visited lexicographically below (%s: %s,%s)' % (nm, n2, n), \
                            lambda st, p=p, p2=p2, d=d: forall([X, Y], V(st) == If(And(self.want(x, X, Y), d(p2(st), p(st))), IntVal(1), IntVal(0)), V(st))
        return [tmpl]


INSTALL = geolib.install
CONTRACTS = [ToQuadKey(), ToBox(), Containment(), VisitTileRange()]
USES = [c for c in c03.CONTRACTS if c.name == 'utymap::BoundingBox::intersects']
TU = 'geo.cpp'
HARNESS = {'src': 'c02.cpp', 'repo': []}

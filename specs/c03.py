from vc.contract import *
from vc.interp import *
import z3
# Doubles that are not NaN are modelled by reals: exact for min/max/comparison code (order embedding; -0 == +0).
le = lambda a, b: a <= b
lt = lambda a, b: a < b


def coords(b):
    return b.f['minPoint'].f['latitude'].t, b.f['minPoint'].f['longitude'].t, b.f['maxPoint'].f['latitude'].t, b.f['maxPoint'].f['longitude'].t


def notnan(*ts):
    return BoolVal(True)   # NaN-free by the real model; kept to mark the precondition


def mn(a, b):
    return If(lt(b, a), b, a)


def mx(a, b):
    return If(lt(a, b), b, a)


def feq(a, b):
    return a == b


def is_bbox_arg(f, I):
    return len(f['ps']) == 1 and I.noref(f['ps'][0])['n'] == 'utymap::BoundingBox'


def is_coord_arg(f, I):
    return len(f['ps']) == 1 and I.noref(f['ps'][0])['n'] == 'utymap::GeoCoordinate'


class Fp(Contract):
    cfg = dict(dbl='real')

    def thisbox(self, x):
        return coords(x.now(x.this))

    def oldbox(self, x):
        return coords(x.was(x.this))


class ExpandBox(Fp):
    name = 'utymap::BoundingBox::expand'
    instance = staticmethod(is_bbox_arg)

    def pre(self, x):
        return [('no NaN', notnan(*self.thisbox(x), *coords(x.arg(0))))]

    def post(self, x):
        a, b, n = self.oldbox(x), coords(x.arg(0)), self.thisbox(x)
        return [('min latitude', feq(n[0], mn(a[0], b[0]))), ('min longitude', feq(n[1], mn(a[1], b[1]))),
                ('max latitude', feq(n[2], mx(a[2], b[2]))), ('max longitude', feq(n[3], mx(a[3], b[3]))),
                ('no NaN', notnan(*n))]

    def modifies(self, x):
        return [x.this]


class PlusAssign(ExpandBox):
    name = 'utymap::BoundingBox::operator+='


class ExpandPoint(Fp):
    name = 'utymap::BoundingBox::expand'
    instance = staticmethod(is_coord_arg)

    def pt(self, v):
        return v.f['latitude'].t, v.f['longitude'].t

    def pre(self, x):
        return [('no NaN', notnan(*self.thisbox(x), *self.pt(x.arg(0))))]

    def post(self, x):
        a, p, n = self.oldbox(x), self.pt(x.arg(0)), self.thisbox(x)
        return [('min latitude', feq(n[0], mn(a[0], p[0]))), ('min longitude', feq(n[1], mn(a[1], p[1]))),
                ('max latitude', feq(n[2], mx(a[2], p[0]))), ('max longitude', feq(n[3], mx(a[3], p[1]))),
                ('no NaN', notnan(*n))]

    def modifies(self, x):
        return [x.this]


def el_latlon(v, i):
    e = select(v.el, i)
    return e.f['latitude'].t, e.f['longitude'].t


def covers(box, vec, hi):
    i = z3.Int('i!e')
    la, lo = el_latlon(vec, i)
    return ForAll([i], Implies(And(i >= 0, i < hi), And(le(box[0], la), le(box[1], lo), le(la, box[2]), le(lo, box[3]))),
                  patterns=[la])


def attained(box, old, vec, hi):
    """every side is the old side or the coordinate of some element (tightness)"""
    out = []
    for k in range(4):
        i = z3.Int('i!a%d' % k)
        la, lo = el_latlon(vec, i)
        out.append(Or(box[k] == old[k], Exists([i], And(i >= 0, i < hi, box[k] == (la if k in (0, 2) else lo)))))
    return out


class ExpandRange(Fp):
    name = 'utymap::BoundingBox::expand'
    instance = staticmethod(lambda f, I: len(f['ps']) == 2)

    def setup(self, x):
        I = x.I
        x.this = I.new_root(I.fresh(I.noref(x.f['cls']), 'box'))
        GT = I.class_named('utymap::GeoCoordinate')
        v = I.fresh({'k': 'rec', 'n': 'std::vector', 's': 'v', 'args': [{'t': GT['i']}]}, 'pts')
        x.vec = v
        cont = I.new_root(v)
        x.args = [ItV('vec', cont, IntVal(0)), ItV('vec', cont, v.len)]

    def vec(self, x):
        return x.was(x.args[0].cont) if x.old is not None else x.now(x.args[0].cont)

    def pre(self, x):
        v = self.vec(x)
        i = z3.Int('i!n')
        la, lo = el_latlon(v, i)
        return [('no NaN in the box', notnan(*self.thisbox(x))),
                ('no NaN in the points', ForAll([i], Implies(And(i >= 0, i < v.len), notnan(la, lo)), patterns=[la]))]

    def post(self, x):
        o, n, v = self.oldbox(x), self.thisbox(x), self.vec(x)
        r = [('contains the old box', And(le(n[0], o[0]), le(n[1], o[1]), le(o[2], n[2]), le(o[3], n[3]))),
             ('covers every point', covers(n, v, v.len))]
        for k, t in enumerate(attained(n, o, v, v.len)):
            r.append(('side %d is attained' % k, t))
        return r

    def modifies(self, x):
        return [x.this]

    def invariants(self, x):

        def tmpl(lc):
            I = x.I
            box = lambda st: coords(x.at(st, x.this))
            o = box(lc.entry)
            yield 'box has no NaN', lambda st: notnan(*box(st))
            yield 'box grows', lambda st: And(le(box(st)[0], o[0]), le(box(st)[1], o[1]), le(o[2], box(st)[2]), le(o[3], box(st)[3]))
            for n, p in lc.positions():
                yield 'covers prefix %s' % n, lambda st, p=p: covers(box(st), x.vec, p(st))
                for k in range(4):
                    yield 'side %d attained in prefix %s' % (k, n), lambda st, p=p, k=k: attained(box(st), o, x.vec, p(st))[k]
        return [tmpl]


class ContainsPoint(Fp):
    name = 'utymap::BoundingBox::contains'
    instance = staticmethod(is_coord_arg)

    def post(self, x):
        b, p = self.thisbox(x), x.arg(0)
        la, lo = p.f['latitude'].t, p.f['longitude'].t
        return [('strict inclusion', x.ret.t == And(lt(b[0], la), lt(b[1], lo), lt(la, b[2]), lt(lo, b[3])))]


class ContainsBox(Fp):
    name = 'utymap::BoundingBox::contains'
    instance = staticmethod(is_bbox_arg)

    def post(self, x):
        b, p = self.thisbox(x), coords(x.arg(0))
        return [('both corners strictly inside', x.ret.t == And(lt(b[0], p[0]), lt(b[1], p[1]), lt(p[0], b[2]), lt(p[1], b[3]),
                                                                 lt(b[0], p[2]), lt(b[1], p[3]), lt(p[2], b[2]), lt(p[3], b[3])))]


class Intersects(Fp):
    name = 'utymap::BoundingBox::intersects'

    def pre(self, x):
        return [('no NaN', notnan(*self.thisbox(x), *coords(x.arg(0))))]

    def post(self, x):
        a, b = self.thisbox(x), coords(x.arg(0))
        # a common point (closed boxes) exists iff the intervals overlap on each axis
        ov = lambda l1, h1, l2, h2: And(le(l1, h1), le(l2, h2), le(l1, h2), le(l2, h1))
        return [('exactly the closed boxes that share a point', x.ret.t == And(ov(a[0], a[2], b[0], b[2]), ov(a[1], a[3], b[1], b[3])))]


class IsValid(Fp):
    name = 'utymap::BoundingBox::isValid'

    def post(self, x):
        b = self.thisbox(x)
        return [('ordered corners', x.ret.t == And(le(b[0], b[2]), le(b[1], b[3])))]


class Center(Contract):
    name = 'utymap::BoundingBox::center'

    def post(self, x):
        b = coords(x.now(x.this))
        return [('latitude is the midpoint', 2 * x.ret.f['latitude'].t == b[0] + b[2]),
                ('longitude is the midpoint', 2 * x.ret.f['longitude'].t == b[1] + b[3])]


class Width(Contract):
    name = 'utymap::BoundingBox::width'

    def post(self, x):
        b = coords(x.now(x.this))
        return [('longitude extent', x.ret.t == b[3] - b[1])]


class Height(Contract):
    name = 'utymap::BoundingBox::height'

    def post(self, x):
        b = coords(x.now(x.this))
        return [('latitude extent', x.ret.t == b[2] - b[0])]


class DefaultBox(Fp):
    """The default box is the identity of expand: it contains nothing and is invalid."""
    name = 'utymap::BoundingBox::BoundingBox'
    instance = staticmethod(lambda f, I: len(f['ps']) == 0)

    def post(self, x):
        b = coords(x.now(x.this))
        v = [90.0, 180.0, -90.0, -180.0]
        return [('inverted world extent', And([feq(t, z3.RealVal(c)) for t, c in zip(b, v)]))]


CONTRACTS = [ExpandBox(), PlusAssign(), ExpandPoint(), ExpandRange(), ContainsPoint(), ContainsBox(), Intersects(), IsValid(), Center(), Width(),
             Height(), DefaultBox()]
TU = 'geo.cpp'
HARNESS = {'src': 'c03.cpp', 'repo': []}

"""Storing an element: it is saved exactly once in (or handed to the clipper of) exactly the tiles it belongs to."""
import geolib, tiles
from tiles import *
NS = 'utymap::entities::'
EL, NODE, WAY, AREA, REL = NS + 'Element', NS + 'Node', NS + 'Way', NS + 'Area', NS + 'Relation'
ES = 'utymap::index::ElementStore'
GV = 'utymap::index::ElementGeometryVisitor'
CL = 'utymap::index::ElementGeometryClipper'
TRUSTED = ['StyleProvider::forElement is a function of element and level (C10); Style::has/empty read it', TRUSTED_SLOPE, geolib.TRUSTED_MATH[0],
           'GeoUtils::visitTileRange calls the visitor once per tile of the level which intersects the box, with the box of the tile (C02, C03)',
           'std::bind(&ElementStore::save, this, _1, _2) calls save with its two arguments',
           'structural induction over finite elements (no cyclic relations)']
ASSUMPTIONS = ['storing does not change the element', 'what clipping does to the geometry is not part of this property']
CFG = {'strs': 'opaque', 'ftimeout': 100, 'htimeout': 500, 'portfolio': True, 'qfcand': 60}
TU = 'store.cpp'
HULL = [z3.Function('hull%d' % k, Z, R) for k in range(4)]
NE = z3.Function('nonempty', Z, B)
DEF = [z3.RealVal(v) for v in (90, 180, -90, -180)]


def mn(a, b):
    return If(a <= b, a, b)


def mx(a, b):
    return If(a >= b, a, b)


def union(b, h, ne):
    return [If(ne, (mn if k < 2 else mx)(b[k], h[k]), b[k]) for k in range(4)]


def joined(I, v, old, ref):
    return And([n == u for n, u in zip(corners(v), union(old, [h(ref) for h in HULL], NE(ref)))])


def heap(I, ref, cls, f):
    T = I.class_named(cls)
    ft, dc = I.field_decl(T, f)
    return I.read(LV('heap', ref, (('hf', dc, f, ft['i']),)))


def hull_def(I, ref, k):
    """Definition of the hull of an element, by kind: hull sides bound all parts and are attained by one."""
    out = []
    h = [f(ref) for f in HULL]
    i = z3.Int('i!h')
    if k == 0:
        c = heap(I, ref, NODE, 'coordinate')
        la, lo = gc(c)
        return [NE(ref), h[0] == la, h[1] == lo, h[2] == la, h[3] == lo]
    if k in (1, 2):
        v = heap(I, ref, (WAY, AREA)[k - 1], 'coordinates')
        n = v.len
        la, lo = S(v.el.f['latitude'].t, i), S(v.el.f['longitude'].t, i)
        side, ne, pat = [la, lo, la, lo], BoolVal(True), la
    else:
        v = heap(I, ref, REL, 'elements')
        n = v.len
        m = S(v.el.t, i)
        side, ne, pat = [f(m) for f in HULL], NE(m), m
    out.append(n >= 0)
    out.append(forall([i], Implies(And(i >= 0, i < n, ne), And([NE(ref)] + [(h[j] <= side[j]) if j < 2 else (h[j] >= side[j]) for j in range(4)])), pat))
    out.append(Implies(NE(ref), And([z3.Exists([i], And(i >= 0, i < n, ne, h[j] == side[j])) for j in range(4)])))
    return out


def model_accept(x):
    """accept(ElementGeometryVisitor): the contract of the four visit functions."""
    def h(I, c):
        lv = c.arg(0)
        v = I.read(lv)
        if not (isinstance(v, StV) and v.cls == GV):
            raise Unsupported('accept with another visitor')
        ref = c.this.base
        bl = [lv + ('f', 'boundingBox')][0]
        old = corners(I.read(bl))
        I.write(bl, I.refresh(I.read(bl), 'box'))
        I.assume(joined(I, I.read(bl), old, ref))
        return VOID
    return h


class VisitKind(Contract):
    """The visitor joins the hull of the element to its box."""

    def __init__(self, k):
        self.k = k
        self.name = GV + '::visit' + (NODE, WAY, AREA, REL)[k].split('::')[-1]

    def setup(self, x):
        I = x.I
        x.this = self.make_this(x, I.noref(x.f['cls']))
        x.ref = I.const(Z, 'element')
        x.args = [LV('heap', x.ref)]
        I.extra[EL + '::accept'] = model_accept(x)
        I.heap_hook = lambda I, lv, key: I.check('the element is not changed', BoolVal(False))

    def pre(self, x):
        i = z3.Int('i!n')
        out = [('object', x.ref > 0), ('hull', And(hull_def(x.I, x.ref, self.k)))]
        if self.k == 3:
            v = heap(x.I, x.ref, REL, 'elements')
            out.append(('members', forall([i], Implies(And(i >= 0, i < v.len), S(v.el.t, i) > 0), S(v.el.t, i))))
        return out

    def modifies(self, x):
        return [x.this]

    def invariants(self, x):
        I = x.I

        def t(lc):
            b = lambda st: corners(lc.get(st, x.this).f['boundingBox'])
            o = b(lc.entry)
            i = z3.Int('i!t')
            # the vector is reached through a reference parameter of any name
            if self.k == 0:
                return
            v = heap(I, x.ref, (WAY, AREA, REL)[self.k - 1], 'coordinates' if self.k < 3 else 'elements')
            if self.k < 3:
                side, ne, pat = [S(v.el.f[('latitude', 'longitude')[j % 2]].t, i) for j in range(4)], BoolVal(True), S(v.el.f['latitude'].t, i)
            else:
                m = S(v.el.t, i)
                side, ne, pat = [f(m) for f in HULL], NE(m), m
            for n, p in lc.positions():
                for j in range(4):
                    yield ('side %d grows' % j, lambda st, j=j: (b(st)[j] <= o[j]) if j < 2 else (b(st)[j] >= o[j]))
                    yield ('side %d covers parts before %s' % (j, n), lambda st, j=j, p=p: forall([i], Implies(And(i >= 0, i < p(st), ne), (b(st)[j] <= side[j]) if j < 2 else (b(st)[j] >= side[j])), pat))
                    yield ('side %d attained before %s' % (j, n), lambda st, j=j, p=p: Or(b(st)[j] == o[j], z3.Exists([i], And(i >= 0, i < p(st), ne, b(st)[j] == side[j]))))
        return [t]

    def post(self, x):
        return [('the hull of the element is joined to the box', joined(x.I, x.now(x.this).f['boundingBox'], corners(x.was(x.this).f['boundingBox']), x.ref))]


class Store(Contract):
    """store: direct saves and clips."""
    name = ES + '::store'

    def __init__(self, label):
        self.label = label
        self.kinds = {'levels': 3, 'tile': 3, 'box': 4}
        self.instance = lambda f, I: len(f['ps']) == self.kinds[label] and 'private' not in f and self.sig(f, I)

    def sig(self, f, I):
        t = [I.noref(p).get('n') for p in f['ps']]
        return {'levels': t[1:3] == ['utymap::LodRange', 'utymap::mapcss::StyleProvider'], 'tile': t[1:2] == ['utymap::QuadKey'],
                'box': t[1:3] == ['utymap::BoundingBox', 'utymap::LodRange']}[self.label]

    def setup(self, x):
        I = x.I
        f = x.f
        x.this = self.make_this(x, I.noref(f['cls']))
        x.ref = I.const(Z, 'element')
        x.args = [LV('heap', x.ref)]
        for p in f['params'][1:]:
            x.args.append(I.new_root(I.fresh(I.noref(I.T(p['t'])), p['n'])))
        I.assume(x.ref > 0)
        x.ks = key_sort(I)
        F = z3.K(x.ks, BoolVal(False))
        x.saved, x.clipped = I.new_root(SV(F, None)), I.new_root(SV(F, None))
        x.any = I.new_root(SV(BoolVal(False), None))
        I.heap_hook = lambda I, lv, key: I.check('stored objects are not changed', BoolVal(False))
        e = I.extra
        e[EL + '::accept'] = model_accept(x)
        x.visit = Visit(x)
        e['utymap::utils::GeoUtils::visitTileRange'] = x.visit
        if self.label == 'tile':
            e['utymap::utils::GeoUtils::quadKeyToBoundingBox'] = lambda I, c: self.tobox(x, I, c)
            for a in grid_axioms():
                I.solver.axioms.append(a)

        x.probe = None

        def save(I, c):
            if x.probe is not None:
                x.probe.append((c.this, c.arg(0), c.rd(1)))
                return VOID
            q = enc(c.rd(1))
            I.check('the stored element is saved', c.arg(0).base == x.ref if isinstance(c.arg(0), LV) and c.arg(0).kind == 'heap' else BoolVal(False))
            I.check('saved in the same store', BoolVal(c.this.same(x.this)))
            self.mark(x, I, x.saved, q, 'saved')
            return VOID
        e[ES + '::save'] = save
        # clipper objects: tile, box and callback are fixed by the constructor
        x.ck, x.cb = z3.Function('clipkey', Z, x.ks), [z3.Function('clipbox%d' % k, Z, R) for k in range(4)]

        def mk(I, c):
            T = I.targ(c.ret(), 0)
            if I.rname(T) != CL:
                raise Unsupported('make_unique')
            r = I.const(Z, 'clipper')
            cb = c.rd(2)
            # what the callback does with an element and a tile
            el, key = LV('heap', I.const(Z, 'clippedElement')), I.new_root(I.fresh(I.class_named('utymap::QuadKey'), 'clippedTile'))
            x.probe = []
            o = cb.o if isinstance(cb, PyV) else None
            if isinstance(o, tuple) and o and o[0] == 'savebind':
                args = [(el, key)[n - 1] for n in o[2]]
                x.probe.append((o[1], args[0], I.read(args[1])))
            else:
                I.invoke(c.arg(2), [el, key], c.e)
            ok = len(x.probe) == 1 and x.probe[0][0].same(x.this) and isinstance(x.probe[0][1], LV) and x.probe[0][1].kind == 'heap'
            I.check('the clipper passes its result to save of this store', And(x.probe[0][1].base == el.base, enc(x.probe[0][2]) == enc(I.read(key))) if ok else BoolVal(False))
            x.probe = None
            I.fact(And([r > 0, x.ck(r) == enc(c.rd(0))] + [f(r) == t for f, t in zip(x.cb, corners(c.rd(1)))]))
            return SV(r, c.ret())
        e['utymap::utils::make_unique'] = mk

        def bind(I, c):
            v = [I.ev(n) for n in c.nodes]
            rd = lambda u: I.read(u) if isinstance(u, LV) else u
            fn = str(c.nodes[0])
            th = rd(v[1])
            th = th.o if isinstance(th, PyV) else th
            holders = [n.get('glob', '') for n in c.nodes[2:]]
            if not ("'" + ES + "::save'" in fn and isinstance(th, LV) and all(h.startswith('std::placeholders::_') for h in holders)):
                raise Unsupported('std::bind')
            return PyV(('savebind', th, [int(h[len('std::placeholders::_'):]) for h in holders]))
        e['std::bind'] = bind

        def clip(I, c):
            r = c.this.base
            q = x.cur
            I.check('the stored element is clipped', c.arg(0).base == x.ref if isinstance(c.arg(0), LV) and c.arg(0).kind == 'heap' else BoolVal(False))
            I.check('by the clipper of the tile', And([x.ck(r) == q] + [f(r) == t for f, t in zip(x.cb, tile_box(I, q))]))
            self.mark(x, I, x.clipped, q, 'clipped')
            return VOID
        e[CL + '::clipAndCall'] = clip
        # styles
        ST = z3.DeclareSort('StyleValue')
        I.opaque_types['utymap::mapcss::Style'] = lambda I, T, nm, lift: SV(z3.Const(nm, lift_sort(ST, lift)), {'k': 'opaque', 's': 'style'})
        x.style = z3.Function('styleOf', Z, Z, ST)
        x.has = z3.Function('styleHas', ST, Z, I.Str, B)
        x.empty = z3.Function('styleEmpty', ST, B)
        e['utymap::mapcss::StyleProvider::forElement'] = lambda I, c: self.style(x, I, c)
        e['utymap::mapcss::Style::empty'] = lambda I, c: SV(x.empty(c.rdthis().t), c.ret())
        e['utymap::mapcss::Style::has'] = lambda I, c: SV(x.has(c.rdthis().t, c.rd(0).t, c.rd(1).t), c.ret())
        e['ctor utymap::mapcss::Style'] = lambda I, c: c.rd(0)

    def style(self, x, I, c):
        I.check('the style of the stored element is asked', c.arg(0).base == x.ref if isinstance(c.arg(0), LV) and c.arg(0).kind == 'heap' else BoolVal(False))
        return SV(x.style(x.ref, c.rd(1).t), c.ret())

    def mark(self, x, I, root, q, what):
        cur = I.read(root).t
        I.check('the element is %s once per tile' % what, Not(S(cur, q)))
        I.write(root, SV(z3.Store(cur, q, True), None))
        I.write(x.any, SV(BoolVal(True), None))

    def tobox(self, x, I, c):
        q = enc(c.rd(0))
        bv = I.fresh(c.ret(), 'box')
        I.assume(And([p == r for p, r in zip(corners(bv), tile_box(I, q))]))
        return bv

    def pre(self, x):
        I = x.I
        if self.label == 'tile':
            return [('tile', in_range(I, enc(x.now(x.args[1]))))]
        r = x.now(x.args[-2])
        ok = lambda v: And(v >= MINLOD, v <= MAXLOD)
        return [('levels', And(ok(r.f['start'].t), ok(r.f['end'].t)))]

    def modifies(self, x):
        return [x.saved, x.clipped, x.any]

    def hull(self, x):
        return union(DEF, [h(x.ref) for h in HULL], NE(x.ref))

    def region(self, x, q):
        I = x.I
        if self.label == 'levels':
            return BoolVal(True)
        if self.label == 'tile':
            return q == enc(x.was(x.args[1]))
        return overlap(self.hull(x), box_leaves(x.was(x.args[1])))

    def lods(self, x):
        if self.label == 'tile':
            l = x.was(x.args[1]).f['levelOfDetail'].t
            return l, l
        r = x.was(x.args[-2])
        return r.f['start'].t, r.f['end'].t

    def want(self, x, q, clip):
        I = x.I
        l = qfield(I, q, 'levelOfDetail')
        st = x.style(x.ref, l)
        tv = x.true
        key = lambda n: x.was(x.fieldlv(n)).t
        c = x.has(st, key('clipKeyId_'), tv)
        return And(tile_fn(I)(*(self.hull(x) + [q])), self.region(x, q), Not(x.empty(st)), Not(x.has(st, key('skipKeyId_'), tv)), c if clip else Not(c))

    def ghost(self, x):
        x.true = x.I.strlit(b'true').t

    def invariants(self, x):
        I = x.I

        def t(lc):
            q = z3.Const('q!t', x.ks)
            lo, hi = self.lods(x)
            l = qfield(I, q, 'levelOfDetail')
            note = lambda st, r: lc.get(st, r).t
            if x.done is None:
                for n, p in lc.positions():
                    for r, cl in ((x.saved, False), (x.clipped, True)):
                        yield ('tiles of levels before %s: %s' % (n, 'clipped' if cl else 'saved'), lambda st, p=p, r=r, cl=cl: forall([q], S(note(st, r), q) == And(l >= lo, l < p(st), self.want(x, q, cl)), S(note(st, r), q)))
                    yield ('%s within the levels' % n, lambda st, p=p: And(p(st) >= lo, Or(p(st) <= hi + 1, p(st) == lo)))
            else:
                for r, cl in ((x.saved, False), (x.clipped, True)):
                    yield ('visited tiles: ' + ('clipped' if cl else 'saved'), lambda st, r=r, cl=cl: forall([q], S(note(st, r), q) == Or(S(note(lc.entry, r), q), And(S(lc.get(st, x.done).t, q), self.want(x, q, cl))), S(note(st, r), q)))
            for n, lv in lc.vars(lambda v: isinstance(v, SV) and v.t.sort() == B):
                if lv.kind == 'root' and lv.base != x.any.base:
                    yield ('%s tells whether anything was stored' % n, lambda st, lv=lv: lc.get(st, lv).t == lc.get(st, x.any).t)
            for n, lv in lc.vars(lambda v: isinstance(v, MapV)):
                m = lambda st, lv=lv: lc.get(st, lv)
                if not (m(lc.entry).val is not None and isinstance(m(lc.entry).val, SV) and m(lc.entry).ks == x.ks):
                    continue
                yield ('%s holds the clippers of their tiles' % n, lambda st, m=m: forall([q], Implies(S(m(st).has, q), And([S(m(st).val.t, q) > 0, x.ck(S(m(st).val.t, q)) == q] + [f(S(m(st).val.t, q)) == b for f, b in zip(x.cb, tile_box(I, q))])), S(m(st).has, q)))
            for n, lv in lc.vars(lambda v: isinstance(v, StV) and v.cls == GV):
                b = lambda st, lv=lv: corners(lc.get(st, lv).f['boundingBox'])
                yield ('%s is untouched or joined with the element' % n, lambda st, b=b: Or(And([p == d for p, d in zip(b(st), DEF)]), And([p == d for p, d in zip(b(st), self.hull(x))])))
                yield ('%s is joined with the element' % n, lambda st, b=b: And([p == d for p, d in zip(b(st), self.hull(x))]))
        return [x.visit.templates, t]

    def post(self, x):
        I = x.I
        q = z3.Const('q!p', x.ks)
        lo, hi = self.lods(x)
        l = qfield(I, q, 'levelOfDetail')
        return [('saved in exactly the tiles of the levels which the element overlaps, where it has a style, is not skipped and not clipped',
                 forall([q], S(x.now(x.saved).t, q) == And(l >= lo, l <= hi, self.want(x, q, False)), S(x.now(x.saved).t, q))),
                ('clipped for exactly the tiles of the levels which the element overlaps, where it has a style, is not skipped and clipped',
                 forall([q], S(x.now(x.clipped).t, q) == And(l >= lo, l <= hi, self.want(x, q, True)), S(x.now(x.clipped).t, q))),
                ('the result tells whether anything was saved or clipped', x.ret.t == x.now(x.any).t)]


def INSTALL(I):
    I.opaque_types = dict(getattr(I, 'opaque_types', {}))
    for k in ('index::StringTable',):
        I.opaque_types['utymap::' + k] = lambda I, T, nm, lift: SV(z3.Const(nm, lift_sort(Z, lift)), {'k': 'opaque', 's': 'st'})
    I.opaque_types['utymap::mapcss::StyleProvider'] = lambda I, T, nm, lift: SV(z3.Const(nm, lift_sort(Z, lift)), {'k': 'opaque', 's': 'sp'})
    geolib.install(I)


class Ctor(Contract):
    """The keys which decide about clipping and skipping are the ids of 'clip' and 'skip'."""
    name = ES + '::ElementStore'
    instance = staticmethod(lambda f, I: len(f['ps']) == 1 and 'StringTable' in str(I.T(f['ps'][0])['s']))

    def setup(self, x):
        I = x.I
        x.this = None
        x.id = z3.Function('idOf', I.Str, Z)
        x.args = [I.new_root(SV(z3.Int('strings'), {'k': 'opaque', 's': 'StringTable'}))]

        def gid(I, c):
            I.check('the string table of the store is asked', c.rdthis().t == z3.Int('strings'))
            return SV(x.id(c.rd(0).t), c.ret())
        I.extra['utymap::index::StringTable::getId'] = gid

    def post(self, x):
        I = x.I
        f = x.now(x.this).f
        return [('the clip key is the id of clip', f['clipKeyId_'].t == x.id(I.strlit(b'clip').t)),
                ('the skip key is the id of skip', f['skipKeyId_'].t == x.id(I.strlit(b'skip').t))]


class GridL(Grid):
    tu = 'geo.cpp'


CONTRACTS = [VisitKind(k) for k in range(4)] + [Store('levels'), Store('tile'), Store('box'), Ctor(), GridL()]
ToBox_ = ToBox()
ToBox_.tu = 'geo.cpp'
USES = [ToBox_]
HARNESS = {'src': 'c08.cpp', 'repo': ['src/index/ElementStore.cpp', 'src/index/StringTable.cpp', 'src/mapcss/StyleConsts.cpp', 'lib/hashing/MurmurHash3.cpp', 'lib/clipper/clipper.cpp']}

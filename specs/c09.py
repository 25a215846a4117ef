"""In-memory store: a tile holds copies of the elements saved in it, in order; searches report exactly them."""
from stores import *
ST = 'utymap::index::InMemoryElementStore'
IMPL = ST + '::InMemoryElementStoreImpl'
BI = 'utymap::index::BitmapIndex'
TRUSTED = ['structural induction over finite elements (no cyclic relations)', 'std::map and std::make_shared as modelled by the engine']
ASSUMPTIONS = ['fewer than 2^32 elements per tile', 'a cancellation token, once cancelled, stays cancelled', 'members of relations are shared with the saved element and not changed afterwards']
CFG = {'strs': 'opaque', 'ftimeout': 100, 'htimeout': 500, 'portfolio': True, 'qfcand': 60}
TU = '@core/src/index/InMemoryElementStore.cpp'


def emap(v):
    return v.f['elementsMap_']


class Base(Contract):
    def setup(self, x):
        super().setup(x)
        x.ks = key_sort(x.I)
        x.I.heap_hook = None

    def index(self, x):
        """The text index is not touched except through add/search/erase."""

    def pre(self, x):
        return self.wfmap(x, x.now(x.this))

    def wfmap(self, x, v):
        m = emap(v)
        q, i = z3.Const('q!w', x.ks), z3.Int('i!w')
        return [('lists of elements', forall([q], Implies(S(m.has, q), S(m.val.len, q) >= 0), S(m.has, q))),
                ('elements are objects', forall([q, i], Implies(And(S(m.has, q), i >= 0, i < S(m.val.len, q)), And(S(S(m.val.el.t, q), i) > 0, S(S(m.val.el.t, q), i) < x.alloc0)), S(S(m.val.el.t, q), i)))]

    def ghost(self, x):
        x.alloc0 = x.I.old_alloc()


class Save(Base):
    """A copy of the element is appended to its tile and indexed under its position."""
    name = IMPL + '::store'

    def __init__(self, k):
        self.k, self.label = k, KINDS[k].split('::')[-1]

    def make_arg(self, x, i, name, T):
        if i == 0:
            return LV('heap', x.I.const(Z, 'element'))
        return super().make_arg(x, i, name, T)

    def setup(self, x):
        super().setup(x)
        I = x.I
        x.ref = x.args[0].base
        x.adds = I.new_root(SV(IntVal(0), None))

        def accept(I, c):
            I.check('the given element is visited', c.this.base == x.ref if is_heap(c.this) else BoolVal(False))
            dispatch_visit(I, c.arg(0), self.k, x.ref)
            return VOID
        I.extra[EL + '::accept'] = accept

        def add(I, c):
            q = enc(c.rd(1))
            I.check('the given element is indexed', c.arg(0).base == x.ref if is_heap(c.arg(0)) else BoolVal(False))
            I.check('in its tile, in the index of the store', And(q == enc(x.was(x.args[1])), BoolVal(c.this.path[:1] == (('f', 'stringIndex_'),) and c.this.base == x.this.base)))
            m = emap(x.was(x.this))
            I.check('under its position in the tile', c.rd(2).t == If(S(m.has, q), S(m.val.len, q), 0))
            I.write(x.adds, SV(I.read(x.adds).t + 1, None))
            return VOID
        I.extra[BI + '::add'] = add

        def wr(I, lv, key):
            I.check('existing objects are not changed', lv.base >= x.alloc0)
        I.heap_hook = wr

    def pre(self, x):
        m = emap(x.now(x.this))
        q = z3.Const('q!w', x.ks)
        return super().pre(x) + [('object', And(x.ref > 0, x.ref < x.alloc0, x.I.get_tag(x.ref) == x.I.tag_of(KINDS[self.k]))),
                                 ('fits', forall([q], S(m.val.len, q) < 2 ** 32 - 1, S(m.val.len, q)))]

    def modifies(self, x):
        return [x.this + ('f', 'elementsMap_'), x.adds]

    def post(self, x):
        I = x.I
        o, n = emap(x.was(x.this)), emap(x.now(x.this))
        k = enc(x.was(x.args[1]))
        q, i = z3.Const('q!p', x.ks), z3.Int('i!p')
        ol = If(S(o.has, k), S(o.val.len, k), 0)
        r = S(S(n.val.el.t, k), ol)
        return [('the tile has data', forall([q], S(n.has, q) == Or(S(o.has, q), q == k), S(n.has, q))),
                ('one element is appended', And(S(n.val.len, k) == ol + 1, forall([i], Implies(And(i >= 0, i < ol), S(S(n.val.el.t, k), i) == S(S(o.val.el.t, k), i)), S(S(n.val.el.t, k), i)))),
                ('it is a new object', And(r >= x.alloc0, r < I.old_alloc())),
                ('it is a copy of the element', same_value(I, r, x.ref, self.k)),
                ('other tiles are unchanged', forall([q], Implies(q != k, And(S(n.val.len, q) == S(o.val.len, q), S(n.val.el.t, q) == S(o.val.el.t, q))), S(n.val.len, q))),
                ('the element is indexed once', x.now(x.adds).t == 1)]


def visits(x, at):
    """Elements passed to the visitor: counted; the i-th is at(i)."""
    I = x.I
    x.cnt = I.new_root(SV(IntVal(0), None))

    def accept(I, c):
        n = I.read(x.cnt).t
        I.check('the next element is visited', c.this.base == at(n) if is_heap(c.this) else BoolVal(False))
        I.check('by the given visitor', BoolVal(isinstance(c.arg(0), LV) and c.arg(0).same(x.visitor)))
        if getattr(x, 'canc', None) is not None:
            I.check('nothing is visited after cancellation was seen', Not(I.read(x.canc).t))
        I.write(x.cnt, SV(n + 1, None))
        return VOID
    I.extra[EL + '::accept'] = accept
    I.heap_hook = lambda I, lv, key: I.check('stored elements are not changed', BoolVal(False))


def count_template(x):
    def t(lc):
        for n, p in lc.positions():
            yield ('elements before %s were visited' % n, lambda st, p=p: lc.get(st, x.cnt).t == p(st))
        yield ('visited before', lambda st: And(lc.get(st, x.cnt).t >= 0))
        yield ('not cancelled before', lambda st: Not(lc.get(st, x.canc).t))
    return t


class SearchTile(Base):
    """All elements of the tile are visited in order, a prefix of them if cancelled."""
    name = IMPL + '::search'
    instance = staticmethod(lambda f, I: 'QuadKey' in str(I.T(f['ps'][0])['s']))

    def setup(self, x):
        super().setup(x)
        x.visitor = x.args[1]
        cancellation(x)
        m = emap(x.now(x.this))
        k = enc(x.now(x.args[0]))
        x.n = If(S(m.has, k), S(m.val.len, k), 0)
        visits(x, lambda i: S(S(m.val.el.t, k), i))

    def invariants(self, x):
        return [count_template(x)]

    def modifies(self, x):
        return [x.cnt, x.canc]

    def post(self, x):
        n = x.now(x.cnt).t
        return [('the elements of the tile are visited in order, all unless cancelled', And(n <= x.n, Or(n == x.n, x.now(x.canc).t)))]


class HasData(Base):
    name = IMPL + '::hasData'

    def post(self, x):
        return [('a tile has data if elements were saved in it', x.ret.t == S(emap(x.now(x.this)).has, enc(x.was(x.args[0]))))]


class Erase(Base):
    name = IMPL + '::erase'
    instance = staticmethod(lambda f, I: len(f['ps']) == 1)

    def modifies(self, x):
        return [x.this]

    def post(self, x):
        o, n = x.was(x.this), x.now(x.this)
        k, q = enc(x.was(x.args[0])), z3.Const('q!p', x.ks)
        bo, bn = o.f['stringIndex_'].f['bitmaps_'], n.f['stringIndex_'].f['bitmaps_']
        out = []
        for nm, a, b in (('elements', emap(o), emap(n)), ('text index', bo, bn)):
            out.append(('%s of the tile are removed, others stay' % nm, forall([q], S(b.has, q) == And(S(a.has, q), q != k), S(b.has, q))))
            out.append(('%s of other tiles are unchanged' % nm, And([forall([q], Implies(q != k, S(u, q) == S(w, q)), S(w, q)) for u, w in zip(leaves(a.val), leaves(b.val))])))
        return out


class TextSearch(Base):
    """What the index reports (C07) is passed on exactly if the hull of the element meets the box."""
    name = IMPL + '::search'
    label = 'text'
    instance = staticmethod(lambda f, I: 'Query' in str(I.T(f['ps'][0])['s']))

    def setup(self, x):
        super().setup(x)
        I = x.I
        x.visitor = x.args[1]
        x.calls = I.new_root(SV(IntVal(0), None))
        x.passed = I.new_root(SV(IntVal(0), None))
        acc = model_accept(x)
        gv = lambda I, lv: isinstance(lv, LV) and isinstance(I.read(lv), StV) and I.read(lv).cls == GV

        def accept(I, c):
            if gv(I, c.arg(0)):
                I.check('the hull of the reported element is taken', c.this.base == x.el)
                return acc(I, c)
            I.check('the reported element is passed on', And(c.this.base == x.el, BoolVal(c.arg(0).same(x.visitor))) if is_heap(c.this) else BoolVal(False))
            I.write(x.passed, SV(I.read(x.passed).t + 1, None))
            return VOID
        I.extra[EL + '::accept'] = accept
        I.heap_hook = lambda I, lv, key: I.check('stored elements are not changed', BoolVal(False))

        def search(I, c):
            I.check('the index of the store is searched', self.own_index(x, c))
            I.check('for the given query', And([p == q for p, q in zip(leaves(c.rd(0)), leaves(x.was(x.args[0])))]))
            I.write(x.calls, SV(I.read(x.calls).t + 1, None))
            k = I.choose([z3.Int('kind') == j for j in range(5)])
            if k == 4:
                return VOID
            x.el = I.const(Z, 'reported')
            I.assume(x.el > 0)
            n0 = I.read(x.passed).t
            dispatch_visit(I, c.arg(1), k, x.el)
            h = union(DEF, [f(x.el) for f in HULL], NE(x.el))
            box = box_leaves(x.was(x.args[0]).f['boundingBox'])
            ov = And(h[0] <= box[2], box[0] <= h[2], h[1] <= box[3], box[1] <= h[3])
            I.check('a reported element is passed to the visitor exactly once if it meets the box, else not at all', I.read(x.passed).t == n0 + If(And(ov, self.some(h, box)), 1, 0))
            raise PathEnd()
        I.extra[BI + '::search'] = search

    def some(self, h, b):
        return And(h[0] <= h[2], h[1] <= h[3], b[0] <= b[2], b[1] <= b[3])

    def own_index(self, x, c):
        return BoolVal(c.this.base == x.this.base and c.this.path[:1] == (('f', 'stringIndex_'),))

    def pre(self, x):
        b = box_leaves(x.now(x.args[0]).f['boundingBox'])
        e = z3.Int('e!p')
        return super().pre(x) + [('box', And(b[0] <= b[2], b[1] <= b[3])), ('hulls', forall([e], Implies(NE(e), And(HULL[0](e) <= HULL[2](e), HULL[1](e) <= HULL[3](e))), NE(e)))]

    def modifies(self, x):
        return [x.this, x.calls, x.passed]

    def post(self, x):
        return [('the index is searched once', x.now(x.calls).t == 1)]


IDX = '(anonymous namespace)::InMemoryStringIndex'


class IndexBase(Contract):
    def setup(self, x):
        super().setup(x)
        I = x.I
        x.ks = key_sort(I)
        v = I.read(x.this)
        T = I.class_named(IMPL)
        ft, dc = I.field_decl(T, 'elementsMap_')
        x.map = I.new_root(I.fresh(ft, 'elements'))
        I.write(x.this, StV(v.cls, {**v.f, 'elementsMap_': PyV(x.map)}))


class Notify(IndexBase):
    name = IDX + '::notify'

    def setup(self, x):
        super().setup(x)
        x.visitor = x.args[2]
        m = x.now(x.map)
        k = enc(x.now(x.args[0]))
        x.el = S(S(m.val.el.t, k), x.args[1].t)
        x.k, x.m = k, m
        visits(x, lambda i: x.el)

    def pre(self, x):
        q = x.k
        return [('element of the tile', And(S(x.m.has, q), x.args[1].t >= 0, x.args[1].t < S(x.m.val.len, q), x.el > 0))]

    def modifies(self, x):
        return [x.cnt]

    def post(self, x):
        return [('the element of that order is visited once', x.now(x.cnt).t == 1)]


class IndexHas(IndexBase):
    name = IDX + '::hasData'

    def post(self, x):
        return [('the index asks for tiles which have elements', x.ret.t == S(x.now(x.map).has, enc(x.was(x.args[0]))))]


class GetBitmap(IndexBase):
    name = IDX + '::getBitmap'

    def modifies(self, x):
        return [x.this]

    def post(self, x):
        r = x.ret
        p = r.path if isinstance(r, LV) else ()
        q = enc(x.was(x.args[0]))
        ok = isinstance(r, LV) and r.base == x.this.base and [c for c in p if c[0] == 'f'] == [('f', 'bitmaps_')] and p[-1][0] == 'k'
        o, n = x.was(x.this).f['bitmaps_'], x.now(x.this).f['bitmaps_']
        a = z3.Const('q!p', x.ks)
        return [('the bitmap of the tile', p[-1][1] == q if ok else BoolVal(False)),
                ('it exists', forall([a], S(n.has, a) == Or(S(o.has, a), a == q), S(n.has, a))),
                ('other bitmaps stay', And([forall([a], Implies(a != q, S(u, a) == S(w, a)), S(w, a)) for u, w in zip(leaves(o.val), leaves(n.val))]))]


def delegated(cls, impl, name, label=None, inst=None, target=None):
    class D(Contract):
        """The public function passes its arguments on to the implementation."""

        def setup(self, x):
            super().setup(x)
            I = x.I
            x.calls = I.new_root(SV(IntVal(0), None))
            x.res = None

            def h(I, c):
                x.got = [c.arg(i) if isinstance(c.arg(i), LV) else c.rd(i) for i in range(c.n())]
                x.qv = I.read(x.got[0]) if x.got and isinstance(x.got[0], LV) and x.got[0].kind == 'root' else None
                I.write(x.calls, SV(I.read(x.calls).t + 1, None))
                if I.T(c.f['ret'])['k'] == 'void':
                    return VOID
                x.res = I.fresh(I.T(c.f['ret']), 'result')
                return x.res
            I.extra[impl + '::' + (target or name)] = h

        def pre(self, x):
            return [('implementation exists', x.now(x.this).f['pimpl_'].t > 0)]

        def modifies(self, x):
            return [x.calls]

        def post(self, x):
            if label == 'text':
                v = x.qv
                ok = len(x.got) == 3 and isinstance(v, StV) and x.got[1].same(x.args[5]) and x.got[2].same(x.args[6])
                same = []
                for n, i in (('notTerms', 0), ('andTerms', 1), ('orTerms', 2), ('boundingBox', 3), ('range', 4)):
                    same += [p == q for p, q in zip(leaves(v.f[n]), leaves(x.was(x.args[i])))] if ok else []
                args = And(BoolVal(ok), And(same) if same else BoolVal(True))
            else:
                eq = lambda a, b: a.t == b.t if isinstance(a, SV) and isinstance(b, SV) else BoolVal(isinstance(a, LV) and isinstance(b, LV) and a.same(b))
                args = And([BoolVal(len(x.got) == len(x.args))] + [eq(a, b) for a, b in zip(x.got, x.args)])
            out = [('the implementation is called once', x.now(x.calls).t == 1), ('with the given arguments', args)]
            if x.res is not None:
                out.append(('its result is returned', x.ret.t == x.res.t))
            return out
    d = D()
    d.name, d.label = cls + '::' + name, 'public ' + (label or name)
    if inst:
        d.instance = inst
    return d


def delegations(cls, impl):
    one = lambda f, I: len(f['ps']) == 1
    return [delegated(cls, impl, 'save', target='store'), delegated(cls, impl, 'hasData'), delegated(cls, impl, 'erase', inst=one),
            delegated(cls, impl, 'search', 'tile', lambda f, I: len(f['ps']) == 3), delegated(cls, impl, 'search', 'text', lambda f, I: len(f['ps']) == 7)]


def INSTALL(I):
    c08.INSTALL(I)
    I.opaque_types['EWAHBoolArray'] = lambda I, T, nm, lift: SV(z3.Const(nm, lift_sort(Z, lift)), {'k': 'opaque', 's': 'bits'})


CONTRACTS = [Save(k) for k in range(4)] + [SearchTile(), HasData(), Erase(), TextSearch(), Notify(), IndexHas(), GetBitmap()] + delegations(ST, IMPL)
HARNESS = {'src': 'c09.cpp', 'repo': ['src/index/InMemoryElementStore.cpp', 'src/index/BitmapIndex.cpp', 'src/index/ElementStore.cpp', 'src/index/StringTable.cpp', 'src/mapcss/StyleConsts.cpp', 'lib/hashing/MurmurHash3.cpp',
                                      'src/index/ElementGeometryClipper.cpp', 'lib/clipper/clipper.cpp']}

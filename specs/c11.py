"""Geo store: data goes to the named store only, within the given region; queries ask every registered store."""
from stores import *
from vc.lib import enum_of
GS = 'utymap::index::GeoStore'
IMPL = GS + '::GeoStoreImpl'
ST = 'utymap::index::ElementStore'
TRUSTED = ['parsers call the visitor they are given (OsmXmlParser, OsmJsonParser, OsmPbfParser, ShapeParser)', 'std::map and std::function as modelled by the engine']
ASSUMPTIONS = ['stores named by callers are registered', 'a cancellation token, once cancelled, stays cancelled', 'searching does not change whether stores have data']
CFG = {'strs': 'opaque', 'ftimeout': 100, 'htimeout': 500, 'portfolio': True, 'qfcand': 60}
TU = '@core/src/index/GeoStore.cpp'
PBF = False


def smap(v):
    return v.f['storeMap_']


class Base(Contract):
    def setup(self, x):
        super().setup(x)
        I = x.I
        x.ks = key_sort(I)
        x.HD = z3.Function('HD', Z, x.ks, B)
        x.KEYOF = z3.Function('KEYOF', Z, I.Str)
        x.m = smap(x.now(x.this))
        I.heap_hook = lambda I, lv, key: I.check('stores are changed only through their functions', BoolVal(False))

        def has(I, c):
            return SV(x.HD(c.this.base, enc(c.rd(0))), c.ret())
        I.extra[ST + '::hasData'] = has

    def pre(self, x):
        k = z3.Const('k!s', x.I.Str)
        m = x.m
        return [('stores exist', forall([k], Implies(S(m.has, k), And(S(m.val.t, k) > 0, x.KEYOF(S(m.val.t, k)) == k)), S(m.val.t, k))), ('number of stores', m.size >= 0)]


def same(x, a, b):
    """The argument b itself or an equal value."""
    I = x.I
    if isinstance(a, LV) and isinstance(b, LV) and a.same(b):
        return BoolVal(True)
    if isinstance(b, LV) and b.kind == 'heap':
        return a.base == b.base if is_heap(a) else BoolVal(False)
    try:
        u, v = leaves(I.read(a) if isinstance(a, LV) else a), leaves(x.was(b) if isinstance(b, LV) else b)
    except Exception:
        return BoolVal(False)
    return And([p == q for p, q in zip(u, v)]) if len(u) == len(v) else BoolVal(False)


class Add(Base):
    """Every element is stored in the named store, for the given region; a cancelled addition is erased there."""
    name = IMPL + '::add'

    def __init__(self, kind):
        self.kind = kind
        self.label = kind
        want = {'element': ('Element', 'LodRange'), 'tile': ('string', 'QuadKey'), 'range': ('string', 'LodRange'), 'box': ('string', 'BoundingBox')}[kind]
        self.instance = lambda f, I: len(f['ps']) >= 5 and all(w in str(I.T(f['ps'][i + 1])['s']) for i, w in enumerate(want))

    def make_arg(self, x, i, name, T):
        if i == 1 and self.kind == 'element':
            return LV('heap', x.I.const(Z, 'element'))
        return super().make_arg(x, i, name, T)

    def setup(self, x):
        super().setup(x)
        I = x.I
        x.stores, x.erased, x.parsed = [I.new_root(SV(IntVal(0), None)) for _ in range(3)]
        x.canc = I.new_root(SV(I.const(B, 'cancelled'), None))
        I.extra['utymap::CancellationToken::isCancelled'] = lambda I, c: SV(I.read(x.canc).t, c.ret())
        one = lambda r: I.write(r, SV(I.read(r).t + 1, None))
        region = {'element': [2], 'tile': [2], 'range': [2], 'box': [2, 3]}[self.kind]
        provider = len(x.args) - 2
        x.el = x.args[1].base if self.kind == 'element' else None
        x.bbox = None

        def target(I, c):
            I.check('the named store is used', c.this.base == S(x.m.val.t, x.was(x.args[0]).t) if is_heap(c.this) else BoolVal(False))

        def store(I, c):
            target(I, c)
            I.check('the element is stored', c.arg(0).base == x.el if is_heap(c.arg(0)) and x.el is not None else BoolVal(False))
            I.check('for the given region and styles', And([BoolVal(c.n() == len(region) + 2)] + [same(x, c.arg(1 + i), x.args[r]) for i, r in enumerate(region + [provider])]))
            one(x.stores)
            x.res = I.const(B, 'stored')
            return SV(x.res, c.ret())
        I.extra[ST + '::store'] = store

        def erase(I, c):
            target(I, c)
            I.check('only a cancelled addition is erased', I.read(x.canc).t)
            I.check('after all elements were added', I.read(x.parsed).t == 1)
            want = [x.args[2]] if self.kind == 'tile' else [x.args[3] if self.kind == 'box' else x.args[2]]
            if self.kind == 'range':
                ok = And([p == q for p, q in zip(leaves(c.rd(0)), leaves(x.bbox))])
            elif self.kind == 'box':
                ok = same(x, c.arg(0), x.args[2])
            else:
                ok = BoolVal(True)
            I.check('what was added is erased', And(ok, same(x, c.arg(c.n() - 1), want[0]), BoolVal(c.n() == (1 if self.kind == 'tile' else 2))))
            one(x.erased)
            return VOID
        I.extra[ST + '::erase'] = erase

        def parse(I, c):
            if c.n() != 3:
                raise Unsupported('add with %d arguments' % c.n())
            I.check('the given file is parsed', same(x, c.arg(0), x.args[1]))
            I.check('with the given token', same(x, c.arg(1), x.args[-1]))
            one(x.parsed)
            k = I.choose([z3.Bool('some') == True, z3.Bool('some') == False])
            if k == 0:
                x.el = I.const(Z, 'parsed')
                I.assume(x.el > 0)
                n = I.read(x.stores).t
                r = I.invoke(c.rd(2), [LV('heap', x.el)], c.e)
                I.check('every parsed element is stored once', I.read(x.stores).t == n + 1)
                I.check('and it is told whether it was stored', r.t == x.res)
                raise PathEnd()
            x.el = None
            b = I.const(B, 'cancelled')
            I.assume(Implies(I.read(x.canc).t, b))
            I.write(x.canc, SV(b, None))
            x.bbox = I.fresh(I.T(c.f['ret']), 'bbox')
            return x.bbox
        x.parse = parse

    def ghost(self, x):
        super().ghost(x)
        if self.kind != 'element':
            x.I.extra[IMPL + '::add'] = x.parse

    def pre(self, x):
        return super().pre(x) + [('the store is registered', S(x.m.has, x.now(x.args[0]).t))]

    def modifies(self, x):
        return [x.stores, x.erased, x.parsed, x.canc]

    def post(self, x):
        if self.kind == 'element':
            return [('the element is stored once', And(x.now(x.stores).t == 1, x.now(x.erased).t == 0))]
        return [('the file is parsed once', x.now(x.parsed).t == 1), ('no other element is stored', x.now(x.stores).t == 0),
                ('exactly if it was cancelled, it is erased', x.now(x.erased).t == If(x.now(x.canc).t, IntVal(1), IntVal(0)))]


class Queries(Base):
    def setup(self, x):
        super().setup(x)
        I = x.I
        x.cnt = I.new_root(SV(z3.K(Z, IntVal(0)), None))
        x.keys, x.idx = enum_of(I, x.fieldlv('storeMap_'), x.m)

        def search(I, c):
            I.check('a registered store is searched', BoolVal(is_heap(c.this)))
            I.check('with the given arguments', And([BoolVal(c.n() == len(self.passed(x)))] + [same(x, c.arg(i), a) for i, a in enumerate(self.passed(x)) if i < c.n()]))
            n = I.read(x.cnt).t
            I.write(x.cnt, SV(z3.Store(n, c.this.base, S(n, c.this.base) + 1), None))
            return VOID
        I.extra[ST + '::search'] = search

    def wanted(self, x, ref):
        return BoolVal(True)

    def counts(self, x, cnt, p):
        k, r = z3.Const('k!s', x.I.Str), z3.Int('r!s')
        m = x.m
        key = x.KEYOF(r)
        return forall([r], S(cnt, r) == If(And(S(m.has, key), S(m.val.t, key) == r, S(x.idx, key) < p, self.wanted(x, r)), IntVal(1), IntVal(0)), S(cnt, r))

    def invariants(self, x):
        def t(lc):
            k = z3.Const('k!s', x.I.Str)
            for n, lv in lc.vars(lambda v: isinstance(v, ItV) and v.kind == 'map' and v.pos is not None):
                if not lc.modified(lv):
                    continue

                def p(st, lv=lv):
                    it = lc.get(st, lv)
                    return If(it.end, x.m.size, S(x.idx, it.pos)) if it.end is not None else S(x.idx, it.pos)
                yield ('iterator %s' % n, lambda st, p=p, lv=lv: And(p(st) >= 0, p(st) <= x.m.size, lc.get(st, lv).end == (p(st) == x.m.size), Implies(p(st) < x.m.size, And(S(x.m.has, lc.get(st, lv).pos), S(x.keys, p(st)) == lc.get(st, lv).pos))))
                yield ('stores before %s were searched' % n, lambda st, p=p: self.counts(x, lc.get(st, x.cnt).t, p(st)))
                if x.d['name'].endswith('hasData'):
                    yield ('stores before %s have no data' % n, lambda st, p=p: forall([k], Implies(And(S(x.m.has, k), S(x.idx, k) < p(st)), Not(self.wanted(x, S(x.m.val.t, k)))), S(x.m.val.t, k)))
        return [t]

    def modifies(self, x):
        return [x.cnt]

    def post(self, x):
        return [('exactly the stores which are asked for are searched, once each', self.counts(x, x.now(x.cnt).t, x.m.size))]


class SearchText(Queries):
    """Every registered store is searched once with the given query."""
    name = IMPL + '::search'
    label = 'text'
    instance = staticmethod(lambda f, I: len(f['ps']) == 7)

    def passed(self, x):
        return x.args


class SearchTile(Queries):
    """Every registered store which has data of the tile is searched once, others are not."""
    name = IMPL + '::search'
    label = 'tile'
    instance = staticmethod(lambda f, I: len(f['ps']) == 4)

    def passed(self, x):
        return [x.args[0], x.args[2], x.args[3]]

    def wanted(self, x, ref):
        return x.HD(ref, enc(x.was(x.args[0])))


class HasData(Queries):
    """There is data if any of the stores has some."""
    name = IMPL + '::hasData'

    def passed(self, x):
        return []

    def wanted(self, x, ref):
        return x.HD(ref, enc(x.was(x.args[0])))

    def post(self, x):
        k = z3.Const('k!s', x.I.Str)
        m = x.m
        return [('no store is searched', x.now(x.cnt).t == z3.K(Z, IntVal(0))),
                ('there is data if any of the stores has some', x.ret.t == z3.Exists([k], And(S(m.has, k), self.wanted(x, S(m.val.t, k)))))]


F = 'utymap::formats::'


class AddFile(Base):
    """The file is parsed once by the parser of its format (by suffix), its elements go to the given function; the bounding box of the data is returned."""
    name = IMPL + '::add'
    label = 'file'
    instance = staticmethod(lambda f, I: len(f['ps']) == 3)

    def setup(self, x):
        super().setup(x)
        I = x.I
        ew = z3.Function('ENDS_WITH', I.Str, I.Str, B)
        I.extra['utymap::utils::endsWith'] = lambda I, c: SV(ew(c.rd(0).t, c.rd(1).t), c.ret())
        path = x.now(x.args[0]).t
        x.is_ = lambda e: ew(path, I.strlit(e).t)
        x.done = I.new_root(SV(BoolVal(False), None))
        x.box = None

        def ctor(kind):
            def h(I, c):
                I.check('the visitor gets the string table, the function and the token', And(c.arg(0).base == x.I.read(x.fieldlv('stringTable_')).o.base if isinstance(x.I.read(x.fieldlv('stringTable_')), PyV) and isinstance(c.arg(0), LV) else BoolVal(isinstance(c.arg(0), LV)),
                                                                                            BoolVal(isinstance(c.arg(2), LV) and c.arg(2).same(x.args[1])),
                                                                                            BoolVal(self.functor(x, c))))
                return StV('$visitor', {'kind': SV(IntVal(kind), None)})
            return h
        I.extra['ctor ' + F + 'OsmDataVisitor'] = ctor(0)
        I.extra['ctor ' + F + 'ShapeDataVisitor'] = ctor(1)
        I.extra['ctor std::basic_ifstream'] = lambda I, c: StV('$file', {'path': c.rd(0)})
        for n, e, k in (('ShapeParser', None, 1), ('OsmXmlParser', b'xml', 0), ('OsmJsonParser', b'json', 0), ('OsmPbfParser', b'pbf', 0)):
            I.extra['ctor ' + F + n] = lambda I, c: StV('$parser', {})

            def parse(I, c, e=e, k=k):
                src = I.read(c.arg(0)) if isinstance(c.arg(0), LV) else c.rd(0)
                path = src.f['path'] if isinstance(src, StV) else src
                I.check('the given file is parsed', path.t == x.was(x.args[0]).t)
                I.check('by the parser of its format', x.is_(e) if e else Not(Or([x.is_(s) for s in (b'xml', b'json', b'pbf')])))
                v = I.read(c.arg(1))
                I.check('with its visitor', BoolVal(isinstance(v, StV) and v.cls == '$visitor' and v.f['kind'].t.as_long() == k))
                I.check('once', Not(I.read(x.done).t))
                I.write(x.done, SV(BoolVal(True), None))
                return VOID
            I.extra[F + n + '::parse'] = parse

        def complete(I, c):
            I.check('the data is completed after it was parsed', And(I.read(x.done).t, BoolVal(x.box is None)))
            x.box = I.fresh(I.T(c.f['ret']), 'box')
            return x.box
        I.extra[F + 'OsmDataVisitor::complete'] = I.extra[F + 'ShapeDataVisitor::complete'] = complete

    def functor(self, x, c):
        a = c.arg(1)
        if isinstance(a, LV) and a.same(x.args[2]):
            return True
        v, w = c.rd(1), x.I.read(x.args[2])
        return v is w or getattr(v, 'o', 0) is getattr(w, 'o', 1)

    def pre(self, x):
        e = [x.is_(s) for s in (b'xml', b'json', b'pbf')]
        x.box = None
        return super().pre(x) + [('suffixes differ', z3.AtMost(*e, 1))]

    def modifies(self, x):
        return [x.done]

    def throws(self, x):
        return x.is_(b'pbf') if not [d for d in x.I.m.find(F + 'OsmPbfParser::parse')] else BoolVal(False)

    def post(self, x):
        return [('the file is parsed', x.now(x.done).t), ('its bounding box is returned', And([p == q for p, q in zip(leaves(x.ret), leaves(x.box))]) if x.box is not None else BoolVal(False))]


class EndsWith(Contract):
    """A string has a suffix: its last characters are those of the suffix."""
    name = 'utymap::utils::endsWith'
    cfg = {'strs': 'vec'}

    def post(self, x):
        v, e = x.was(x.args[0]), x.was(x.args[1])
        k = z3.Int('k!e')
        same = z3.ForAll([k], Implies(And(0 <= k, k < e.len), S(v.el.t, v.len - e.len + k) == S(e.el.t, k)), patterns=[S(e.el.t, k)])
        return [('tells whether it ends so', x.ret.t == And(v.len >= e.len, same))]


class Register(Base):
    """The store is registered under its key, others stay."""
    name = IMPL + '::registerStore'

    def pre(self, x):
        return super().pre(x) + [('a new key', Not(S(x.m.has, x.now(x.args[0]).t)))]

    def modifies(self, x):
        return [x.fieldlv('storeMap_')]

    def post(self, x):
        n, k, o = smap(x.now(x.this)), z3.Const('k!s', x.I.Str), x.m
        key = x.was(x.args[0]).t
        return [('the store is registered', And(S(n.has, key), S(n.val.t, key) == x.args[1].t)),
                ('others stay', forall([k], Implies(k != key, And(S(n.has, k) == S(o.has, k), S(n.val.t, k) == S(o.val.t, k))), S(n.val.t, k)))]


def sig(*want):
    return lambda f, I: len(f['ps']) == len(want) and all(w in str(I.T(p)['s']) for w, p in zip(want, f['ps']))


from c09 import delegated
ADD = {'element': ('string', 'Element', 'LodRange', 'StyleProvider', 'Token'), 'tile': ('string', 'string', 'QuadKey', 'StyleProvider', 'Token'),
       'range': ('string', 'string', 'LodRange', 'StyleProvider', 'Token'), 'box': ('string', 'string', 'BoundingBox', 'LodRange', 'StyleProvider', 'Token')}
CONTRACTS = [Add(k) for k in ('element', 'tile', 'range', 'box')] + [AddFile(), EndsWith(), Register(), SearchText(), SearchTile(), HasData()] + [
    delegated(GS, IMPL, 'add', 'add ' + k, sig(*w)) for k, w in ADD.items()] + [delegated(GS, IMPL, 'hasData'), delegated(GS, IMPL, 'registerStore')] + [
    delegated(GS, IMPL, 'search', 'search %d' % n, lambda f, I, n=n: len(f['ps']) == n) for n in (4, 7)]
HARNESS = {'src': 'c11.cpp', 'repo': ['src/index/GeoStore.cpp', 'src/index/InMemoryElementStore.cpp', 'src/index/BitmapIndex.cpp', 'src/index/ElementStore.cpp', 'src/index/StringTable.cpp', 'src/mapcss/StyleConsts.cpp', 'lib/hashing/MurmurHash3.cpp',
                                      'src/index/ElementGeometryClipper.cpp', 'lib/clipper/clipper.cpp', 'src/formats/osm/OsmDataVisitor.cpp', 'src/formats/osm/MultipolygonProcessor.cpp']}

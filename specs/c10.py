"""Persistent store: files of a tile hold the saved elements in order; reopening, eviction and searching do not change that."""
import streams, c06, bitmaps
from streams import mk, wf, upd, empty, frame_template
from c06 import ENC, LEN, KIND, sizes, agree_axiom, agree, arrs, EncLocal, Offsets
from stores import *
import c09
from c09 import TextSearch, visits, delegations, delegated
ST = 'utymap::index::PersistentElementStore'
IMPL = ST + '::PersistentElementStoreImpl'
QKD = '(anonymous namespace)::QuadKeyData'
BI = 'utymap::index::BitmapIndex'
ES = 'utymap::index::ElementStream'
BS_ = 'utymap::index::BitmapStream'
TRUSTED = streams.TRUSTED + bitmaps.TRUSTED + ['one open stream per file at a time: what one stream wrote and closed (or flushed) the next one reads', 'LruCache behaves as proved in C04', 'std::remove removes the file']
ASSUMPTIONS = ['the directories <data path>/<level> exist and can be written', 'data file of a tile stays below 4 GiB', 'element values within the limits of C06 (at most 65535 tags, points and members)',
               'a cancellation token, once cancelled, stays cancelled', 'visitors do not modify the store while they are called']
CFG = {'strs': 'opaque', 'ftimeout': 100, 'htimeout': 500, 'portfolio': True, 'qfcand': 60}
TU = '@core/src/index/PersistentElementStore.cpp'
VAL, ID, OFFS, IDX, VALOF, IDOF = [z3.Function(n, Z, Z) for n in ('VAL', 'ID', 'OFFS', 'IDX', 'VALOF', 'IDOF')]


def disk(n, index, data):
    """Files of a tile with n elements."""
    i = z3.Int('i!d')
    ki, iv, _ = arrs(index)
    rng = And(i >= 0, i < n)
    opened = lambda s: And(wf(s), s.f['ok'].t, s.f['app'].t, s.f['joint'].t, s.f['open'].t == -1)
    return [('files well formed and open', And(opened(index), opened(data))),
            ('one index entry of 12 bytes per element', And(n >= 0, index.f['len'].t == 12 * n)),
            ('index entries hold id and offset', forall([i], Implies(rng, And(S(ki, 12 * i) == 8, S(ki, 12 * i + 8) == 4, S(iv, 12 * i) == ID(i), S(iv, 12 * i + 8) == OFFS(i))), OFFS(i))),
            ('offsets lie in the data file', forall([i], Implies(rng, And(OFFS(i) >= 0, OFFS(i) + LEN(VAL(i)) <= data.f['len'].t)), OFFS(i))),
            ('the code of each element is at its offset', forall([i], Implies(rng, ENC(*arrs(data), OFFS(i), VAL(i))), OFFS(i)))]


class Tile(Contract):
    """One tile: its object, its two streams, its bitmap."""

    def setup(self, x):
        super().setup(x)
        I = x.I
        x.ks = key_sort(I)
        x.n = z3.Int('n')
        x.ref, x.df, x.xf, x.bd = [I.const(Z, n) for n in ('tile', 'dataFile', 'indexFile', 'bitmapData')]
        x.index, x.data = I.new_root(mk(I, None, 'index')), I.new_root(mk(I, None, 'data'))
        x.has = I.const(B, 'has')
        x.key = None
        I.solver.axioms.append(agree_axiom())

    def ghost(self, x):
        I = x.I
        I.heap_hook = None
        q = self.qkey(x)
        if q is not None:
            x.key = enc(x.now(q))
        T = I.class_named(QKD)
        I.assume(And(x.ref > 0, x.df > 0, x.xf > 0, x.bd > 0, x.df != x.xf))
        for f, r in (('dataFile', x.df), ('indexFile', x.xf), ('bitmapData_', x.bd)):
            ft, dc = I.field_decl(T, f)
            I.assume(I.read(LV('heap', x.ref, (('hf', dc, f, ft['i']),))).t == r)

        def getq(I, c):
            I.check('the files of the given tile are used', enc(c.rd(0)) == x.key)
            I.check('files are only opened (and created) for tiles with data', self.opens(x))
            return SV(x.ref, c.ret())
        I.extra[IMPL + '::getQuadKeyData'] = getq
        I.extra[IMPL + '::hasData'] = lambda I, c: SV(And(enc(c.rd(0)) == x.key, x.has) if self.checked(x, c) else None, c.ret())
        self.route(x)
        self.elements(x)

    def checked(self, x, c):
        x.I.check('it is asked whether the given tile has data', enc(c.rd(0)) == x.key)
        return True

    def opens(self, x):
        return BoolVal(True)

    def qkey(self, x):
        return x.args[0]

    def which(self, x, I, lv):
        if lv.kind == 'heap':
            for r, s in ((x.df, x.data), (x.xf, x.index)):
                if I.valid(lv.base == r):
                    return s
            raise Unsupported('stream which is not a file of the tile')
        return lv

    def route(self, x):
        I = x.I
        for nm, h in list(I.extra.items()):
            if nm.split('::')[0] == 'std' and nm.startswith('std::basic_') and any(nm.startswith(s + '::') for s in streams.STREAMS):
                def w(I, c, h=h):
                    c.this = self.which(x, I, c.this)
                    return h(I, c)
                I.extra[nm] = w

    def elements(self, x):
        """ElementStream::read by its contract (C06)."""
        def read(I, c):
            s = self.which(x, I, c.arg(0))
            I.check('elements are read from the data file', BoolVal(s.same(x.data)))
            v = I.read(s)
            g = v.f['g'].t
            j = IDX(g)
            I.check('reading starts at the offset of an element', And(j >= 0, j < x.n, OFFS(j) == g, ENC(*arrs(v), g, VAL(j))))
            r = I.const(Z, 'element')
            I.assume(And(r > 0, VALOF(r) == VAL(j), IDOF(r) == c.rd(1).t))
            streams.setg(I, s, g + LEN(VAL(j)))
            return SV(r, c.ret())
        x.I.extra[ES + '::read'] = read

    def pre(self, x):
        i = z3.Int('i!p')
        return disk(x.n, x.now(x.index), x.now(x.data)) + [
            ('codes are not empty', forall([i], LEN(VAL(i)) >= 3, VAL(i))),
            ('offsets are distinct', forall([i], Implies(And(i >= 0, i < x.n), IDX(OFFS(i)) == i), OFFS(i))),
            ('32 bit', And(x.n < 2 ** 32 - 1, x.now(x.data).f['len'].t < 2 ** 32))]

    def invariants(self, x):
        def t(lc):
            for n, p in lc.positions():
                yield ('index is read up to %s' % n, lambda st, p=p: And(lc.get(st, x.index).f['g'].t == 12 * p(st)))
        return [frame_template, t]

    def modifies(self, x):
        return [x.index, x.data]

    def visited(self, x, want):
        I = x.I
        x.cnt = I.new_root(SV(IntVal(0), None))

        def accept(I, c):
            n = I.read(x.cnt).t
            r = c.this.base
            I.check('the next element is visited, with its id', And(VALOF(r) == VAL(want(n)), IDOF(r) == ID(want(n))) if is_heap(c.this) else BoolVal(False))
            I.check('by the given visitor', BoolVal(isinstance(c.arg(0), LV) and c.arg(0).same(x.visitor)))
            if getattr(x, 'canc', None) is not None:
                I.check('nothing is visited after cancellation was seen', Not(I.read(x.canc).t))
            I.write(x.cnt, SV(n + 1, None))
            return VOID
        I.extra[EL + '::accept'] = accept

    def keep(self, x):
        """The files stay as they are."""
        out = []
        for nm, s in (('index', x.index), ('data', x.data)):
            o, n = x.was(s), x.now(s)
            out.append(('the %s file is unchanged' % nm, And([n.f[k].t == o.f[k].t for k in ('kind', 'iv', 'rv', 'sv', 'len')])))
        return out + [('the store can go on: ' + a, b) for a, b in disk(x.n, x.now(x.index), x.now(x.data))[:1]]


class Store(Tile):
    """The element is appended to the files of the tile and indexed under its position; the bitmap file is rewritten."""
    name = IMPL + '::store'

    def make_arg(self, x, i, name, T):
        if i == 0:
            return LV('heap', x.I.const(Z, 'element'))
        return super().make_arg(x, i, name, T)

    def qkey(self, x):
        return x.args[1]

    def ghost(self, x):
        super().ghost(x)
        I = x.I
        x.el = x.args[0].base
        x.v = z3.Int('v')
        x.adds, x.bmps, x.els = [I.new_root(SV(IntVal(0), None)) for _ in range(3)]
        T = I.class_named('(anonymous namespace)::BitmapData')
        bdlv = LV('heap', x.bd)
        path = I.read(I.field_lv(bdlv, T, 'path')).t
        dat = I.field_lv(bdlv, T, 'data')
        bump = lambda r: I.write(r, SV(I.read(r).t + 1, None))
        x.bid = c06.S_id(I)(x.el)

        def write(I, c):
            s = self.which(x, I, c.arg(0))
            o = I.read(s)
            I.check('the element is written to the data file', And(c.arg(1).base == x.el, BoolVal(s.same(x.data))))
            I.check('at its end', And(wf(o), o.f['ok'].t, o.f['p'].t == o.f['len'].t, o.f['open'].t == -1))
            I.write(s, I.refresh(o, 'out'))
            n = I.read(s)
            for nm, p in c06.Write.done(self, I, o, n, x.v):
                I.assume(p)
            I.assume(And(n.f['app'].t == o.f['app'].t, n.f['joint'].t == o.f['joint'].t, Implies(o.f['joint'].t, n.f['g'].t == n.f['p'].t)))
            bump(x.els)
            return VOID
        I.extra[ES + '::write'] = write

        def add(I, c):
            I.check('the given element is indexed in its tile', And(c.arg(0).base == x.el, enc(c.rd(1)) == x.key, BoolVal(c.this.same(x.this))))
            I.check('under its position in the tile', c.rd(2).t == x.n)
            bump(x.adds)
            return VOID
        I.extra[BI + '::add'] = add
        I.extra[QKD + '::getBitmap'] = lambda I, c: bdlv if I.valid(c.this.base == x.ref) else None

        def ctor(out):
            def h(I, c):
                m = z3.simplify(c.rd(1).t) if c.n() > 1 else IntVal(16)
                m = m.as_long() | out
                I.check('the bitmap file of the tile is opened', c.rd(0).t == path)
                I.check('and cleared', BoolVal(bool(m & 16) and not m & 1 and (bool(m & 32) or not m & 8)))
                x.file = True
                return upd(empty(I, None), ok=BoolVal(True), joint=BoolVal(True))
            return h
        I.extra['ctor std::basic_fstream'] = ctor(0)
        I.extra['ctor std::basic_ofstream'] = ctor(16)

        def bwrite(I, c):
            s = c.arg(0)
            I.check('the bitmap of the tile is written to its file', BoolVal(isinstance(I.read(s), StV) and not s.same(x.data) and not s.same(x.index) and s.kind == 'root' and getattr(x, 'file', False) and c.arg(1).same(dat)))
            I.check('with the new element in it', I.read(x.adds).t == 1)
            I.check('to an empty file', I.read(s).f['len'].t == 0)
            bump(x.bmps)
            return VOID
        I.extra[BS_ + '::write'] = bwrite

    def pre(self, x):
        return super().pre(x) + [('size', And(LEN(x.v) >= 3, x.now(x.data).f['len'].t + LEN(x.v) < 2 ** 32)), ('element', x.el > 0)]

    def modifies(self, x):
        return super().modifies(x) + [x.adds, x.bmps, x.els, x.this]

    def post(self, x):
        n = x.n
        o, w = x.was(x.data), x.now(x.data)
        ki, iv, _ = arrs(x.now(x.index))
        return [('the element is indexed once', x.now(x.adds).t == 1), ('written once', x.now(x.els).t == 1), ('and the bitmap file is rewritten', x.now(x.bmps).t >= 1),
                ('the index file gets one entry', And(x.now(x.index).f['len'].t == 12 * n + 12, S(ki, 12 * n) == 8, S(ki, 12 * n + 8) == 4)),
                ('with the id of the element', S(iv, 12 * n) == x.bid),
                ('and the offset of its code', And(S(iv, 12 * n + 8) == o.f['len'].t, ENC(*arrs(w), o.f['len'].t, x.v), w.f['len'].t == o.f['len'].t + LEN(x.v)))] + [
                ('earlier elements stay: ' + a, b) for a, b in disk(n, x.now(x.index), x.now(x.data)) if not a.startswith('one index entry')]


class Search(Tile):
    """All elements of the tile are visited in order with their ids, a prefix of them if cancelled; a tile without data has none."""
    name = IMPL + '::search'
    instance = staticmethod(lambda f, I: 'QuadKey' in str(I.T(f['ps'][0])['s']))

    def setup(self, x):
        super().setup(x)
        x.visitor = x.args[1]

    def opens(self, x):
        return x.has

    def ghost(self, x):
        super().ghost(x)
        cancellation(x)
        self.visited(x, lambda n: n)

    def invariants(self, x):
        return super().invariants(x) + [c09.count_template(x)]

    def modifies(self, x):
        return super().modifies(x) + [x.cnt, x.canc]

    def post(self, x):
        n = x.now(x.cnt).t
        m = If(x.has, x.n, 0)
        return [('the elements of the tile are visited in order, all unless cancelled', And(n <= m, Or(n == m, x.now(x.canc).t)))] + self.keep(x)


class Notify(Tile):
    name = IMPL + '::notify'

    def setup(self, x):
        super().setup(x)
        x.visitor = x.args[2]

    def ghost(self, x):
        super().ghost(x)
        self.visited(x, lambda n: x.args[1].t)

    def pre(self, x):
        return super().pre(x) + [('an element of the tile', And(x.args[1].t >= 0, x.args[1].t < x.n))]

    def modifies(self, x):
        return super().modifies(x) + [x.cnt]

    def post(self, x):
        return [('the element of that order is visited once', x.now(x.cnt).t == 1)] + self.keep(x)


IN, OUT, BIN, APP, TRUNC = 8, 16, 4, 1, 32
EXT = {'dataFile': b'.dat', 'indexFile': b'.idf', 'bitmap': b'.bmp'}


def PATHF(I, d, q, ext):
    return z3.Function('PATHF', I.Str, q.sort(), I.Str, I.Str)(d, q, ext if not isinstance(ext, bytes) else I.strlit(ext).t)


def QS(I, q):
    return z3.Function('QS', q.sort(), I.Str)(q)


def field(I, ref, cls, f):
    T = I.class_named(cls)
    ft, dc = I.field_decl(T, f)
    return I.read(LV('heap', ref, (('hf', dc, f, ft['i']),)))


def cat(I, *ss):
    from vc.lib import strcat
    r = ss[0]
    for s in ss[1:]:
        r = strcat(I, r, s)
    return r


class FilePath(Contract):
    """<data path>/<level>/<quad key><extension>"""
    name = IMPL + '::getFilePath'

    def setup(self, x):
        super().setup(x)
        I = x.I
        num = lambda t: SV(I.uf('numstr', INT, I.Str)(t), {'k': 'str'})
        I.extra['utymap::utils::GeoUtils::quadKeyToString'] = lambda I, c: SV(QS(I, enc(c.rd(0))), {'k': 'str'})
        I.extra['std::to_string'] = lambda I, c: num(c.rd(0).t)
        x.num = num

        def shl(I, c, this=None):
            lv = c.arg(0) if this is None else this
            v = c.rd(1 if this is None else 0)
            if v.t.sort() == INT:
                v = num(v.t)
            o = I.read(lv)
            I.write(lv, StV('$ss', {'s': v if z3.is_true(o.f['no'].t) else cat(I, o.f['s'], v), 'no': SV(BoolVal(False), None)}))
            return lv
        I.extra['std::operator<<'] = shl
        I.extra['std::basic_ostream::operator<<'] = lambda I, c: shl(I, c, c.this)
        for n in ('std::basic_stringstream', 'std::basic_ostringstream'):
            I.extra['ctor ' + n] = lambda I, c: StV('$ss', {'s': I.strlit(b''), 'no': SV(BoolVal(True), None)})
            I.extra[n + '::str'] = lambda I, c: I.read(c.this).f['s']

    def post(self, x):
        I = x.I
        q = x.was(x.args[0])
        sl = I.strlit(b'/')
        d = x.was(x.this).f['dataPath_']
        want = cat(I, d, sl, x.num(q.f['levelOfDetail'].t), sl, SV(QS(I, enc(q)), {'k': 'str'}), x.arg(1))
        return [('<data path>/<level>/<quad key><extension>', x.ret.t == want.t)]


def lru(I, ks):
    """LruCache<QuadKey, QuadKeyData> as a map (C04): a key which was just put is in it as the capacity is positive."""
    A = lambda n, s: SV(z3.Const(n, z3.ArraySort(ks, s)), None)
    q = 'utymap::utils::LruCache'
    I.opaque_types[q] = lambda I, T, nm, lift: StV('$lru', {'has': A(nm + '.has', B), 'val': A(nm + '.val', Z), 'cap': SV(z3.Int(nm + '.cap'), None)})

    def ctor(I, c):
        v = I.fresh(c.T if hasattr(c, 'T') else I.T(c.f['cls']), 'lru')
        return StV('$lru', {'has': SV(z3.K(ks, BoolVal(False)), None), 'val': v.f['val'], 'cap': SV(c.rd(0).t if c.n() else IntVal(8), None)})

    def get(I, c):
        v = I.read(c.this)
        k = enc(c.rd(0))
        if I.choose([S(v.f['has'].t, k), Not(S(v.f['has'].t, k))]) == 1:
            raise CxxThrow('std::range_error')
        return SV(S(v.f['val'].t, k), c.ret())

    def put(I, c):
        v = I.read(c.this)
        k = enc(c.rd(0))
        mv = [d for d in I.m.find(QKD + '::QuadKeyData') if len(d['params']) == 1 and ('body' in d or d.get('dflt'))]
        if len(mv) != 1:
            raise Unsupported('move constructor of QuadKeyData %s' % [(d['loc'], d.get('dflt'), 'body' in d) for d in I.m.find(QKD + '::QuadKeyData')])
        r = I.alloc(I.class_named(QKD), I.construct(mv[0], [c.arg(1)])).t
        has = I.const(z3.ArraySort(ks, B), 'has')
        j = z3.Const('j!c', ks)
        I.assume(forall([j], Implies(S(has, j), Or(j == k, S(v.f['has'].t, j))), S(has, j)))
        I.assume(Implies(v.f['cap'].t >= 1, S(has, k)))
        I.write(c.this, StV('$lru', {'has': SV(has, None), 'val': SV(z3.Store(v.f['val'].t, k, r), None), 'cap': v.f['cap']}))
        return VOID

    def size(I, c):
        v, n = I.read(c.this), I.const(Z, 'size')
        j = z3.Const('j!c', ks)
        I.assume(And(n >= 0, n <= v.f['cap'].t, forall([j], Implies(S(v.f['has'].t, j), n > 0), S(v.f['has'].t, j))))
        return SV(n, c.ret())

    def clear(I, c):
        v = I.read(c.this)
        I.write(c.this, StV('$lru', {**v.f, 'has': SV(z3.K(ks, BoolVal(False)), None)}))
        return VOID
    I.extra.update({'ctor ' + q: ctor, q + '::exists': lambda I, c: SV(S(I.read(c.this).f['has'].t, enc(c.rd(0))), c.ret()),
                    q + '::get': get, q + '::peek': get, q + '::put': put, q + '::clear': clear, q + '::size': size})


class Cached(Contract):
    def setup(self, x):
        x.ks = key_sort(x.I)
        super().setup(x)
        x.I.extra[IMPL + '::getFilePath'] = lambda I, c: SV(PATHF(I, I.read(c.this).f['dataPath_'].t, enc(c.rd(0)), c.rd(1).t), {'k': 'str'})

    def modifies(self, x):
        return [x.fieldlv('cache_'), x.fieldlv('lock_')]

    def cache(self, x, v):
        c = v.f['cache_']
        return c.f['has'].t, c.f['val'].t, c.f['cap'].t


class GetData(Cached):
    """The object of a tile has its two files open for appending and knows the three paths of the tile."""
    name = IMPL + '::getQuadKeyData'

    def setup(self, x):
        super().setup(x)
        I = x.I
        x.path = I.new_root(SV(z3.Const('path', z3.ArraySort(Z, I.Str)), None))
        x.mode = I.new_root(SV(z3.Const('mode', z3.ArraySort(Z, Z)), None))
        I.extra['ctor std::basic_fstream'] = lambda I, c: empty(I, None)

        def opened(I, c):
            if c.this.kind != 'heap':
                raise Unsupported('stream on the stack')
            r, m = c.this.base, z3.simplify(c.rd(1).t)
            I.write(x.path, SV(z3.Store(I.read(x.path).t, r, c.rd(0).t), None))
            I.write(x.mode, SV(z3.Store(I.read(x.mode).t, r, m), None))
            return VOID
        I.extra['std::basic_fstream::open'] = opened

    def ghost(self, x):
        x.alloc0 = x.I.old_alloc()
        I = x.I

        def wr(I, lv, key):
            I.check('objects of other tiles are not changed', lv.base >= x.alloc0)
        I.heap_hook = wr

    def good(self, x, r, k, new=None):
        I = x.I
        d = x.now(x.this).f['dataPath_'].t
        P = lambda e: PATHF(I, d, k, EXT[e])
        f, g, b = [field(I, r, QKD, n).t for n in ('dataFile', 'indexFile', 'bitmapData_')]
        path, mode = x.now(x.path).t, x.now(x.mode).t
        ok = lambda m: And([z3.Or([m == v for v in range(64) if v & (IN | OUT | BIN | APP) == IN | OUT | BIN | APP and not v & TRUNC])])
        lim = x.alloc0 if new is None else new
        return [('object', And(r > 0, r < lim, f > 0, g > 0, b > 0, f < lim, g < lim, b < lim, f != g)),
                ('data file', And(S(path, f) == P('dataFile'), ok(S(mode, f)))),
                ('index file', And(S(path, g) == P('indexFile'), ok(S(mode, g)))),
                ('bitmap file', field(I, b, '(anonymous namespace)::BitmapData', 'path').t == P('bitmap')),
                ('paths to remove', And(field(I, r, QKD, 'dataPath_').t == P('dataFile'), field(I, r, QKD, 'indexPath_').t == P('indexFile'), field(I, r, QKD, 'bitmapPath_').t == P('bitmap')))]

    def pre(self, x):
        has, val, cap = self.cache(x, x.now(x.this))
        k = z3.Const('k!q', x.ks)
        return [('capacity', cap >= 1), ('objects of tiles', forall([k], Implies(S(has, k), And([p for _, p in self.good(x, S(val, k), k)])), S(has, k)))]

    def modifies(self, x):
        return super().modifies(x) + [x.path, x.mode]

    def post(self, x):
        I = x.I
        k, q = z3.Const('k!q', x.ks), enc(x.was(x.args[0]))
        has, val, cap = self.cache(x, x.now(x.this))
        oh, ov, _ = self.cache(x, x.was(x.this))
        r = x.ret.t
        bm = field(I, field(I, r, QKD, 'bitmapData_').t, '(anonymous namespace)::BitmapData', 'data')
        new = I.old_alloc()
        return [('of the tile: ' + n, p) for n, p in self.good(x, r, q, new)] + [
            ('it is kept', And(S(has, q), S(val, q) == r)), ('a known object is reused', Implies(S(oh, q), r == S(ov, q))),
            ('the bitmap of a new object is not loaded yet', Implies(Not(S(oh, q)), bm.size == 0)),
            ('other objects', forall([k], Implies(And(k != q, S(has, k)), And(S(oh, k), S(val, k) == S(ov, k), And([p for _, p in self.good(x, S(val, k), k)]))), S(has, k)))]


class Has(Cached):
    name = IMPL + '::hasData'

    def setup(self, x):
        super().setup(x)
        I = x.I
        x.ex = lambda p: I.uf('EXISTS', I.Str, BOOL)(p)

        def ctor(I, c):
            m = z3.simplify(c.rd(1).t).as_long() if c.n() > 1 else IN
            I.check('the file is only looked at', BoolVal(m & IN and not m & (OUT | APP | TRUNC)))
            return upd(empty(I, None), ok=x.ex(c.rd(0).t))
        I.extra['ctor std::basic_ifstream'] = ctor

    def post(self, x):
        I = x.I
        return [('a tile has data if its data file exists', x.ret.t == x.ex(PATHF(I, x.was(x.this).f['dataPath_'].t, enc(x.was(x.args[0])), EXT['dataFile'])))]


class Erase(Cached):
    name = IMPL + '::erase'
    instance = staticmethod(lambda f, I: len(f['ps']) == 1)

    def setup(self, x):
        super().setup(x)
        I = x.I
        x.n = I.new_root(SV(IntVal(0), None))
        x.ref = I.const(Z, 'tile')

        def getq(I, c):
            k = enc(c.rd(0))
            I.check('the files of the given tile are used', k == enc(x.was(x.args[0])))
            v = I.read(c.this)
            l = v.f['cache_']
            I.write(c.this, StV(v.cls, {**v.f, 'cache_': StV('$lru', {**l.f, 'has': SV(z3.Store(l.f['has'].t, k, True), None), 'val': SV(z3.Store(l.f['val'].t, k, x.ref), None)})}))
            return SV(x.ref, c.ret())
        I.extra[IMPL + '::getQuadKeyData'] = getq

        def erase(I, c):
            I.check('files of the tile are removed', c.this.base == x.ref)
            I.write(x.n, SV(I.read(x.n).t + 1, None))
            return VOID
        I.extra[QKD + '::erase'] = erase

    def pre(self, x):
        return [('tile', x.ref > 0)]

    def modifies(self, x):
        return super().modifies(x) + [x.n]

    def post(self, x):
        has, val, _ = self.cache(x, x.now(x.this))
        oh, ov, _ = self.cache(x, x.was(x.this))
        k, q = z3.Const('k!q', x.ks), enc(x.was(x.args[0]))
        return [('the files are removed once', x.now(x.n).t == 1), ('the object of the tile is forgotten', Not(S(has, q))),
                ('objects of other tiles stay as they are or are forgotten', forall([k], Implies(And(k != q, S(has, k)), And(S(oh, k), S(ov, k) == S(val, k))), S(has, k)))]


class Flush(Cached):
    name = IMPL + '::flush'

    def post(self, x):
        has, val, _ = self.cache(x, x.now(x.this))
        k = z3.Const('k!q', x.ks)
        return [('no object stays open', forall([k], Not(S(has, k)), S(has, k)))]


class Make(Cached):
    name = IMPL + '::PersistentElementStoreImpl'
    instance = staticmethod(lambda f, I: len(f['ps']) == 2)

    def setup(self, x):
        super().setup(x)
        x.I.extra['ctor ' + BI] = lambda I, c: I.fresh(I.class_named(BI), 'index')

    def modifies(self, x):
        return []

    def post(self, x):
        has, val, cap = self.cache(x, x.ret)
        k = z3.Const('k!q', x.ks)
        return [('no tile is open', forall([k], Not(S(has, k)), S(has, k))), ('at least one tile can be kept open', cap >= 1), ('data path', x.ret.f['dataPath_'].t == x.arg(0).t)]


class Remove(Contract):
    """The three files of the tile are removed, nothing else."""
    name = QKD + '::erase'

    def make_this(self, x, T):
        return LV('heap', x.I.const(Z, 'tile'))

    def setup(self, x):
        super().setup(x)
        I = x.I
        x.gone = I.new_root(SV(z3.K(I.Str, BoolVal(False)), None))

        def remove(I, c):
            I.write(x.gone, SV(z3.Store(I.read(x.gone).t, c.rd(0).t, True), None))
            return I.fresh(c.ret(), 'failed')
        I.extra['std::remove'] = I.extra['remove'] = remove
        I.extra['std::basic_fstream::close'] = lambda I, c: VOID
        I.extra['std::basic_ios::good'] = lambda I, c: SV(I.const(B, 'good'), c.ret())
        I.extra[QKD + '::logEraseError'] = lambda I, c: VOID

    def pre(self, x):
        return [('object', x.this.base > 0)]

    def modifies(self, x):
        return [x.gone]

    def post(self, x):
        I = x.I
        p = z3.Const('p!q', I.Str)
        fs = [field(I, x.this.base, QKD, n).t for n in ('dataPath_', 'indexPath_', 'bitmapPath_')]
        return [('data, index and bitmap file of the tile are removed, nothing else', forall([p], S(x.now(x.gone).t, p) == Or([p == f for f in fs]), S(x.now(x.gone).t, p)))]


class Bitmap(Contract):
    """The bitmap of the tile is the one in memory or, if that is empty, the one in the file."""
    name = QKD + '::getBitmap'

    def make_this(self, x, T):
        return LV('heap', x.I.const(Z, 'tile'))

    def setup(self, x):
        super().setup(x)
        I = x.I
        T = I.class_named('(anonymous namespace)::BitmapData')
        x.bd = field(I, x.this.base, QKD, 'bitmapData_').t
        x.dat = I.field_lv(LV('heap', x.bd), T, 'data')
        path = I.read(I.field_lv(LV('heap', x.bd), T, 'path')).t
        x.reads = I.new_root(SV(IntVal(0), None))
        x.m0 = I.read(x.dat)
        x.disk = I.fresh(I.field_decl(T, 'data')[0], 'disk')
        x.path = I.new_root(SV(I.strlit(b'').t, None))

        def opened(I, c):
            i = 0
            m = z3.simplify(c.rd(1).t).as_long() if c.n() > 1 else IN
            I.check('the bitmap file of the tile is opened for reading', And(c.rd(0).t == path, BoolVal(bool(m & IN) and not m & (APP | TRUNC))))
            I.write(x.path, SV(c.rd(0).t, None))
            return VOID

        def ctor(I, c):
            if c.n():
                opened(I, c)
            return empty(I, None)
        I.extra['std::basic_fstream::open'] = I.extra['std::basic_ifstream::open'] = opened
        I.extra['ctor std::basic_fstream'] = I.extra['ctor std::basic_ifstream'] = ctor

        def read(I, c):
            I.check('into the bitmap of the tile', And(c.arg(1).base == x.bd, BoolVal(c.arg(1).path == x.dat.path)))
            I.check('after opening its file', I.read(x.path).t == path)
            I.check('which was empty', I.read(x.dat).size == 0)
            I.check('only once', I.read(x.reads).t == 0)
            I.write(x.reads, SV(IntVal(1), None))
            I.write(x.dat, x.disk)
            return VOID
        I.extra[BS_ + '::read'] = read

    def pre(self, x):
        return [('object', And(x.this.base > 0, x.bd > 0, x.m0.size >= 0, x.disk.size >= 0))]

    def modifies(self, x):
        return [x.reads, x.path]

    def post(self, x):
        I = x.I
        n = x.now(x.dat)
        e = x.m0.size == 0
        return [('bitmap of the tile', BoolVal(isinstance(x.ret, LV) and x.ret.kind == 'heap') if not isinstance(x.ret, LV) else x.ret.base == x.bd),
                ('read from the file if there is none in memory', x.now(x.reads).t == If(e, IntVal(1), IntVal(0))),
                ('which is otherwise unchanged', And([u == If(e, w, v) for u, v, w in zip(leaves(n), leaves(x.m0), leaves(x.disk))]))]


def INSTALL(I):
    c09.INSTALL(I)
    streams.install(I)
    lru(I, key_sort(I))


class Text(TextSearch):
    name = IMPL + '::search'

    def setup(self, x):
        super().setup(x)

    def own_index(self, x, c):
        return BoolVal(c.this.same(x.this))

    def wfmap(self, x, v):
        return []


class ImplBitmap(Tile):
    """The text index of the store works on the bitmap of the tile."""
    name = IMPL + '::getBitmap'

    def ghost(self, x):
        super().ghost(x)
        I = x.I
        T = I.class_named('(anonymous namespace)::BitmapData')
        x.dat = I.field_lv(LV('heap', x.bd), T, 'data')

        def get(I, c):
            I.check('the bitmap of the tile is taken', c.this.base == x.ref)
            return LV('heap', x.bd)
        I.extra[QKD + '::getBitmap'] = get

    def pre(self, x):
        return []

    def post(self, x):
        r = x.ret
        return [('the bitmap of the tile', And(r.base == x.bd, BoolVal(r.path == x.dat.path)) if isinstance(r, LV) and r.kind == 'heap' else BoolVal(False))]


CONTRACTS = [Store(), Search(), Notify(), Text(), FilePath(), GetData(), Has(), Erase(), Flush(), Make(), Remove(), Bitmap(), ImplBitmap()] + delegations(ST, IMPL) + [
    delegated(ST, IMPL, 'flush'), EncLocal(), Offsets()] + bitmaps.CONTRACTS
HARNESS = {'src': 'c10.cpp', 'repo': ['src/index/PersistentElementStore.cpp', 'src/index/BitmapIndex.cpp', 'src/index/BitmapStream.cpp', 'src/index/ElementStream.cpp', 'src/index/ElementStore.cpp', 'src/index/StringTable.cpp', 'src/mapcss/StyleConsts.cpp', 'lib/hashing/MurmurHash3.cpp',
                                      'src/index/ElementGeometryClipper.cpp', 'lib/clipper/clipper.cpp']}

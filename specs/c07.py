"""Text search: an index tile holds, per term, the orders of the elements which have it; a query reports exactly the orders it describes."""
import streams, ewah
from ewah import *
BI = 'utymap::index::BitmapIndex'
TRUSTED = ewah.TRUSTED + ['boost::tokenizer splits a string into a finite sequence of tokens which depends on the string only',
                          'string ids are a function of the string (C05)', 'GeoUtils::visitTileRange calls the visitor once per tile of the level which intersects the box (C02, C03)']
ASSUMPTIONS = ['orders of one tile are added in increasing order (the stores number elements consecutively: proved in C09 and C10)',
               'virtual getBitmap/hasData/notify: getBitmap gives the bitmap of the tile (proved for the stores in C08)']
CFG = {'strs': 'opaque', 'ftimeout': 100, 'htimeout': 400, 'portfolio': True, 'qfcand': 60}
TU = '@core/src/index/BitmapIndex.cpp'


def toks(I, s):
    return I.uf('tokens', I.Str, z3.ArraySort(Z, I.Str))(s)


def ntok(I, s):
    n = I.uf('ntokens', I.Str, Z)(s)
    I.fact(And(n >= 0, n <= 2 ** 40))
    return n


def sid(I, s):
    return I.uf('sid', I.Str, Z)(s)


def strof(I, i):
    return I.uf('strof', Z, I.Str)(i)


def tok(I, s, i):
    return sid(I, S(toks(I, s), i))


def mem(I, s, t):
    """The string s has the term t."""
    return I.uf('hasterm', I.Str, Z, B)(s, t)


def mem_axioms(I):
    s = z3.Const('s!m', I.Str)
    i, t = z3.Ints('i!m t!m')
    w = I.uf('termpos', I.Str, Z, Z)
    n = I.uf('ntokens', I.Str, Z)
    return [forall([s, i], Implies(And(i >= 0, i < n(s)), mem(I, s, tok(I, s, i))), S(toks(I, s), i)),
            forall([s, t], Implies(mem(I, s, t), And(w(s, t) >= 0, w(s, t) < n(s), tok(I, s, w(s, t)) == t)), mem(I, s, t))]


def install(I):
    ewah.install(I)
    I.opaque_types['boost::tokenizer'] = lambda I, T, nm, lift: VecV(z3.Const(nm + '.len', lift_sort(Z, lift)), SV(z3.Const(nm + '.el', lift_sort(z3.ArraySort(Z, I.Str), lift)), None), 'vec')
    I.opaque_types['boost::char_separator'] = lambda I, T, nm, lift: SV(z3.Const(nm, lift_sort(Z, lift)), {'k': 'opaque', 's': 'sep'})
    I.opaque_types['utymap::index::StringTable'] = lambda I, T, nm, lift: SV(z3.Const(nm, lift_sort(Z, lift)), {'k': 'opaque', 's': 'st'})
    e = I.extra

    def tk(I, c):
        v = c.rd(0)
        if isinstance(v, VecV):
            return v
        return VecV(ntok(I, v.t), SV(toks(I, v.t), None), 'vec')
    e['ctor boost::tokenizer'] = tk
    e['ctor boost::token_iterator'] = lambda I, c: c.rd(0)
    e['boost::tokenizer::begin'] = lambda I, c: ItV('vec', c.this, IntVal(0))
    e['boost::tokenizer::end'] = lambda I, c: ItV('vec', c.this, c.rdthis().len)
    e['boost::iterators::operator!='] = lambda I, c: SV(I.veq_op('!=', c.rd(0), c.rd(1)), c.ret())
    e['boost::iterators::operator=='] = lambda I, c: SV(I.veq_op('==', c.rd(0), c.rd(1)), c.ret())

    def inc(I, c):
        v = c.rdthis()
        I.write(c.this, I.step(v, 1, None))
        return c.this
    e['boost::iterators::detail::iterator_facade_base::operator++'] = inc

    def deref(I, c):
        it = c.rdthis()
        I.bounds(it.cont, it.pos, c.line, 'dereferenced iterator')
        return I.deref(it, c.ret())
    e['boost::iterators::detail::iterator_facade_base::operator*'] = deref
    e['boost::iterators::detail::iterator_facade_base::operator->'] = deref

    def get_id(I, c):
        r = sid(I, c.rd(0).t)
        I.fact(And(r >= 0, r < 2 ** 32))
        return SV(r, c.ret())
    e['utymap::index::StringTable::getId'] = get_id
    e['utymap::index::StringTable::getString'] = lambda I, c: PyV(I.new_root(SV(strof(I, c.rd(0).t), None)))
    e['ctor utymap::index::StringTable'] = lambda I, c: c.rd(0)


INSTALL = install


def pos_vec(lc):
    return lc.positions()


class Tokenize(Contract):
    """Appends the ids of the tokens of the string."""
    name = BI + '::tokenize'
    instance = staticmethod(lambda f, I: len(f['params'] if 'params' in f else f['ps']) == 2)

    def modifies(self, x):
        return [x.args[1]]

    def invariants(self, x):
        I = x.I

        def t(lc):
            s = x.arg(0).t
            d0 = lc.get(lc.entry, x.args[1])
            j = z3.Int('j!t')
            cur = lambda st: lc.get(st, x.args[1])
            yield ('kept', lambda st: forall([j], Implies(And(j >= 0, j < d0.len), S(cur(st).el.t, j) == S(d0.el.t, j)), S(cur(st).el.t, j)))
            for n, p in lc.positions():
                yield ('%s tokens appended' % n, lambda st, p=p: And(p(st) >= 0, p(st) <= ntok(I, s), cur(st).len == d0.len + p(st)))
                yield ('%s tokens are' % n, lambda st, p=p: forall([j], Implies(And(j >= 0, j < p(st)), S(cur(st).el.t, d0.len + j) == tok(I, s, j)), S(toks(I, s), j)))
        return [t]

    def post(self, x):
        I = x.I
        s = x.arg(0).t
        o, n = x.was(x.args[1]), x.now(x.args[1])
        j = z3.Int('j!p')
        return [('the ids of all tokens are appended in order', And(n.len == o.len + ntok(I, s), forall([j], Implies(And(j >= 0, j < ntok(I, s)), S(n.el.t, o.len + j) == tok(I, s, j)), S(toks(I, s), j)),
                                                                   forall([j], Implies(And(j >= o.len, j < n.len), S(n.el.t, j) == tok(I, s, j - o.len)), S(n.el.t, j)))),
                ('entries before are kept', z3.ForAll([j], Implies(And(j >= 0, j < o.len), S(n.el.t, j) == S(o.el.t, j)), patterns=[S(n.el.t, j), S(o.el.t, j)]))]


class OnIndex(Contract):
    def setup(self, x):
        super().setup(x)
        self.world(x)

    def world(self, x):
        I = x.I
        QT = I.class_named('utymap::QuadKey')
        BT = [t for t in I.m.types if t['k'] == 'rec' and I.rname(t) == 'std::unordered_map' and I.rname(I.targ(t, 1)) == ewah.CLS][0]
        x.qs = I.key_sort(QT)
        x.bm0 = MapV(z3.K(x.qs, BoolVal(True)), I._fresh(BT, 'bitmap', (x.qs,)), IntVal(0), x.qs, None)
        x.bm = I.new_root(x.bm0)
        x.note = I.new_root(SV(z3.K(x.qs, z3.K(Z, BoolVal(False))), None))
        x.hd = z3.Const('hasdata', z3.ArraySort(x.qs, B))
        I.extra[BI + '::getBitmap'] = lambda I, c: x.bm + ('k', enc(c.rd(0)))
        I.extra[BI + '::hasData'] = lambda I, c: SV(S(x.hd, enc(c.rd(0))), c.ret())
        x.q = None

    def inner(self, v, q):
        return select(v.val, q)

    def bit(self, v, q, t, o):
        m = self.inner(v, q)
        return And(S(m.has, t), S(S(m.val.f['set'].t, t), o))


class Add(OnIndex):
    name = BI + '::add'

    def tags(self, x):
        I = x.I
        return x.arg(0).f['tags'] if isinstance(x.arg(0), StV) else None

    def setup(self, x):
        I = x.I
        f = x.f
        self.world(x)
        x.this = self.make_this(x, I.noref(f['cls']))
        ref = I.const(Z, 'element')
        x.args = [LV('heap', ref), I.new_root(I.fresh(I.noref(f['ps'][1]), 'qk')), I.fresh(I.T(f['ps'][2]), 'order')]
        T = I.class_named('utymap::entities::Element')
        ft, dc = I.field_decl(T, 'tags')
        x.tags = I.read(LV('heap', ref, (('hf', dc, 'tags', ft['i']),)))
        I.assume(And(ref > 0, x.tags.len >= 0))
        for a in mem_axioms(I):
            I.solver.axioms.append(a)

    def has(self, x, j, t):
        I = x.I
        return Or(mem(I, strof(I, S(x.tags.el.f['key'].t, j)), t), mem(I, strof(I, S(x.tags.el.f['value'].t, j)), t))

    def pre(self, x):
        t = z3.Int('t!p')
        m = self.inner(x.now(x.bm), enc(x.now(x.args[1])))
        o = x.args[2].t
        return [('only smaller orders are in the tile', forall([t], Implies(S(m.has, t), And(S(m.val.f['size'].t, t) >= 0, S(m.val.f['size'].t, t) <= o, S(m.val.f['app'].t, t))), S(m.has, t)))]

    def invariants(self, x):
        I = x.I

        def t(lc):
            k, t, o, j, q = z3.Ints('k!t t!t o!t j!t')[0:4] + [None] if False else (z3.Int('k!t'), z3.Int('t!t'), z3.Int('o!t'), z3.Int('j!t'), z3.Const('q!t', x.qs))
            order = x.args[2].t
            qq = enc(x.was(x.args[1]))
            vecs = lc.vars(lambda v: isinstance(v, VecV) and isinstance(v.el, SV) and v.el.t.sort() == z3.ArraySort(Z, Z))
            for n, p in lc.positions():
                for vn, lv in vecs:
                    v = lambda st, lv=lv: lc.get(st, lv)
                    yield ('%s only holds terms of the tags seen (%s)' % (vn, n), lambda st, p=p, v=v: forall([k], Implies(And(k >= 0, k < v(st).len), z3.Exists([j], And(j >= 0, j < p(st), self.has(x, j, S(v(st).el.t, k))))), S(v(st).el.t, k)))
                    for fd in ('key', 'value'):
                        h = lambda j, t, fd=fd: mem(I, strof(I, S(x.tags.el.f[fd].t, j)), t)
                        yield ('%s holds all terms of the %ss seen (%s)' % (vn, fd, n), lambda st, p=p, v=v, h=h: forall([j, t], Implies(And(j >= 0, j < p(st), h(j, t)), z3.Exists([k], And(k >= 0, k < v(st).len, S(v(st).el.t, k) == t))), h(j, t)))
                    yield ('bits set for %s (%s)' % (vn, n), lambda st, p=p, v=v: forall([t, o], self.bit(lc.get(st, x.bm), qq, t, o) == Or(self.bit(lc.get(lc.entry, x.bm), qq, t, o), And(o == order, z3.Exists([k], And(k >= 0, k < p(st), S(v(st).el.t, k) == t))))))
            m = lambda st: self.inner(lc.get(st, x.bm), qq)
            yield ('bitmaps stay appendable', lambda st: forall([t], Implies(S(m(st).has, t), And(S(m(st).val.f['size'].t, t) >= 0, S(m(st).val.f['app'].t, t), Or(S(m(st).val.f['size'].t, t) <= order, And(S(m(st).val.f['size'].t, t) == order + 1, S(S(m(st).val.f['set'].t, t), order))))), S(m(st).has, t)))
            yield ('other tiles are unchanged', lambda st: self.others(x, lc.get(lc.entry, x.bm), lc.get(st, x.bm), qq))
        return [t]

    def others(self, x, a, b, qq):
        q = z3.Const('q!o', x.qs)
        return And([forall([q], Implies(q != qq, S(p, q) == S(r, q)), S(r, q)) for p, r in zip(leaves(a.val), leaves(b.val))])

    def modifies(self, x):
        return [x.bm]

    def post(self, x):
        t, o, j = z3.Ints('t!p o!p j!p')
        a, b = x.was(x.bm), x.now(x.bm)
        qq = enc(x.was(x.args[1]))
        order = x.args[2].t
        m = self.inner(b, qq)
        return [('exactly the terms of the tags get the order', forall([t, o], self.bit(b, qq, t, o) == Or(self.bit(a, qq, t, o), And(o == order, z3.Exists([j], And(j >= 0, j < x.tags.len, self.has(x, j, t))))))),
                ('other tiles are unchanged', self.others(x, a, b, qq)),
                ('the next order can be added', forall([t], Implies(S(m.has, t), And(S(m.val.f['size'].t, t) >= 0, S(m.val.f['size'].t, t) <= order + 1, S(m.val.f['app'].t, t))), S(m.has, t)))]


class Search(OnIndex):
    """Per visited tile with data: orders with all and-terms, one of the or-terms if there are any, none of the not-terms (nothing without and- and or-terms)."""
    name = BI + '::search'

    def world(self, x):
        super().world(x)
        I = x.I

        def notify(I, c):
            q, o = enc(c.rd(0)), c.rd(1).t
            cur = I.read(x.note).t
            I.check('each match is reported once', Not(S(S(cur, q), o)))
            I.check('to the given visitor', BoolVal(isinstance(c.arg(2), LV) and c.arg(2).same(x.args[1])))
            I.write(x.note, SV(z3.Store(cur, q, z3.Store(S(cur, q), o, True)), None))
            return VOID
        I.extra[BI + '::notify'] = notify
        I.extra['utymap::utils::GeoUtils::visitTileRange'] = lambda I, c: self.visit(x, I, c)

    def tile(self, x, bbox, q):
        I = x.I
        ls = [l.t if isinstance(l, SV) else l for l in leaves(bbox)]
        return I.uf('tile', *([l.sort() for l in ls] + [x.qs, B]))(*(ls + [q]))

    def lod(self, x, q):
        s = x.qs
        return s.accessor(0, x.lodi)(q)

    def inv(self, x, N, N0, D):
        q, o = z3.Const('q!v', x.qs), z3.Int('o!v')
        return forall([q, o], S(S(N, q), o) == If(D(q), self.want(x, q, o), S(S(N0, q), o)), S(S(N, q), o))

    def visit(self, x, I, c):
        bbox, lod, fn = c.rd(0), c.rd(1).t, c.arg(2)
        q0 = z3.Const('q!v', x.qs)
        all_ = lambda q: And(self.lod(x, q) == lod, self.tile(x, bbox, q))
        N0 = I.read(x.note).t
        fork = z3.Const(I.name('branch'), B)
        first = I.choose([fork, Not(fork)]) == 0
        N = z3.Const(I.name('note'), N0.sort())
        I.write(x.note, SV(N, None))
        if not first:
            I.assume(self.inv(x, N, N0, all_))
            return VOID
        D = z3.Const(I.name('done'), z3.ArraySort(x.qs, B))
        QT = I.class_named('utymap::QuadKey')
        qv = I.fresh(QT, 'tile')
        q = enc(qv)
        bv = I.refresh(bbox, 'tilebox')
        I.assume(And(forall([q0], Implies(S(D, q0), all_(q0)), S(D, q0)), self.inv(x, N, N0, lambda a: S(D, a)), Not(S(D, q)), all_(q)))
        old = set(I.st.roots)
        x.q = q
        log = set()
        I.wlog.append(log)
        try:
            I.invoke(fn, [I.new_root(qv), I.new_root(bv)], c.e)
        finally:
            I.wlog.remove(log)
        for m in log:
            if not (m[0] == 'root' and (m[1] not in old or m[1] == x.note.base)):
                I.check('the callback only reports (changes %s)' % (m,), BoolVal(False))
        I.check('exactly the matches of the tile are reported', self.inv(x, I.read(x.note).t, N0, lambda a: Or(S(D, a), a == q)))
        raise PathEnd()

    def setup(self, x):
        super().setup(x)
        I = x.I
        QT = I.class_named('utymap::QuadKey')
        fs = [f for f, ft, c, _ in I.rec_fields(QT)]
        x.lodi = fs.index('levelOfDetail')
        x.query = x.arg(0)

    def terms(self, x, nm):
        return x.query.f[nm].t

    def has(self, x, q, t, o):
        return self.bit(x.bm0, q, t, o)

    def want(self, x, q, o):
        I = x.I
        i, j, k = z3.Ints('i!w j!w k!w')
        a, r, n = [self.terms(x, k_) for k_ in ('andTerms', 'orTerms', 'notTerms')]
        A, O, N_ = ntok(I, a), ntok(I, r), ntok(I, n)
        return And(S(x.hd, q), Or(A > 0, O > 0),
                   Or(O == 0, z3.Exists([i], And(i >= 0, i < O, self.has(x, q, tok(I, r, i), o)))),
                   forall([j], Implies(And(j >= 0, j < A), self.has(x, q, tok(I, a, j), o)), S(toks(I, a), j)),
                   forall([k], Implies(And(k >= 0, k < N_), Not(self.has(x, q, tok(I, n, k), o))), S(toks(I, n), k)))

    def pre(self, x):
        r = x.query.f['range']
        q, t, o = z3.Const('q!p', x.qs), z3.Int('t!p'), z3.Int('o!p')
        b = S(S(x.bm0.val.val.f['set'].t, q), t)
        return [('levels', And(r.f['start'].t >= -2 ** 20, r.f['end'].t < 2 ** 20)),
                ('bits are orders', forall([q, t, o], Implies(S(b, o), And(o >= 0, o < 2 ** 32)), S(b, o)))]

    def invariants(self, x):
        I = x.I

        def t(lc):
            i, o, j = z3.Ints('i!t o!t j!t')
            rg = x.query.f['range']
            for n, p in lc.positions():
                yield ('tiles of levels before %s reported' % n, lambda st, p=p: self.inv(x, lc.get(st, x.note).t, lc.get(lc.entry, x.note).t, lambda q: And(self.lod(x, q) >= rg.f['start'].t, self.lod(x, q) < p(st), self.tile(x, x.query.f['boundingBox'], q))))
                e0, hi = p(lc.entry), rg.f['end'].t + 1
                yield ('%s within the levels' % n, lambda st, p=p, e0=e0, hi=hi: Or(p(st) <= hi, p(st) <= e0))
            if x.q is None:
                return
            q = x.q
            bits = lc.vars(lambda v: isinstance(v, StV) and v.cls == '$bits')
            bools = lc.vars(lambda v: isinstance(v, SV) and v.t.sort() == B)
            for n, p in lc.positions():
                cont = [lc.get(lc.entry, lc.get(lc.entry, lv).cont) for m, lv in lc.iters() if m == n and lc.modified(lv)]
                for nm in ('orTerms', 'andTerms', 'notTerms'):
                    s = self.terms(x, nm)
                    if cont and not any(isinstance(v, VecV) and I.valid(v.len == ntok(I, s)) for v in cont):
                        continue
                    any_ = lambda st, o, s=s, p=p: z3.Exists([i], And(i >= 0, i < p(st), self.has(x, q, tok(I, s, i), o)))
                    all_ = lambda st, o, s=s, p=p: forall([i], Implies(And(i >= 0, i < p(st)), self.has(x, q, tok(I, s, i), o)), S(toks(I, s), i))
                    lim = ntok(I, self.terms(x, 'orTerms')) > 0
                    for bn, lv in bits:
                        b0 = lc.get(lc.entry, lv).f['set'].t
                        b = lambda st, lv=lv: lc.get(st, lv).f['set'].t
                        yield ('%s: union with %s' % (bn, nm), lambda st, b=b, b0=b0, any_=any_: forall([o], S(b(st), o) == Or(S(b0, o), any_(st, o)), S(b(st), o)))
                        yield ('%s: without %s' % (bn, nm), lambda st, b=b, b0=b0, any_=any_: forall([o], S(b(st), o) == And(S(b0, o), Not(any_(st, o))), S(b(st), o)))
                        yield ('%s: intersection with %s' % (bn, nm), lambda st, b=b, b0=b0, all_=all_, p=p, lim=lim: And(Implies(Not(Or(lim, p(st) > 0)), forall([o], S(b(st), o) == S(b0, o), S(b(st), o))),
                                                                                                                          Implies(Or(lim, p(st) > 0), forall([o], S(b(st), o) == And(Or(Not(lim), S(b0, o)), all_(st, o)), S(b(st), o)))))
                for bn, lv in bools:
                    yield ('%s: or-terms or a term seen' % bn, lambda st, lv=lv, p=p: lc.get(st, lv).t == Or(ntok(I, self.terms(x, 'orTerms')) > 0, p(st) > 0))
                    yield ('%s: no or-terms, no term seen' % bn, lambda st, lv=lv, p=p: lc.get(st, lv).t == And(ntok(I, self.terms(x, 'orTerms')) == 0, p(st) <= 0))
            for m in list(I.st.maps):
                if m[0] == 'ewah':
                    lv, ix, s, nb = I.st.maps[m]
                    for n, p in lc.positions():
                        qo = z3.Const('q!t', x.qs)
                        yield ('bits before %s reported' % n, lambda st, p=p, ix=ix, s=s: forall([qo, o], S(S(lc.get(st, x.note).t, qo), o) == Or(S(S(lc.get(lc.entry, x.note).t, qo), o), And(qo == q, S(s, o), S(ix, o) < p(st))), S(S(lc.get(st, x.note).t, qo), o)))
        return [t]

    def modifies(self, x):
        return [x.note]

    def post(self, x):
        rg = x.query.f['range']
        N0 = z3.K(x.qs, z3.K(Z, BoolVal(False)))
        return [('exactly the matching elements of the tiles of the query are reported', self.inv(x, x.now(x.note).t, N0, lambda q: And(self.lod(x, q) >= rg.f['start'].t, self.lod(x, q) <= rg.f['end'].t, self.tile(x, x.query.f['boundingBox'], q))))]


CONTRACTS = [Tokenize(), Add(), Search()]
HARNESS = {'src': 'c07.cpp', 'repo': ['src/index/BitmapIndex.cpp', 'src/index/StringTable.cpp', 'lib/hashing/MurmurHash3.cpp']}

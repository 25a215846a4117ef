"""BitmapStream: a bitmap file holds one record per term (number of the term, bits); reading it restores the bitmap, ready to be extended."""
import streams, ewah
from streams import *
from vc.lib import enum_of
BST = 'utymap::index::BitmapStream'
BTU = '@core/src/index/BitmapStream.cpp'
TRUSTED = ['EWAHBoolArray::write followed by read restores the set of bits (not the ability to append)']
KEY, POS, BLOB, INV = [z3.Function(n, Z, Z) for n in ('KEY', 'POS', 'BLOB', 'INVKEY')]
BSZ = z3.Function('BSZ', Z, Z)
BID = z3.Function('BID', ewah.BS, Z)
SETOF = z3.Function('SETOF', Z, ewah.BS)


def records(s, n, key=KEY, blob=BLOB):
    """The stream consists of n records."""
    j = z3.Int('j!r')
    k, iv = s.f['kind'].t, s.f['iv'].t
    rng = And(j >= 0, j < n)
    return [('records', forall([j], Implies(rng, And(S(k, POS(j)) == 4, S(iv, POS(j)) == key(j), S(k, POS(j) + 4) == 300, S(iv, POS(j) + 4) == blob(j))), POS(j))),
            ('length', And(s.f['len'].t == POS(n)))]


def positions(n, blob):
    j, i = z3.Ints('j!r i!r')
    return [('positions', And(POS(0) == 0, n >= 0, forall([j], Implies(And(j >= 0, j < n), POS(j + 1) == POS(j) + 4 + BSZ(blob(j))), POS(j)))),
            ('positions grow', forall([j, i], Implies(And(j >= 0, i > j, i <= n), And(POS(j) + 4 + BSZ(blob(j)) <= POS(i), POS(j) >= 0)), [POS(j), POS(i)])),     # lemma Grow
            ('sizes', forall([j], BSZ(j) > 0, BSZ(j)))]


class Grow(Lemma):
    name = 'lemma: records of a bitmap file follow each other'
    tu = BTU

    def run(self, x):
        I = x.I
        j, i, n, w = z3.Ints('j i n w')
        I.assume(And(j >= 0, i > j, i < n, forall([w], BSZ(w) > 0, BSZ(w)), POS(j + 1) == POS(j) + 4 + BSZ(BLOB(j)), POS(i + 1) == POS(i) + 4 + BSZ(BLOB(i)), POS(0) == 0))
        I.check('start', POS(j) + 4 + BSZ(BLOB(j)) <= POS(j + 1))
        I.check('step', Implies(And(POS(j) + 4 + BSZ(BLOB(j)) <= POS(i)), POS(j) + 4 + BSZ(BLOB(j)) <= POS(i + 1)))
        I.check('positions are not negative', Implies(POS(i) >= 0, POS(i + 1) >= 0))


def bits_write(I, c):
    v = c.rdthis()
    b = BID(v.f['set'].t)
    I.fact(And(SETOF(b) == v.f['set'].t, BSZ(b) > 0))
    put(I, c.arg(0), 300, b, BSZ(b))
    return SV(BSZ(b), c.ret())


def bits_read(I, c):
    lv = c.arg(0)
    s = I.read(lv)
    g = s.f['g'].t
    I.check('a set of bits is read where one was written', And(s.f['ok'].t, S(s.f['kind'].t, g) == 300))
    b = S(s.f['iv'].t, g)
    n = I.const(Z, 'bits')
    o = z3.Int('o!b')
    I.fact(forall([o], Implies(S(SETOF(b), o), And(o >= 0, o < n)), S(SETOF(b), o)))
    I.fact(And(n >= 0, g + BSZ(b) <= s.f['len'].t))
    I.write(c.this, StV('$bits', {'set': SV(SETOF(b), None), 'size': SV(n, None), 'app': SV(BoolVal(False), None)}))
    setg(I, lv, z3.simplify(g + BSZ(b)))
    return SV(BSZ(b), c.ret())


class Base(Contract):
    tu = BTU

    def setup(self, x):
        I = x.I
        I.ewah_sorted = True
        ewah.install(I)
        streams.install(I)
        I.extra['EWAHBoolArray::write'] = bits_write
        I.extra['EWAHBoolArray::read'] = bits_read
        super().setup(x)


class WriteBitmap(Base):
    name = BST + '::write'

    def setup(self, x):
        super().setup(x)
        I = x.I
        x.m = x.now(x.args[1])
        x.keys, x.idx = enum_of(I, x.args[1], x.m)
        x.key = lambda j: S(x.keys, j)
        x.blob = lambda j: BID(S(x.m.val.f['set'].t, S(x.keys, j)))

    def pre(self, x):
        s = x.now(x.args[0])
        return [('an empty stream', And(wf(s), s.f['ok'].t, s.f['len'].t == 0, s.f['open'].t == -1)), ('size', x.m.size >= 0)] + positions(x.m.size, x.blob)

    def invariants(self, x):
        def t(lc):
            cur = lambda st: lc.get(st, x.args[0])
            for n, lv in lc.vars(lambda v: isinstance(v, ItV) and v.kind == 'map' and v.pos is not None):
                if not lc.modified(lv):
                    continue

                def p(st, lv=lv):
                    it = lc.get(st, lv)
                    return If(it.end, x.m.size, S(x.idx, it.pos)) if it.end is not None else S(x.idx, it.pos)
                yield ('iterator %s' % n, lambda st, p=p, lv=lv: And(p(st) >= 0, p(st) <= x.m.size, lc.get(st, lv).end == (p(st) == x.m.size), Implies(p(st) < x.m.size, S(x.keys, p(st)) == lc.get(st, lv).pos)))
                yield ('records before %s' % n, lambda st, p=p: And([c for _, c in records(cur(st), p(st), x.key, x.blob)]))
                yield ('at the end', lambda st: And(wf(cur(st)), cur(st).f['p'].t == cur(st).f['len'].t, cur(st).f['ok'].t, cur(st).f['open'].t == -1))
        return [frame_template, t]

    def modifies(self, x):
        return [x.args[0]]

    def post(self, x):
        s = x.now(x.args[0])
        return [('one record per term: ' + a, b) for a, b in records(s, x.m.size, x.key, x.blob)] + [('stream', And(wf(s), s.f['ok'].t))]


class ReadBitmap(Base):
    """Every record becomes an entry; its bits can be extended."""
    name = BST + '::read'

    def pre(self, x):
        s, m = x.now(x.args[0]), x.now(x.args[1])
        n = x.n = z3.Int('n')
        j, k = z3.Int('j!r'), z3.Int('k!r')
        return [('stream', And(wf(s))), ('empty bitmap', And(m.size == 0, forall([k], Not(S(m.has, k)), S(m.has, k)))),
                ('numbers of terms differ', forall([j], Implies(And(j >= 0, j < n), And(INV(KEY(j)) == j, KEY(j) >= 0, KEY(j) < 2 ** 32)), KEY(j)))] + positions(n, BLOB) + records(s, n)

    def entries(self, x, m, n):
        k = z3.Int('k!e')
        o = z3.Int('o!e')
        j = INV(k)
        return [('which terms', And(m.size == n, forall([k], S(m.has, k) == And(j >= 0, j < n, KEY(j) == k), S(m.has, k)))),
                ('their bits', forall([k, o], Implies(S(m.has, k), S(S(m.val.f['set'].t, k), o) == S(SETOF(BLOB(j)), o)), S(S(m.val.f['set'].t, k), o))),
                ('to be extended', forall([k], Implies(S(m.has, k), S(m.val.f['app'].t, k)), S(m.val.f['app'].t, k)))]

    def invariants(self, x):
        def t(lc):
            I = lc.I
            cur = lambda st: lc.get(st, x.args[0])
            m = lambda st: lc.get(st, x.args[1])
            yield ('records read', lambda st: And(m(st).size >= 0, m(st).size <= x.n))
            for e in range(3):
                yield ('entries %d' % e, lambda st, e=e: self.entries(x, m(st), m(st).size)[e][1])
            yield ('position', lambda st: If(cur(st).f['ok'].t, cur(st).f['g'].t == POS(m(st).size), m(st).size == 0))
            yield ('content', lambda st: And([cur(st).f[k].t == lc.get(lc.entry, x.args[0]).f[k].t for k in ('kind', 'iv', 'len')] + [wf(cur(st))]))
            yield ('readable', lambda st: cur(st).f['ok'].t == lc.get(lc.entry, x.args[0]).f['ok'].t)
            o = z3.Int('o!t')
            for key in list(I.st.maps):
                if key[0] == 'ewah':
                    lv, ix, s, nb = I.st.maps[key]
                    for n, p in lc.positions():
                        for bn, b in lc.vars(lambda v: isinstance(v, StV) and v.cls == '$bits'):
                            if lc.modified(b):
                                yield ('%s holds the bits before %s' % (bn, n), lambda st, p=p, b=b, ix=ix, s=s: And(lc.get(st, b).f['app'].t, forall([o], S(lc.get(st, b).f['set'].t, o) == And(S(s, o), S(ix, o) < p(st)), S(lc.get(st, b).f['set'].t, o))))
                                yield ('%s ends before bit %s' % (bn, n), lambda st, p=p, b=b, lv=lv: Implies(p(st) < lc.get(st, lv).len, lc.get(st, b).f['size'].t <= S(lc.get(st, lv).el.t, p(st))))
        return [frame_template, t]

    def modifies(self, x):
        return [x.args[0], x.args[1]]

    def post(self, x):
        ok = x.was(x.args[0]).f['ok'].t
        return [('every record is restored, nothing else: ' + a, Implies(ok, b)) for a, b in self.entries(x, x.now(x.args[1]), x.n)] + [
                ('a file which cannot be opened has no entries', Implies(Not(ok), x.now(x.args[1]).size == 0))]


CONTRACTS = [Grow(), WriteBitmap(), ReadBitmap()]
CFG = {'strs': 'opaque', 'ftimeout': 100, 'htimeout': 500, 'portfolio': True, 'qfcand': 60}

import streams
from streams import *
CLS = 'utymap::index::StringTable::StringTableImpl'
TRUSTED = streams.TRUSTED + ['MurmurHash3_x86_32 is a function of the bytes and the seed', 'LruCache<uint32_t,string> behaves as proved in C04 (abstract map; put keeps the new key)']
ASSUMPTIONS = ['strings contain no NUL character and the data file stays below 4 GiB (offsets are 32 bit)',
               'the string behind a returned shared_ptr is not modified by the caller', 'files are changed by the table only and writes succeed',
               'the mutex serialises calls: each call is verified to take it before touching the files, then verified sequentially']
CFG = {'strs': 'opaque', 'ftimeout': 200, 'htimeout': 700}
TU = '@core/src/index/StringTable.cpp'
U32 = {'k': 'int', 'w': 32, 'sg': False, 's': 'unsigned int', 'i': -5}


def HASH(I):
    return I.uf('murmur', I.Str, INT, INT)


class Tab:
    """Abstract view: the sequence A(0..n) of distinct strings."""

    def __init__(self, x, v):
        I = x.I
        self.I, self.v = I, v
        self.idx, self.dat = v.f['indexFile_'], v.f['dataFile_']
        self.n, self.seed = v.f['nextId_'].t, v.f['seed_'].t
        self.map, self.offs, self.cache = v.f['map_'], v.f['offsets_'], v.f['cache_']
        self.off = lambda i: S(self.offs.el.t, i)
        self.A = lambda i: S(self.dat.f['sv'].t, self.off(i))
        self.H = lambda s: HASH(I)(s, self.seed)
        self.mlen = lambda h: S(self.map.val.len, h)
        self.mel = lambda h, k: S(S(self.map.val.el.t, h), k)


def disk_inv(I, idx, dat, n, off, A, H):
    """On-disk representation."""
    i, j = z3.Ints('i!t j!t')
    ki, iv = idx.f['kind'].t, idx.f['iv'].t
    kd = dat.f['kind'].t
    rng = lambda i: And(i >= 0, i < n)
    return [('files well formed', And(wf(idx), wf(dat))),
            ('index file has one entry of 8 bytes per string', And(n >= 0, idx.f['len'].t == 8 * n)),
            ('index entries hold hash and offset', forall([i], Implies(rng(i), And(S(ki, 8 * i) == 4, S(ki, 8 * i + 4) == 4,
                                                                              S(iv, 8 * i) == H(A(i)), S(iv, 8 * i + 4) == off(i))), off(i))),
            ('every offset is the start of a stored string', forall([i], Implies(rng(i), And(off(i) >= 0, off(i) < dat.f['len'].t, S(kd, off(i)) == 201)), off(i))),
            ('strings are pairwise different', forall([i, j], Implies(And(rng(i), rng(j), i != j), A(i) != A(j)), [off(i), off(j)]))]


def map_inv(t, n, pos):
    i, h, k = z3.Ints('i!t h!t k!t')
    return [('every id is listed under its hash', forall([i], Implies(And(i >= 0, i < n), And(
                S(t.map.has, t.H(t.A(i))), pos(i) >= 0, pos(i) < t.mlen(t.H(t.A(i))), t.mel(t.H(t.A(i)), pos(i)) == i)), t.off(i))),
            ('hash lists only hold ids with that hash', forall([h, k], Implies(And(S(t.map.has, h), k >= 0, k < t.mlen(h)), And(
                t.mel(h, k) >= 0, t.mel(h, k) < n, t.H(t.A(t.mel(h, k))) == h)), t.mel(h, k))),
            ('lists have lengths', forall([h], Implies(S(t.map.has, h), t.mlen(h) >= 0), t.mlen(h)))]


def mem_inv(t, pos):
    k = z3.Int('k!t')
    return [('one offset per id', t.offs.len == t.n)] + map_inv(t, t.n, pos) + [
        ('the cache only holds strings of their ids', forall([k], Implies(S(t.cache.f['has'].t, k), And(k >= 0, k < t.n, S(t.cache.f['val'].t, k) == t.A(k))), S(t.cache.f['has'].t, k)))]


def inv(t, pos):
    return disk_inv(t.I, t.idx, t.dat, t.n, t.off, t.A, t.H) + mem_inv(t, pos) + [
        ('files are open for appending', And(t.idx.f['ok'].t, t.dat.f['ok'].t, t.idx.f['app'].t, t.dat.f['app'].t, t.idx.f['joint'].t, t.dat.f['joint'].t))]


def install_cache(I):
    I.opaque_types['utymap::utils::LruCache'] = lambda I, T, nm, lift: StV('$lru', {
        'has': SV(z3.Const(nm + '.has', lift_sort(z3.ArraySort(Z, B), lift)), None), 'val': SV(z3.Const(nm + '.val', lift_sort(z3.ArraySort(Z, I.Str), lift)), None)})

    def ctor(I, c):
        v = I.fresh(c.T, 'lru')
        return StV('$lru', {'has': SV(z3.K(Z, BoolVal(False)), None), 'val': v.f['val']})
    q = 'utymap::utils::LruCache'

    def lookup(I, c, ret=True):
        v = I.read(c.this)
        k = c.rd(0).t
        if I.choose([S(v.f['has'].t, k), Not(S(v.f['has'].t, k))]) == 1:
            raise CxxThrow('std::range_error')
        if not ret:
            return VOID
        return I.alloc(I.targ(c.ret(), 0), SV(S(v.f['val'].t, k), {'k': 'str'}))

    def put_(I, c):
        v = I.read(c.this)
        k, s = c.rd(0).t, c.rd(1).t
        has = I.const(z3.ArraySort(Z, B), 'has')
        j = z3.Int('j!c')
        I.assume(forall([j], Implies(S(has, j), Or(j == k, S(v.f['has'].t, j))), S(has, j)))
        I.assume(S(has, k))
        I.write(c.this, StV('$lru', {'has': SV(has, None), 'val': SV(z3.Store(v.f['val'].t, k, s), None)}))
        return VOID
    I.extra.update({'ctor ' + q: ctor, q + '::exists': lambda I, c: SV(S(I.read(c.this).f['has'].t, c.rd(0).t), c.ret()),
                    q + '::get': lookup, q + '::peek': lookup, q + '::promote': lambda I, c: lookup(I, c, False), q + '::put': put_})


def murmur(I, c):
    s, n, seed = c.rd(0), c.rd(1).t, c.rd(2).t
    if not (isinstance(s, SV) and s.t.sort() == I.Str):
        raise Unsupported('hash of something else than a string')
    I.check('the whole string is hashed', n == strlen(I, s.t))
    r = HASH(I)(s.t, seed)
    I.fact(And(r >= 0, r < 2 ** 32))
    lv = data_lv(I, c.rd(3), U32)
    I.write(lv, SV(r, U32))
    return VOID


def clear(I, c):
    I.write(c.this, I.strlit(b''))
    return VOID


def push_back(I, c):
    """Library push_back plus the ghost position of an id in its hash list."""
    from vc.lib import push
    p = c.this.path
    if p and p[-1][0] == 'k' and '$pos' in I.st.ghost:
        I.gset('$pos', SV(z3.Store(I.gget('$pos').t, c.rd(0).t, I.read(c.this).len), None))
    push(I, c.this, c.rd(0))
    return VOID


def INSTALL(I):
    streams.install(I)
    install_cache(I)
    I.extra['MurmurHash3_x86_32'] = murmur
    I.extra['std::basic_string::clear'] = clear
    I.extra['std::vector::push_back'] = push_back


def locked(I, lv):
    if '$lock' in I.st.ghost:
        I.check('the files are only accessed while holding the mutex', I.gget('$lock').t)


class Op(Contract):
    def ghost(self, x):
        x.I.st.ghost['$pos'] = SV(z3.Const('pos0', z3.ArraySort(Z, Z)), None)
        x.I.st.ghost['$lock'] = SV(BoolVal(False), None)
        x.I.stream_access = locked

    def pre(self, x):
        t = Tab(x, x.now(x.this))
        return inv(t, lambda i: S(x.g('$pos').t, i)) + [('offsets fit 32 bits', And(t.dat.f['len'].t < 2 ** 32 - 2 ** 20, t.n < 2 ** 32 - 2)),
                                                        ('strings fit the file', forall([z3.Const('s!l', x.I.Str)], x.I.uf('strlen', x.I.Str, INT)(z3.Const('s!l', x.I.Str)) < 2 ** 20)),
                                                        ('hash values are 32 bit', self.hashes(x))]

    def hashes(self, x):
        s, k = z3.Const('s!h', x.I.Str), z3.Int('k!h')
        h = HASH(x.I)(s, k)
        L = x.I.uf('strlen', x.I.Str, INT)(s)
        return And(forall([s, k], And(h >= 0, h < 2 ** 32), h), forall([s], L >= 0, L))

    def modifies(self, x):
        return [x.this]

    def invariants(self, x):
        def scanned(lc):
            I = lc.I
            for n, lv in lc.iters():
                if not lc.modified(lv):
                    continue
                it = lc.get(lc.entry, lv)

                def c(st, lv=lv):
                    it = lc.get(st, lv)
                    v = lc.get(st, it.cont)
                    t = Tab(x, lc.get(st, x.this))
                    k = z3.Int('k!s')
                    return forall([k], Implies(And(k >= 0, k < it.pos), t.A(S(v.el.t, k)) != x.arg(0).t), S(v.el.t, k))
                yield ('ids before the iterator have other strings', c)
        return [frame_template, scanned]

    def keep(self, x):
        o, n = Tab(x, x.was(x.this)), Tab(x, x.now(x.this))
        i = z3.Int('i!k')
        return ('existing ids keep their strings', And(n.n >= o.n, n.seed == o.seed, forall([i], Implies(And(i >= 0, i < o.n), And(n.A(i) == o.A(i), n.off(i) == o.off(i))), n.off(i))))


class GetId(Op):
    name = CLS + '::getId'

    def post(self, x):
        o, n = Tab(x, x.was(x.this)), Tab(x, x.now(x.this))
        s, r = x.arg(0).t, x.ret.t
        i = z3.Int('i!p')
        old = lambda i: And(i >= 0, i < o.n, o.A(i) == s)
        return [('invariant: ' + a, b) for a, b in inv(n, lambda i: S(x.g('$pos').t, i))] + [
            self.keep(x),
            ('the returned id designates the string', And(r >= 0, r < n.n, n.A(r) == s)),
            ('a known string keeps its id, a new one gets the next id',
             Or(And(n.n == o.n, old(r)), And(n.n == o.n + 1, r == o.n, forall([i], Not(old(i)), o.off(i)))))]


class GetString(Op):
    name = CLS + '::getString'

    def post(self, x):
        I = x.I
        o, n = Tab(x, x.was(x.this)), Tab(x, x.now(x.this))
        k = x.arg(0).t
        T = I.targ(I.T(x.f['ret']), 0)
        got = I.read(I.deref(x.ret, T), T).t
        return [('invariant: ' + a, b) for a, b in inv(n, lambda i: S(x.g('$pos').t, i))] + [
            self.keep(x), ('no id is allocated', n.n == o.n),
            ('returns the string of the id', Implies(And(k >= 0, k < o.n), got == o.A(k))),
            ('an unknown id has the empty string', Implies(k >= o.n, got == I.strlit(b'').t))]


class Open(Contract):
    """Opening the files of a table restores exactly the table."""
    name = CLS + '::StringTableImpl'
    instance = staticmethod(lambda f, I: len(f['params']) == 3)

    def setup(self, x):
        super().setup(x)
        I = x.I
        self.idx, self.dat = mk(I, None, 'disk.idx'), mk(I, None, 'disk.dat')
        self.n = z3.Int('disk.n')
        paths = [x.arg(0).t, x.arg(1).t]
        I.assume(paths[0] != paths[1])

        def ctor(I, c):
            p, mode = c.rd(0).t, z3.simplify(c.rd(1).t)
            if not z3.is_int_value(mode):
                raise Unsupported('open mode')
            m = mode.as_long()
            k = [i for i, q in enumerate(paths) if q.eq(p)]
            if not k:
                raise Unsupported('opened path')
            I.check('the file is opened for reading and writing in binary mode without truncating it', BoolVal(m & 28 == 28 and not m & 32))
            s = (self.idx, self.dat)[k[0]]
            end = s.f['len'].t if m & 2 else IntVal(0)
            return upd(s, g=end, p=end, ok=BoolVal(True), app=BoolVal(bool(m & 1)), joint=BoolVal(True), open=IntVal(-1))
        I.extra['ctor std::basic_fstream'] = ctor

    def ghost(self, x):
        x.I.st.ghost['$pos'] = SV(z3.Const('pos0', z3.ArraySort(Z, Z)), None)

    def AH(self, x):
        """Offsets and strings as recorded on disk."""
        off = lambda i: S(self.idx.f['iv'].t, 8 * i + 4)
        A = lambda i: S(self.dat.f['sv'].t, off(i))
        H = lambda s: HASH(x.I)(s, x.arg(2).t)
        return off, A, H

    def pre(self, x):
        off, A, H = self.AH(x)
        return disk_inv(x.I, self.idx, self.dat, self.n, off, A, H) + [('32 bit', And(self.n < 2 ** 32 - 4096, self.dat.f['len'].t < 2 ** 32)), ('hash values are 32 bit', Op.hashes(self, x))]

    def invariants(self, x):
        off, A, H = self.AH(x)

        def t(lc):
            I = lc.I
            this = I.frames[-1].this
            tab = lambda st: Tab(x, lc.get(st, this))
            for n, p in lc.positions():
                i = z3.Int('i!l')
                yield ('offsets read so far', lambda st, p=p: And(tab(st).offs.len == p(st), forall([i], Implies(And(i >= 0, i < p(st)), tab(st).off(i) == off(i)), tab(st).off(i))))
                yield ('index position', lambda st, p=p: And(tab(st).idx.f['g'].t == 8 * p(st), tab(st).idx.f['p'].t == 8 * p(st)))
                for k in range(3):
                    yield ('hash lists %d' % k, lambda st, p=p, k=k: map_inv(self.view(tab(st), off, A, H), p(st), lambda i: S(st.ghost['$pos'].t, i))[k][1])
        return [frame_template, t]

    def view(self, t, off, A, H):
        t.off, t.A, t.H = off, A, H
        return t

    def post(self, x):
        t = Tab(x, x.ret)
        off, A, H = self.AH(x)
        i = z3.Int('i!p')
        return [('number of strings restored', t.n == self.n), ('seed', t.seed == x.arg(2).t),
                ('every id keeps its string', forall([i], Implies(And(i >= 0, i < self.n), And(t.off(i) == off(i), t.A(i) == A(i))), t.off(i)))] + [
            ('invariant: ' + a, b) for a, b in inv(t, lambda i: S(x.g('$pos').t, i))]


CONTRACTS = [GetId(), GetString(), Open()]
HARNESS = {'src': 'c05.cpp', 'repo': ['src/index/StringTable.cpp', 'lib/hashing/MurmurHash3.cpp']}

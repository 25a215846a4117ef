from nodelist import *
import nodelist
TRUSTED = nodelist.TRUSTED + ['the key comparator is a strict total order whose equivalence is equality (std::less<int>; proved for quadkeys in C01)']
ASSUMPTIONS = ['verified for the instance LruCache<int, Payload>; the template text is the same for the other instances',
               'allocation does not fail; the cache object is not used after move']
S = z3.Select
CLS = 'utymap::utils::LruCache'


class View:
    """Abstract view of a cache value: a map with a recency order (smaller = more recent)."""

    def __init__(self, x, v):
        self.m, self.l, self.max = v.f['itemsMap_'], v.f['itemsList_'], v.f['maxSize_'].t
        self.has = lambda k: S(self.m.has, k)
        self.node = lambda k: S(self.m.val.t, k)
        self.rank = lambda k: S(self.l.f['ord'].t, self.node(k))
        el = self.l.f['nodes'].el
        self.key = lambda n: S(el.f['first'].t, n)
        self.vptr = lambda n: S(el.f['second'].t, n)
        self.value = lambda k: self.vptr(self.node(k))
        self.size = self.m.size

    def inv(self):
        k, n = z3.Ints('k!v n!v')
        i = self.l.f['in'].t
        return [('list well formed', wf(self.l)),
                ('every key has its own list node', forall([k], Implies(self.has(k), And(S(i, self.node(k)), self.key(self.node(k)) == k)), self.has(k))),
                ('every list node is the node of its key', forall([n], Implies(S(i, n), And(self.has(self.key(n)), self.node(self.key(n)) == n)), S(i, n))),
                ('map and list have the same size', self.m.size == self.l.f['size'].t),
                ('the cache never exceeds its capacity', self.m.size <= self.max)]


class LruOp(Contract):
    def ghost(self, x):
        nodelist.install(x.I, lambda I: x.this + ('f', 'itemsList_'))

    def setup(self, x):
        nodelist.install(x.I, lambda I: x.this + ('f', 'itemsList_'))
        super().setup(x)

    def pre(self, x):
        x.I.assume(x.field('itemsMap_').size >= 0)
        x.I.assume(x.field('maxSize_').t >= 0)
        return View(x, x.now(x.this)).inv()

    def inv_post(self, x):
        return [('invariant: ' + n, p) for n, p in View(x, x.now(x.this)).inv()]

    def modifies(self, x):
        return [x.fieldlv('itemsList_'), x.fieldlv('itemsMap_')]

    def same(self, x, o, n):
        """Same keys and values."""
        k = z3.Int('k!s')
        return And(forall([k], n.has(k) == o.has(k)), forall([k], Implies(o.has(k), n.value(k) == o.value(k)), o.has(k)), n.size == o.size, n.max == o.max)


class Put(LruOp):
    name = CLS + '::put'

    def post(self, x):
        I = x.I
        o, n = View(x, x.was(x.this)), View(x, x.now(x.this))
        key = x.arg(0).t
        k, j = z3.Ints('k!p j!p')
        isnew = lambda k: Or(k == key, o.has(k))
        over = o.size + If(o.has(key), IntVal(0), IntVal(1)) > o.max
        older = lambda j, k: Or(j == k, j == key, And(k != key, o.rank(j) <= o.rank(k)))   # k is at least as old as j
        # the victim is the least recently used key
        vic = lambda k: And(over, isnew(k), forall([j], Implies(isnew(j), older(j, k)), o.has(j)))
        PT = I.class_named('verif::Payload')
        want = x.arg(1)
        got = I.read(LV('heap', n.value(key)), PT)
        return self.inv_post(x) + [
            ('keys are the old keys and the new key without the least recently used one when the capacity is exceeded',
             forall([k], n.has(k) == And(isnew(k), Not(vic(k))))),
            ('other keys keep their values', forall([k], Implies(And(n.has(k), k != key), n.value(k) == o.value(k)), n.has(k))),
            ('the new value is stored', Implies(n.has(key), got.f['v'].t == want.f['v'].t)),
            ('the new key is the most recent', forall([k], Implies(And(n.has(key), n.has(k), k != key), n.rank(key) < n.rank(k)), n.has(k))),
            ('relative recency of the other keys is unchanged',
             forall([k, j], Implies(And(n.has(k), n.has(j), k != key, j != key), (n.rank(k) < n.rank(j)) == (o.rank(k) < o.rank(j))), [n.has(k), n.has(j)])),
            ('size', n.size == o.size + If(o.has(key), IntVal(0), IntVal(1)) - If(over, IntVal(1), IntVal(0)))]


class Promoting(LruOp):
    def throws(self, x):
        return Not(View(x, x.was(x.this)).has(x.arg(0).t))

    def on_throw(self, x, t):
        o, n = View(x, x.was(x.this)), View(x, x.now(x.this))
        k, j = z3.Ints('k!p j!p')
        return [('nothing changes', And(self.same(x, o, n), forall([k], Implies(o.has(k), n.rank(k) == o.rank(k)), o.has(k))))]

    def post(self, x):
        o, n = View(x, x.was(x.this)), View(x, x.now(x.this))
        key = x.arg(0).t
        k, j = z3.Ints('k!p j!p')
        r = self.inv_post(x) + [('same keys and values', self.same(x, o, n)),
                                ('the key becomes the most recent', forall([k], Implies(And(n.has(k), k != key), n.rank(key) < n.rank(k)), n.has(k))),
                                ('relative recency of the other keys is unchanged',
                                 forall([k, j], Implies(And(n.has(k), n.has(j), k != key, j != key), (n.rank(k) < n.rank(j)) == (o.rank(k) < o.rank(j))), [n.has(k), n.has(j)]))]
        if self.value:
            r.append(('returns the stored value', x.ret.t == o.value(key)))
        return r
    value = True


class Get(Promoting):
    name = CLS + '::get'


class Promote(Promoting):
    name = CLS + '::promote'
    value = False


class Peek(LruOp):
    name = CLS + '::peek'

    def modifies(self, x):
        return []

    def throws(self, x):
        return Not(View(x, x.was(x.this)).has(x.arg(0).t))

    def post(self, x):
        return [('returns the stored value without promoting', x.ret.t == View(x, x.was(x.this)).value(x.arg(0).t))]


class Exists(LruOp):
    name = CLS + '::exists'

    def modifies(self, x):
        return []

    def post(self, x):
        return [('tells whether the key is cached', x.ret.t == View(x, x.was(x.this)).has(x.arg(0).t))]


class Size(LruOp):
    name = CLS + '::size'

    def modifies(self, x):
        return []

    def post(self, x):
        return [('number of keys', x.ret.t == View(x, x.was(x.this)).size)]


class Clear(LruOp):
    name = CLS + '::clear'

    def post(self, x):
        n = View(x, x.now(x.this))
        k = z3.Int('k!p')
        return self.inv_post(x) + [('empty', And(n.size == 0, forall([k], Not(n.has(k)))))]


class Make(LruOp):
    name = CLS + '::LruCache'

    def ghost(self, x):
        nodelist.install(x.I, lambda I: None)

    def pre(self, x):
        return []

    def modifies(self, x):
        return []

    def post(self, x):
        n = View(x, x.now(x.this))
        k = z3.Int('k!p')
        return self.inv_post(x) + [('empty, with the given capacity', And(n.size == 0, n.max == x.arg(0).t, forall([k], Not(n.has(k)))))]


CONTRACTS = [Put(), Get(), Promote(), Peek(), Exists(), Size(), Clear(), Make()]
for _c in CONTRACTS:
    _c.rely = []
    _c.instance = staticmethod(lambda f, I: 'Payload' in f['n'] or 'Payload' in str(I.T(f['cls']).get('s')))
CONTRACTS[-1].instance = staticmethod(lambda f, I: 'Payload' in str(I.T(f['cls']).get('s')) and len(f['ps']) == 1 and I.T(f['ps'][0])['k'] == 'int')
TU = 'lru.cpp'
HARNESS = {'src': 'c04.cpp', 'repo': []}

"""Styles: an element gets exactly the declarations of the rules which match it, in the order of the sheet."""
from stores import *
from vc.contract import Lemma
from vc.lib import enum_of
from vc.core import lift_sort
AN = '(anonymous namespace)::'
SB = AN + 'StyleBuilder'
MC = 'utymap::mapcss::'
STY = MC + 'Style'
SP = MC + 'StyleProvider'
IMPL = SP + '::StyleProviderImpl'
TU = '@core/src/mapcss/StyleProvider.cpp'
CFG = {'strs': 'opaque', 'ftimeout': 100, 'htimeout': 500, 'portfolio': True, 'qfcand': 60, 'sameauto': True, 'fastw': True, 'isolate': True}
TRUSTED = ['string table: equal ids exactly for equal strings (C05)', 'parseDouble is a function of the string',
           'std::vector, std::unordered_map, std::set, std::sort and std::shared_ptr as modelled by the engine', 'gradients, textures, lsystems and the hash tag play no part in matching']
ASSUMPTIONS = ['tags of elements are sorted by key and keys are distinct (importers sort them)', 'parsing of sheets (boost::spirit) is not part of this property']


def optype(I):
    for t in I.m.types:
        if t['k'] == 'enum' and t['n'].endswith('::OpType'):
            return {v['n']: v['v'] for v in t['vals']}
    raise Unsupported('OpType not found')


class World:
    """Terms shared by the contracts: HT(key, value, type): the tags of the element satisfy the condition."""

    def __init__(self, I):
        self.HT = z3.Function('HT', Z, Z, Z, B)
        self.STR = z3.Function('STR', Z, I.Str)
        self.ID = z3.Function('ID', I.Str, Z)
        self.PD = z3.Function('PD', I.Str, I.dsort())
        self.op = optype(I)


def install(I):
    I.opaque_types = dict(getattr(I, 'opaque_types', {}))
    w = I.world = World(I)
    strT = None

    def get_string(I, c):
        return PyV(I.new_root(SV(w.STR(c.rd(0).t), None)))
    I.extra['utymap::index::StringTable::getString'] = get_string
    I.extra['utymap::utils::parseDouble'] = lambda I, c: SV(w.PD(c.rd(0).t), c.ret())

    def get_id(I, c):
        t = w.ID(c.rd(0).t)
        I.fact(And(t >= 0, t < 2 ** 32))
        return SV(t, c.ret())
    I.extra['utymap::index::StringTable::getId'] = get_id


INSTALL = install


def ok(I, tagvalue, value, typ):
    """The value of a tag with the key of the condition satisfies it."""
    w = I.world
    num = lambda v: w.PD(w.STR(v))
    f = BoolVal(False)
    for n, e in (('Exists', BoolVal(True)), ('Equals', tagvalue == value), ('NotEquals', tagvalue != value), ('Less', num(tagvalue) < num(value)), ('Greater', num(tagvalue) > num(value))):
        f = If(typ == w.op[n], e, f)
    return f


class MatchTags(Contract):
    """Binary search: true exactly if there is a tag with the key of the condition whose value satisfies it."""
    name = SB + '::matchTags'

    def setup(self, x):
        super().setup(x)
        I = x.I
        T = I.class_named(EL)
        ft, _ = I.field_decl(T, 'tags')
        x.tags = I.new_root(I.fresh(ft, 'tags'))
        v = I.read(x.tags)
        x.args[0], x.args[1] = ItV('vec', x.tags, IntVal(0)), ItV('vec', x.tags, v.len)
        x.key = lambda st, i: S(x.at(st, x.tags).el.f['key'].t, i)

    def pre(self, x):
        i, j = z3.Ints('i!p j!p')
        v = x.now(x.tags)
        k = v.el.f['key'].t
        c = x.now(x.args[2])
        return [('tags sorted by distinct keys', forall([i, j], Implies(And(0 <= i, i < j, j < v.len), S(k, i) < S(k, j)), [S(k, i), S(k, j)])),
                ('type', Or([c.f['type'].t == o for o in x.I.world.op.values()]))]

    def invariants(self, x):
        def t(lc):
            i = z3.Int('i!p')
            its = [(n, lv) for n, lv in lc.iters() if lc.modified(lv)]
            c = x.now(x.args[2]).f['key'].t
            v = x.now(x.tags)
            k = v.el.f['key'].t
            for n, lv in its:
                p = lambda st, lv=lv: lc.get(st, lv).pos
                yield ('keys before %s are smaller' % n, lambda st, p=p: forall([i], Implies(And(0 <= i, i < p(st)), S(k, i) < c), S(k, i)))
                yield ('keys from %s on are greater' % n, lambda st, p=p: forall([i], Implies(And(p(st) <= i, i < v.len), S(k, i) > c), S(k, i)))
        return [t]

    def post(self, x):
        i = z3.Int('i!p')
        v, c = x.now(x.tags), x.was(x.args[2])
        tag = lambda i: And(0 <= i, i < v.len, S(v.el.f['key'].t, i) == c.f['key'].t, ok(x.I, S(v.el.f['value'].t, i), c.f['value'].t, c.f['type'].t))
        return [('true exactly if a tag satisfies the condition', x.ret.t == z3.Exists([i], tag(i)))]

    def apply(self, I, c):
        b, e, cond = c.rd(0), c.rd(1), c.rd(2)
        I.check('the tags of the element are searched', And(b.pos == 0, e.pos == I.read(b.cont).len, BoolVal(b.cont.same(I.world.tags))))
        return SV(I.world.HT(cond.f['key'].t, cond.f['value'].t, cond.f['type'].t), c.ret())


class Log:
    """What was put into the style, in order."""

    def __init__(self, I):
        self.n, self.a = I.new_root(SV(IntVal(0), None)), I.new_root(SV(z3.K(Z, IntVal(0)), None))


class Rules:
    """A list of filters (or, without conditions, one list): what is put for the first p of them."""

    def __init__(self, x, L, always=False):
        self.L, self.always = L, always
        self.MF, self.OFF = z3.Function('MF', Z, B), z3.Function('OFF', Z, Z)
        self.w = x.I.world
        f = z3.Int('f!r')
        x.I.assume(self.OFF(0) == 0)
        x.I.assume(forall([f], self.step(f), self.MF(f)))

    def nd(self, f):
        return S(self.L.el.f['declarations'].len, f)

    def decl(self, f, d):
        return S(S(self.L.el.f['declarations'].el.t, f), d)

    def holds(self, f, q=None):
        if self.always:
            return BoolVal(True)
        j = z3.Int('j!r')
        c = self.L.el.f['conditions']
        g = {n: S(S(v.t, f), j) for n, v in c.el.f.items()}
        return forall([j], Implies(And(0 <= j, j < (S(c.len, f) if q is None else q)), self.w.HT(g['key'], g['value'], g['type'])), g['key'])

    def step(self, f):
        return And(self.MF(f) == self.holds(f), self.OFF(f + 1) == self.OFF(f) + If(self.MF(f), self.nd(f), 0), self.nd(f) >= 0)

    def entries(self, a, p):
        f, d = z3.Ints('f!r d!r')
        return forall([f, d], Implies(And(0 <= f, f < p, self.MF(f), 0 <= d, d < self.nd(f)), S(a, self.OFF(f) + d) == self.decl(f, d)), [self.MF(f), self.decl(f, d)])

    def below(self, p):
        f = z3.Int('f!r')
        return forall([f], Implies(And(0 <= f, f < p, self.MF(f)), self.OFF(f) + self.nd(f) <= self.OFF(p)), self.MF(f))

    def some(self, p):
        f = z3.Int('f!r')
        return z3.Exists([f], And(0 <= f, f < p, self.MF(f)))


def put_model(x, log, target):
    I = x.I

    def put(I, c):
        I.check('declarations are put into the style', BoolVal(target(c.this)))
        d = c.arg(0)
        if not is_heap(d):
            raise Unsupported('declaration which is not shared')
        n = I.read(log.n).t
        I.write(log.a, SV(z3.Store(I.read(log.a).t, n, d.base), None))
        I.write(log.n, SV(n + 1, None))
        return VOID
    I.extra[STY + '::put'] = put


def rule_invariants(x, R, log, canc=None, only=None):
    only = BoolVal(False) if only is None else only

    def t(lc):
        n = lambda st: lc.get(st, log.n).t
        a = lambda st: lc.get(st, log.a).t
        d = z3.Int('d!r')
        outer, conds, decls = [], [], []
        for nm, lv in lc.iters():
            try:
                v = lc.get(lc.entry, lc.get(lc.entry, lv).cont)
            except Exception:
                continue
            el = v.el
            if isinstance(el, StV) and 'declarations' in el.f:
                outer.append((nm, lv))
            elif isinstance(el, StV) and 'type' in el.f:
                conds.append((nm, lv))
            elif isinstance(el, SV):
                decls.append((nm, lv))
        P = lambda lv: (lambda st: lc.get(st, lv).pos)
        cur = None
        for nm, lv in outer:
            p = P(lv)
            if lc.modified(lv):
                yield ('axiom: definitions', lambda st, p=p: R.step(p(st)))
                yield ('%s: as many as matched' % nm, lambda st, p=p: n(st) == If(only, 0, R.OFF(p(st))))
                yield ('%s: room' % nm, lambda st, p=p: And(R.OFF(p(st)) >= 0, R.below(p(st))))
                yield ('%s: declarations put in order' % nm, lambda st, p=p: Or(only, R.entries(a(st), p(st))))
                yield ('%s: nothing matched yet' % nm, lambda st, p=p: Implies(only, Not(R.some(p(st)))))
                if canc is not None:
                    yield ('%s: can build' % nm, lambda st, p=p: canc(st, lc) == Or(x.can0, R.some(p(st))))
            elif cur is None:
                cur = p
        for nm, lv in conds:
            q = P(lv)
            if lc.modified(lv) and cur is not None:
                for bn, b in lc.vars(lambda v: isinstance(v, SV) and v.t.sort() == B):
                    if lc.modified(b):
                        yield ('%s so far' % bn, lambda st, b=b, q=q: lc.get(st, b).t == R.holds(cur(st), q(st)))
                yield ('all conditions before %s hold' % nm, lambda st, q=q: R.holds(cur(st), q(st)))
        for nm, lv in decls:
            q = P(lv)
            if not lc.modified(lv):
                continue
            if cur is not None:
                base = lambda st: R.OFF(cur(st))
                yield ('earlier entries', lambda st: R.entries(a(st), cur(st)))
                yield ('%s entries of this rule' % nm, lambda st, q=q: And(n(st) == base(st) + q(st), q(st) >= 0, forall([d], Implies(And(0 <= d, d < q(st)), S(a(st), base(st) + d) == R.decl(cur(st), d)), R.decl(cur(st), d))))
            else:
                def g(st, q=q, lv=lv):
                    D = lc.get(st, lc.get(st, lv).cont)
                    return And(n(st) == q(st), q(st) >= 0, forall([d], Implies(And(0 <= d, d < q(st)), S(a(st), d) == S(D.el.t, d)), S(D.el.t, d)))
                yield ('%s entries' % nm, g)
    return t


class Build(Contract):
    """Visiting an element puts the declarations of the rule for its id or else, in order, of all rules of its kind which match."""

    def __init__(self, k):
        self.k, self.label = k, KINDS[k].split('::')[-1]
        self.name = SB + '::visit' + self.label

    def make_arg(self, x, i, name, T):
        return LV('heap', x.I.const(Z, 'element'))

    def make_this(self, x, T):
        I = x.I
        v = I.fresh(T, 'this')
        ft, _ = I.field_decl(T, 'filters_')
        x.filters = I.new_root(I.fresh(I.noref(ft), 'filters'))
        v.f['filters_'] = PyV(x.filters)
        return I.new_root(v)

    def setup(self, x):
        super().setup(x)
        I = x.I
        x.ref = x.args[0].base
        x.log = Log(I)
        put_model(x, x.log, lambda lv: lv.same(x.fieldlv('style')))
        x.tags = heap(I, x.ref, EL, 'tags')
        T = I.class_named(EL)
        ft, dc = I.field_decl(T, 'tags')
        I.world.tags = LV('heap', x.ref, (('hf', dc, 'tags', ft['i']),))
        F = x.now(x.filters)
        x.lvl = x.field('levelOfDetail_').t
        x.m = F.f[['nodes', 'ways', 'areas', 'relations'][self.k]]
        x.R = Rules(x, select(x.m.val, x.lvl))
        em = F.f['elements']
        ids = select(em.val, x.lvl)
        x.D = select(ids.val, heap(I, x.ref, EL, 'id').t)
        x.idrule = And(S(em.has, x.lvl), S(ids.has, heap(I, x.ref, EL, 'id').t))
        x.only, x.can0 = x.field('onlyCheck_').t, x.field('canBuild_').t
        I.assume(x.D.len >= 0)

    def pre(self, x):
        i, j = z3.Ints('i!p j!p')
        c = x.R.L.el.f['declarations']
        return [('declarations exist', And(forall([i, j], x.R.decl(i, j) > 0, x.R.decl(i, j)), forall([i], S(x.D.el.t, i) > 0, S(x.D.el.t, i))))]

    def modifies(self, x):
        return [x.fieldlv('canBuild_'), x.log.n, x.log.a]

    def invariants(self, x):
        return [rule_invariants(x, x.R, x.log, lambda st, lc: lc.get(st, x.fieldlv('canBuild_')).t, x.only)]

    def post(self, x):
        d = z3.Int('d!r')
        n, a = x.now(x.log.n).t, x.now(x.log.a).t
        has, N = S(x.m.has, x.lvl), x.R.L.len
        cond = And(Not(x.idrule), has)
        return [('a rule applies', x.field('canBuild_').t == Or(x.can0, x.idrule, And(cond, x.R.some(N)))),
                ('checking puts nothing', Implies(x.only, n == 0)),
                ('the rule for the id', Implies(And(Not(x.only), x.idrule), And(n == x.D.len, forall([d], Implies(And(0 <= d, d < x.D.len), S(a, d) == S(x.D.el.t, d)), S(x.D.el.t, d))))),
                ('number of declarations of the matching rules', Implies(And(Not(x.only), cond), n == x.R.OFF(N))),
                ('declarations of the matching rules in order', Implies(And(Not(x.only), cond), x.R.entries(a, N))),
                ('otherwise nothing', Implies(And(Not(x.idrule), Not(has)), n == 0))]


OPS = ((b'', 'Exists'), (b'=', 'Equals'), (b'!=', 'NotEquals'), (b'<', 'Less'), (b'>', 'Greater'))


def known(I, op):
    return Or([op == I.strlit(o).t for o, _ in OPS])


def typ(I, op):
    r = IntVal(-1)
    for o, n in OPS:
        r = If(op == I.strlit(o).t, IntVal(I.world.op[n]), r)
    return r


def is_filter(v):
    return isinstance(v, StV) and 'conditions' in v.f and 'declarations' in v.f


def rows(x, v, names):
    return isinstance(v, VecV) and isinstance(v.el, StV) and set(v.el.f) >= set(names)


def lists(lc, *names):
    """Modified iterators over vectors of structures with exactly these fields."""
    for n, lv in lc.iters():
        try:
            v = lc.get(lc.entry, lc.get(lc.entry, lv).cont)
        except Exception:
            continue
        if isinstance(v, VecV) and isinstance(v.el, StV) and set(v.el.f) == set(names) and lc.modified(lv):
            yield n, (lambda st, lv=lv: lc.get(st, lv).pos)


class Rule(Contract):
    """What both kinds of rules share."""

    def setup(self, x):
        super().setup(x)
        I = x.I
        I.sorts = []
        x.KEY, x.VAL = z3.Function('DKEY', Z, Z), z3.Function('DVAL', Z, I.Str)
        grad = z3.Function('GRADIENT', I.Str, B)
        I.extra['utymap::utils::GradientUtils::isGradient'] = lambda I, c: SV(grad(c.rd(0).t), c.ret())
        I.extra[IMPL + '::addGradient'] = lambda I, c: VOID

        def shared(I, c):
            T = I.targ(c.ret(), 0)
            if c.n() != 2 or 'StyleDeclaration' not in str(T.get('s')):
                raise Unsupported('make_shared of ' + str(T.get('s')))
            r = I.const(Z, 'declaration')
            I.assume(And(r > 0, x.KEY(r) == c.rd(0).t, x.VAL(r) == c.rd(1).t))
            return SV(r, c.ret())
        I.extra['std::make_shared'] = shared

    def is_decl(self, x, D, j, r):
        return And(x.KEY(r) == x.I.world.ID(S(D.el.f['key'].t, j)), x.VAL(r) == S(D.el.f['value'].t, j))

    def decls(self, x, D, v, n):
        """v holds the first n declarations of D in order."""
        j = z3.Int('j!d')
        return And(v.len == n, forall([j], Implies(And(0 <= j, j < n), self.is_decl(x, D, j, S(v.el.t, j))), S(v.el.t, j)))


class ConditionRule(Rule):
    """A rule is appended to the rules of every level of its selector, with its conditions and its declarations in order; other levels keep their rules."""
    name = IMPL + '::addConditionRule'
    cfg = {'htimeout': 4000, 'qfcand': 0}

    def make_arg(self, x, i, name, T):
        if T['k'] == 'ptr':
            x.map = x.I.new_root(x.I.fresh(T['to'] if isinstance(T.get('to'), dict) else x.I.T(T['to']), 'rules'))
            return PyV(x.map)
        return super().make_arg(x, i, name, T)

    def setup(self, x):
        super().setup(x)
        x.sel = next(v for v in (x.now(a) for a in x.args[1:] if isinstance(a, LV)) if 'zoom' in v.f)
        x.D = next(v for v in (x.now(a) for a in x.args[1:] if isinstance(a, LV)) if 'declarations' in v.f).f['declarations']
        x.C = x.sel.f['conditions']
        x.lo, x.hi = x.sel.f['zoom'].f['start'].t, x.sel.f['zoom'].f['end'].t

    def conv(self, x, c, i, j):
        """Entry i of c is the j-th condition of the selector."""
        g, C = c.el.f, x.C.el.f
        return And(S(g['key'].t, i) == x.I.world.ID(S(C['key'].t, j)), S(g['value'].t, i) == x.I.world.ID(S(C['value'].t, j)), S(g['type'].t, i) == typ(x.I, S(C['operation'].t, j)))

    def converted(self, x, c, n):
        j = z3.Int('j!c')
        return And(c.len == n, forall([j], Implies(And(0 <= j, j < n), self.conv(x, c, j, j)), S(c.el.f['key'].t, j)))

    def known(self, x, n):
        j = z3.Int('j!k')
        return forall([j], Implies(And(0 <= j, j < n), known(x.I, S(x.C.el.f['operation'].t, j))), S(x.C.el.f['operation'].t, j))

    def throws(self, x):
        j = z3.Int('j!k')
        return z3.Exists([j], And(0 <= j, j < x.C.len, Not(known(x.I, S(x.C.el.f['operation'].t, j)))))

    def pre(self, x):
        return [('lists', And(x.C.len >= 0, x.D.len >= 0))]

    def modifies(self, x):
        return [x.map]

    def entry(self, m, l, k):
        return leaves(select(select(m.val, l).el, k))

    def kept(self, x, m, l, cond=BoolVal(True), bound=True):
        """The list of level l (all l where cond, if bound) starts with the old one."""
        old = x.was(x.map)
        k = z3.Int('k!l')
        a, b = self.entry(m, l, k), self.entry(old, l, k)
        return forall([l, k] if bound else [k], Implies(And(cond, S(old.has, l), 0 <= k, k < select(old.val, l).len), And([p == q for p, q in zip(a, b)])), a[0])

    def oldlen(self, x, l):
        old = x.was(x.map)
        return If(S(old.has, l), select(old.val, l).len, 0)

    def same(self, x, m, l):
        old = x.was(x.map)
        return And([S(m.has, l) == S(old.has, l), Implies(S(old.has, l), And([p == q for p, q in zip(leaves(select(m.val, l)), leaves(select(old.val, l)))]))])

    def invariants(self, x):
        def t(lc):
            fs = lc.vars(is_filter)
            for n, p in lists(lc, 'key', 'operation', 'value'):
                yield ('operations before %s are known' % n, lambda st, p=p: self.known(x, p(st)))
                for fn, f in fs:
                    yield ('%s has the conditions before %s' % (fn, n), lambda st, f=f, p=p: self.converted(x, lc.get(st, f).f['conditions'], p(st)))
            for n, p in lists(lc, 'key', 'value'):
                for fn, f in fs:
                    yield ('%s has the declarations before %s' % (fn, n), lambda st, f=f, p=p: self.decls(x, x.D, lc.get(st, f).f['declarations'], p(st)))
                    yield ('%s keeps its conditions' % fn, lambda st, f=f: And([p == q for p, q in zip(leaves(lc.get(st, f).f['conditions']), leaves(lc.get(lc.entry, f).f['conditions']))]))
            if lc.modified(x.map):
                l, k = z3.Ints('l!m k!l')
                for n, v in lc.ints():
                    if not lc.modified(v):
                        continue
                    i = lambda st, v=v: lc.get(st, v).t
                    m = lambda st: lc.get(st, x.map)
                    yield ('%s within the levels' % n, lambda st, i=i: Or(i(st) == x.lo, And(i(st) > x.lo, i(st) <= x.hi + 1)))
                    yield ('levels before %s have the rule' % n, lambda st, i=i: forall([l], Implies(And(x.lo <= l, l < i(st)), And(S(m(st).has, l), select(m(st).val, l).len == self.oldlen(x, l) + 1)), S(m(st).has, l)))
                    for fn, f in fs:
                        yield ('levels before %s append %s' % (n, fn), lambda st, i=i, f=f: forall([l], Implies(And(x.lo <= l, l < i(st), S(x.was(x.map).has, l)),
                               And([a == z3.Store(b, self.oldlen(x, l), q) for a, b, q in zip(leaves(select(m(st).val, l).el), leaves(select(x.was(x.map).val, l).el), leaves(lc.get(st, f)))])), S(m(st).has, l)))
                        yield ('new levels before %s have %s' % (n, fn), lambda st, i=i, f=f: forall([l], Implies(And(x.lo <= l, l < i(st), Not(S(x.was(x.map).has, l))),
                               And([a == b for a, b in zip(self.entry(m(st), l, IntVal(0)), leaves(lc.get(st, f)))])), S(m(st).has, l)))
                    yield ('other levels than before %s are as before' % n, lambda st, i=i: forall([l], Implies(Or(l < x.lo, l >= i(st)), self.same(x, m(st), l)), S(m(st).has, l)))
        return [t]

    def post(self, x):
        l, j = z3.Int('l!m'), z3.Int('j!c')
        m = x.now(x.map)
        ws = [(lambda t: t, lambda t: t)]
        for P, Q in x.I.sorts:
            ws += [(lambda t, f=f, Q=Q: S(Q, f(t)), lambda t, g=g, P=P: g(S(P, t))) for f, g in ws]
        inz = And(x.lo <= l, l <= x.hi)
        last = lambda l: select(select(m.val, l).el, self.oldlen(x, l))
        n = x.C.len
        c = last(l).f['conditions']
        return [('every level of the selector gets one rule', Implies(inz, And(S(m.has, l), select(m.val, l).len == self.oldlen(x, l) + 1))),
                ('earlier rules of the level stay in order', self.kept(x, m, l, inz)),
                ('it has as many conditions', Implies(inz, c.len == n)),
                ('it has every condition of the selector', Implies(And(inz, 0 <= j, j < n), Or([self.conv(x, c, w(j), j) for w, _ in ws]))),
                ('and no others', Implies(And(inz, 0 <= j, j < n), Or([self.conv(x, c, j, v(j)) for _, v in ws]))),
                ('it has the declarations of the rule in order', Implies(inz, self.decls(x, x.D, last(l).f['declarations'], x.D.len))),
                ('other levels keep their rules', Implies(Not(inz), self.same(x, m, l)))]


class IdentifierRule(Rule):
    """For every level of its selector, the element with the given id gets the declarations in order, unless an earlier rule has given it some; nothing else changes."""
    name = IMPL + '::addIdentifierRule'
    cfg = {'htimeout': 4000, 'qfcand': 0}

    def setup(self, x):
        super().setup(x)
        I = x.I
        lc = z3.Function('NUMBER', I.Str, Z)

        def cast(I, c):
            t = lc(c.rd(0).t)
            I.fact(And(t >= 0, t < 2 ** 64))
            return SV(t, c.ret())
        I.extra['utymap::utils::lexicalCast'] = cast
        x.sel, x.D = x.now(x.args[0]), x.now(x.args[1])
        x.lo, x.hi = x.sel.f['zoom'].f['start'].t, x.sel.f['zoom'].f['end'].t
        x.id = lc(S(x.sel.f['conditions'].el.f['value'].t, 0))
        x.map = x.fieldlv('filters') + ('f', 'elements')
        x.m0 = x.now(x.map)

    def pre(self, x):
        return [('an id is given', And(x.sel.f['conditions'].len > 0, x.D.len >= 0))]

    def modifies(self, x):
        return [x.map]

    def has(self, m, l, k):
        return And(S(m.has, l), self.in_(m, l, k))

    def in_(self, m, l, k):
        return S(select(m.val, l).has, k)

    def list(self, m, l, k):
        return leaves(select(select(m.val, l).val, k))

    def state(self, x, m, F, done):
        """Rules after those of F with done(l, k) were added."""
        l, k = z3.Ints('l!m k!m')
        new = lambda: And(S(F.has, k), done(l, k))
        had = self.has(x.m0, l, k)
        tr = self.in_(m, l, k)
        yield 'ids', forall([l, k], self.has(m, l, k) == Or(had, new()), tr)
        yield 'earlier rules stay', forall([l, k], Implies(had, And([p == q for p, q in zip(self.list(m, l, k), self.list(x.m0, l, k))])), self.list(m, l, k)[0])
        yield 'new rules', forall([l, k], Implies(And(Not(had), new()), And([p == q for p, q in zip(self.list(m, l, k), leaves(select(F.val, k)))])), self.list(m, l, k)[0])

    def invariants(self, x):
        def t(lc):
            I = x.I
            fs = lc.vars(lambda v: isinstance(v, MapV) and isinstance(v.val, VecV) and isinstance(v.val.el, SV))
            k = z3.Int('k!m')
            for n, p in lists(lc, 'key', 'value'):
                for fn, f in fs:
                    F = lambda st, f=f: lc.get(st, f)
                    yield ('%s: ids before %s' % (fn, n), lambda st, p=p, F=F: And(F(st).size == If(p(st) > 0, 1, 0), forall([k], S(F(st).has, k) == And(k == x.id, p(st) > 0), S(F(st).has, k))))
                    yield ('%s: declarations before %s' % (fn, n), lambda st, p=p, F=F: Or(p(st) <= 0, self.decls(x, x.D, select(F(st).val, x.id), p(st))))
            if not lc.modified(x.map):
                return
            m = lambda st: lc.get(st, x.map)
            its = [lv for n, lv in lc.vars(lambda v: isinstance(v, ItV) and v.kind == 'map' and v.pos is not None) if lc.modified(lv)]
            for fn, f in fs:
                F = lc.get(lc.entry, f)
                for n, v in lc.ints():
                    i = lambda st, v=v: lc.get(st, v).t
                    if lc.modified(v):
                        yield ('%s within the levels' % n, lambda st, i=i: Or(i(st) == x.lo, And(i(st) > x.lo, i(st) <= x.hi + 1)))
                        for j in range(3):
                            yield ('before %s %d' % (n, j), lambda st, i=i, F=F, j=j: list(self.state(x, m(st), F, lambda l, k: And(x.lo <= l, l < i(st))))[j][1])
                    for lv in its:
                        sv, I.st = I.st, lc.entry
                        keys, idx = enum_of(I, f, F)
                        I.st = sv

                        def p(st, lv=lv):
                            it = lc.get(st, lv)
                            return If(it.end, F.size, S(idx, it.pos)) if it.end is not None else S(idx, it.pos)
                        yield ('iterator', lambda st, p=p, lv=lv: And(p(st) >= 0, p(st) <= F.size, lc.get(st, lv).end == (p(st) == F.size), Implies(p(st) < F.size, And(S(F.has, lc.get(st, lv).pos), S(keys, p(st)) == lc.get(st, lv).pos))))
                        for j in range(3):
                            yield ('before the id %s %d' % (n, j), lambda st, i=i, p=p, F=F, j=j: list(self.state(x, m(st), F, lambda l, k: And(x.lo <= l, Or(l < i(st), And(l == i(st), S(idx, k) < p(st))))))[j][1])
        return [t]

    def post(self, x):
        l, k = z3.Ints('l!m k!m')
        m = x.now(x.map)
        new = And(x.lo <= l, l <= x.hi, k == x.id, x.D.len > 0)
        had = self.has(x.m0, l, k)
        return [('the id has a rule at the levels of the selector', self.has(m, l, k) == Or(had, new)),
                ('earlier rules stay', Implies(had, And([p == q for p, q in zip(self.list(m, l, k), self.list(x.m0, l, k))]))),
                ('it has the declarations in order', Implies(And(Not(had), new), self.decls(x, x.D, select(select(m.val, l).val, k), x.D.len)))]


NAMES = ((b'node', 'nodes'), (b'way', 'ways'), (b'area', 'areas'), (b'relation', 'relations'), (b'canvas', 'canvases'), (b'element', None))


class Constructor(Contract):
    """Every selector of every rule is added once for each of its names, in the order of the sheet, to the rules of the named kind."""
    name = IMPL + '::StyleProviderImpl'
    may_throw = 'checked'
    instance = staticmethod(lambda f, I: len(f['ps']) == 2)
    cfg = {'ftimeout': 300, 'htimeout': 4000, 'qfcand': 2000}

    def setup(self, x):
        super().setup(x)
        I = x.I
        for n in ('mapcss::TextureAtlas', 'lsys::LSystem', 'mapcss::ColorGradient'):
            I.opaque_types['utymap::' + n] = lambda I, T, nm, lift: SV(z3.Const(nm, lift_sort(Z, lift)), {'k': 'opaque', 's': 'other'})
        I.extra['ctor std::mutex'] = lambda I, c: SV(IntVal(0), {'k': 'opaque', 's': 'mutex'})
        I.extra[AN + 'getHashTag'] = lambda I, c: I.fresh(I.T(c.f['ret']), 'tag')
        I.extra['std::make_unique'] = I.extra['utymap::utils::make_unique'] = lambda I, c: SV(I.const(Z, 'other'), c.ret())
        I.extra['utymap::mapcss::TextureAtlas::index'] = lambda I, c: I.fresh(I.T(c.f['ret']), 'index')
        x.sheet = x.args[0]
        R = x.now(x.sheet).f['rules']
        x.NR = R.len
        sels = lambda r: select(R.el, r).f['selectors']
        x.NS = lambda r: sels(r).len
        names = lambda r, s: select(sels(r).el, s).f['names']
        x.NN = lambda r, s: names(r, s).len
        x.nm = lambda r, s, n: select(names(r, s).el, n).t
        x.A, x.Bf = z3.Function('A', Z, Z), z3.Function('Bf', Z, Z, Z)
        I.assume(x.A(0) == 0)
        x.cnt = I.new_root(SV(IntVal(0), None))
        x.NAME = z3.Function('NAME', Z, I.Str)

        def where(lv):
            """(r, s) of a selector of the sheet."""
            p = lv.path if isinstance(lv, LV) and lv.same(LV('root', x.sheet.base, lv.path)) else ()
            if [c[:2] if c[0] == 'f' else c[0] for c in p] != [('f', 'rules'), 'i', ('f', 'selectors'), 'i']:
                raise Unsupported('selector which is not of the sheet')
            return p[1][1], p[3][1]

        def event(I, sel, kind):
            r, s = where(sel)
            n = I.read(x.cnt).t
            i = n - x.A(r) - x.Bf(r, s)
            I.check('selectors are added in the order of the sheet', And(0 <= i, i < x.NN(r, s)))
            I.check('to the rules of the kind they name', x.nm(r, s, i) == I.strlit(next(b for b, k in NAMES if k == kind)).t)
            I.write(x.cnt, SV(n + 1, None))
            return r

        def cond(I, c):
            t = c.rd(0)
            t = t.o if isinstance(t, PyV) else t
            if not isinstance(t, LV) or [c[1] for c in t.path][-2:-1] != ['filters']:
                raise Unsupported('rules which are not those of a kind')
            r = event(I, c.arg(2), t.path[-1][1])
            rule = c.arg(1)
            I.check('with the declarations of their rule', rule.path[1][1] == r if isinstance(rule, LV) and len(rule.path) == 2 and rule.same(LV('root', x.sheet.base, rule.path)) else BoolVal(False))
            return VOID

        def ident(I, c):
            r = event(I, c.arg(0), None)
            D = c.arg(1)
            I.check('with the declarations of their rule', D.path[1][1] == r if isinstance(D, LV) and len(D.path) == 3 and D.path[2] == ('f', 'declarations') and D.same(LV('root', x.sheet.base, D.path)) else BoolVal(False))
            return VOID
        I.extra[IMPL + '::addConditionRule'] = cond
        I.extra[IMPL + '::addIdentifierRule'] = ident

    def rstep(self, x, r):
        return And(x.A(r + 1) == x.A(r) + x.Bf(r, x.NS(r)), x.Bf(r, 0) == 0, x.NS(r) >= 0)

    def sstep(self, x, r, q):
        return And(x.Bf(r, q + 1) == x.Bf(r, q) + x.NN(r, q), x.NN(r, q) >= 0)

    def known(self, x, v):
        return Or([v == x.I.strlit(b).t for b, _ in NAMES])

    def on_throw(self, x, t):
        return [('only for an unknown name', And(BoolVal('domain_error' in t.cls), Not(self.known(x, x.NAME(x.now(x.cnt).t)))))]

    def invariants(self, x):
        def t(lc):
            n = lambda st: lc.get(st, x.cnt).t
            at = {}
            for nm, lv in lc.iters():
                try:
                    v = lc.get(lc.entry, lc.get(lc.entry, lv).cont)
                except Exception:
                    continue
                kind = 0 if 'selectors' in getattr(v.el, 'f', {}) else 1 if 'names' in getattr(v.el, 'f', {}) else 2 if isinstance(v.el, SV) and v.el.t.sort().range() == x.I.Str or isinstance(v.el, SV) and 'names' in str(lc.get(lc.entry, lv).cont.path) else None
                if kind is not None and (kind not in at or lc.modified(lv)):
                    at[kind] = (lc.modified(lv), lambda st, lv=lv: lc.get(st, lv).pos)
            P = [at[k][1] if k in at else None for k in range(3)]
            if at.get(2, (0,))[0] and P[0] and P[1]:
                r, s, k = P
                yield ('axiom: names of events', lambda st: Implies(And(0 <= r(st), r(st) < x.NR, 0 <= s(st), s(st) < x.NS(r(st)), 0 <= k(st), k(st) < x.NN(r(st), s(st))), x.NAME(x.A(r(st)) + x.Bf(r(st), s(st)) + k(st)) == x.nm(r(st), s(st), k(st))))
                yield ('names before are added', lambda st: And(k(st) >= 0, n(st) == x.A(r(st)) + x.Bf(r(st), s(st)) + k(st)))
            elif at.get(1, (0,))[0] and P[0]:
                r, s, _ = P
                yield ('axiom: events before a selector', lambda st: self.sstep(x, r(st), s(st)))
                yield ('selectors before are added', lambda st: n(st) == x.A(r(st)) + x.Bf(r(st), s(st)))
            elif at.get(0, (0,))[0]:
                r = P[0]
                yield ('axiom: events before a rule', lambda st: self.rstep(x, r(st)))
                yield ('rules before are added', lambda st: n(st) == x.A(r(st)))
        return [t]

    def pre(self, x):
        return [('rules', x.NR >= 0)]

    def modifies(self, x):
        return [x.cnt]

    def post(self, x):
        F = x.ret.f['filters'] if isinstance(x.ret, StV) else x.now(x.this).f['filters']
        l = z3.Int('l!m')
        return [('every selector is added', x.now(x.cnt).t == x.A(x.NR)),
                ('no other rules', And([Not(S(m.has, l)) for m in F.f.values()]))]


class Ask(Contract):
    """The element visits a builder for it with the rules, the level and the mode; what that says is the result."""
    def __init__(self, fn):
        self.name, self.fn = SP + '::' + fn, fn

    def make_arg(self, x, i, name, T):
        return LV('heap', x.I.const(Z, 'element')) if i == 0 else super().make_arg(x, i, name, T)

    def setup(self, x):
        super().setup(x)
        I = x.I
        x.asked = I.new_root(SV(IntVal(0), None))
        ref = x.field('pimpl_').t
        I.assume(ref > 0)

        def accept(I, c):
            b = c.arg(0)
            v = I.read(b)
            I.check('the given element is asked', c.this.base == x.args[0].base if is_heap(c.this) else BoolVal(False))
            if not (isinstance(v, StV) and 'filters_' in v.f):
                raise Unsupported('visitor which is not a style builder')
            f = v.f['filters_']
            f = f.o if isinstance(f, PyV) else f
            I.check('the rules of this provider are used', f.base == ref if isinstance(f, LV) and f.kind == 'heap' and str(f.path[-1]).find('filters') >= 0 else BoolVal(False))
            I.check('for the given level', v.f['levelOfDetail_'].t == x.was(x.args[1]).t if isinstance(x.args[1], LV) else v.f['levelOfDetail_'].t == x.args[1].t)
            I.check('in the right mode', v.f['onlyCheck_'].t == BoolVal(self.fn == 'hasStyle'))
            s = v.f['style']
            k, tags = z3.Int('k!t'), heap(I, x.args[0].base, EL, 'tags')
            from vc.contract import vec_eq
            I.check('with a new style', And(Not(v.f['canBuild_'].t), Not(S(s.f['declarations_'].has, k)), s.f['declarations_'].size == 0, s.f['builders_'].size == 0))
            I.check('which has the tags of the element', vec_eq(s.f['tags_'], tags))
            I.write(x.asked, SV(I.read(x.asked).t + 1, None))
            x.can = I.const(B, 'can')
            x.style = I.refresh(s, 'styled')
            I.write(b, StV(v.cls, {**v.f, 'canBuild_': SV(x.can, None), 'style': x.style}))
            return VOID
        I.extra[EL + '::accept'] = accept
        I.extra['utymap::mapcss::StyleConsts::BuilderKey'] = lambda I, c: I.strlit(b'builder')

    def modifies(self, x):
        return [x.asked]

    def post(self, x):
        once = ('once', x.now(x.asked).t == 1)
        if self.fn == 'hasStyle':
            return [once, ('the result is told', x.ret.t == x.can)]
        return [once, ('its style is returned', And([p == q for f in ('declarations_', 'builders_', 'tags_') for p, q in zip(leaves(x.ret.f[f]), leaves(x.style.f[f]))]))]


class Canvas(Contract):
    """The style of the canvas has the declarations of all canvas rules of the level in order."""
    name = SP + '::forCanvas'

    def setup(self, x):
        super().setup(x)
        I = x.I
        x.log = Log(I)
        put_model(x, x.log, lambda lv: lv.kind == 'root')
        I.extra['utymap::mapcss::StyleConsts::BuilderKey'] = lambda I, c: I.strlit(b'builder')
        ref = x.field('pimpl_').t
        I.assume(ref > 0)
        T = I.class_named(IMPL)
        m = heap(I, ref, IMPL, 'filters').f['canvases']
        x.lvl = x.args[0].t
        x.has = S(m.has, x.lvl)
        x.R = Rules(x, select(m.val, x.lvl), True)

    def pre(self, x):
        i, j = z3.Ints('i!p j!p')
        return [('declarations exist', forall([i, j], x.R.decl(i, j) > 0, x.R.decl(i, j)))]

    def modifies(self, x):
        return [x.log.n, x.log.a]

    def invariants(self, x):
        return [rule_invariants(x, x.R, x.log)]

    def post(self, x):
        n, a = x.now(x.log.n).t, x.now(x.log.a).t
        N = x.R.L.len
        return [('number of declarations', n == If(x.has, x.R.OFF(N), 0)), ('in the order of the rules', Implies(x.has, x.R.entries(a, N)))]


class StyleFn(Contract):
    """The style maps a key to the last declaration which was put for it; 'builders' are collected."""
    def __init__(self, fn, n=None):
        self.name, self.fn, self.n = STY + '::' + fn, fn, n
        self.label = fn + (str(n) if n else '')
        if n:
            self.instance = lambda f, I: len(f['ps']) == n

    def make_arg(self, x, i, name, T):
        return LV('heap', x.I.const(Z, 'declaration')) if self.fn == 'put' else super().make_arg(x, i, name, T)

    def setup(self, x):
        I = x.I
        x.KEY, x.VAL = z3.Function('DKEY', Z, Z), z3.Function('DVAL', Z, I.Str)
        SD = MC + 'StyleDeclaration'

        def key(I, c):
            I.fact(And(x.KEY(c.this.base) >= 0, x.KEY(c.this.base) < 2 ** 32))
            return SV(x.KEY(c.this.base), c.ret())
        I.extra[SD + '::key'] = key
        I.extra[SD + '::value'] = lambda I, c: I.new_root(SV(x.VAL(c.this.base), None))
        super().setup(x)
        x.m, x.b = x.field('declarations_'), x.field('builders_')
        x.k = x.now(x.args[0]).t if x.args and self.fn != 'put' and isinstance(x.args[0], LV) else x.args[0].t if x.args and self.fn != 'put' else None

    def pre(self, x):
        k = z3.Int('k!d')
        return [('declarations exist', And(x.m.size >= 0, forall([k], Implies(S(x.m.has, k), And(S(x.m.val.t, k) > 0, x.m.size > 0)), S(x.m.val.t, k)))),
                ('no declarations without a key', (x.m.size == 0) == Not(z3.Exists([k], S(x.m.has, k))))]

    def modifies(self, x):
        return [x.fieldlv('declarations_'), x.fieldlv('builders_')] if self.fn == 'put' else []

    def throws(self, x):
        return Not(S(x.m.has, x.k)) if self.fn == 'get' else None

    def post(self, x):
        m, k = x.m, z3.Int('k!d')
        if self.fn == 'put':
            d, n, b, w = x.args[0].base, x.field('declarations_'), x.field('builders_'), z3.Const('w!d', x.I.Str)
            key = x.KEY(d)
            return [('the declaration is found by its key', And(S(n.has, key), S(n.val.t, key) == d)),
                    ('others stay', Implies(k != key, And(S(n.has, k) == S(m.has, k), S(n.val.t, k) == S(m.val.t, k)))),
                    ('builders are collected', S(b.has, w) == Or(S(x.b.has, w), And(key == x.field('builderKeyId_').t, w == x.VAL(d))))]
        if self.fn == 'has':
            return [('tells whether it is there', x.ret.t == (S(m.has, x.k) if self.n == 1 else And(S(m.has, x.k), x.VAL(S(m.val.t, x.k)) == x.was(x.args[1]).t)))]
        if self.fn == 'empty':
            return [('tells whether there is none', x.ret.t == Not(z3.Exists([k], S(m.has, k))))]
        r = x.ret.o if isinstance(x.ret, PyV) else x.ret
        return [('the last declaration of the key', r.base == S(m.val.t, x.k) if isinstance(r, LV) and r.kind == 'heap' else r.t == S(m.val.t, x.k) if isinstance(r, SV) else BoolVal(False))]


class Declaration(Lemma):
    """A declaration has the key and the value it was made of."""
    name = MC + 'StyleDeclaration'
    label = 'key and value'

    def run(self, x):
        I = x.I
        SD = MC + 'StyleDeclaration'
        I.extra[MC + 'StyleEvaluator::parse'] = lambda I, c: SV(I.const(Z, 'tree'), c.ret())
        d = I.m.find(SD + '::StyleDeclaration', lambda f, m: len(f['ps']) == 2)
        if not d:
            raise Unsupported('constructor of declarations not found')
        k = I.fresh(I.noref(d[0]['params'][0]['t']), 'key')
        v = I.new_root(I.fresh(I.noref(d[0]['params'][1]['t']), 'value'))
        o = I.new_root(I.construct(d[0], [k, v]))
        kk, vv = self.callf(x, SD + '::key', o, []), self.callf(x, SD + '::value', o, [])
        rd = lambda r: I.read(r.o if isinstance(r, PyV) else r) if isinstance(r, (LV, PyV)) else r
        I.check('the key is kept', rd(kk).t == k.t)
        I.check('the value is kept', rd(vv).t == I.read(v).t)


CONTRACTS = [MatchTags(), ConditionRule(), IdentifierRule(), Constructor(), Ask('forElement'), Ask('hasStyle'), Canvas(), StyleFn('put'), StyleFn('has', 1), StyleFn('has', 2), StyleFn('get'), StyleFn('empty'), Declaration()] + [Build(k) for k in range(4)]
USES = []
HARNESS = {'src': 'c12.cpp', 'repo': ['src/mapcss/StyleProvider.cpp', 'src/mapcss/StyleConsts.cpp', 'src/utils/GradientUtils.cpp', 'src/utils/NoiseUtils.cpp', 'src/index/StringTable.cpp', 'lib/hashing/MurmurHash3.cpp', 'lib/hashing/MD5.cpp']}

"""Element and mesh streams: write followed by read is the identity; records of any values follow each other in a stream.

A value v (an uninterpreted integer) is described by functions KIND, NT/TK/TV (tags), NC/LA/LO (coordinates), NM/MID/M (members).
  REP(r, v)   the element object r (heap at entry of the writer, which is checked not to write the heap) has value v
  ENC(S, b, v) the stream holds the code of v from offset b to b+LEN(v)
  EQ(r, v)    the object r has value v (heap at the return of the reader; later writes reach fresh objects or ids only: checked)
Each is unfolded one level by a definition; members stay behind the predicate (structural recursion over finite elements)."""
import streams
from streams import *
from vc.interp import Refs, PTR_TYPES
NS = 'utymap::entities::'
EL, NODE, WAY, AREA, REL = NS + 'Element', NS + 'Node', NS + 'Way', NS + 'Area', NS + 'Relation'
TRUSTED = streams.TRUSTED + ['structural induction over finite elements: the predicates ENC/REP/EQ are the least ones satisfying their definitions (no cyclic relations)']
ASSUMPTIONS = ['at most 65535 tags, coordinates and members per element (the sizes are stored in 16 bits), fewer than 2^32 values per mesh list; mesh names contain no NUL',
               'doubles of a mesh are stored as float: the value read back is the float nearest to the one written (conversion as an uninterpreted function)']
CFG = {'strs': 'opaque', 'ftimeout': 300, 'htimeout': 1200, 'portfolio': True}
TU = '@core/src/index/ElementStream.cpp'
A_ = z3.ArraySort(Z, Z)
AR = z3.ArraySort(Z, R)
fn = z3.Function
KIND, NT, NC, NM, LEN = [fn(n, Z, Z) for n in ('KIND', 'NT', 'NC', 'NM', 'LEN')]
TK, TV, MID, M, OFF = [fn(n, Z, Z, Z) for n in ('TK', 'TV', 'MID', 'M', 'OFF')]
LA, LO = fn('LA', Z, Z, R), fn('LO', Z, Z, R)
ENC = fn('ENC', A_, A_, AR, Z, Z, B)
REP, EQ = fn('REP', Z, Z, B), fn('EQ', Z, Z, B)
KINDS = [NODE, WAY, AREA, REL]


def U(*a):
    return And(*a)


def rng(j, n):
    return And(j >= 0, j < n)


def C0(v):
    return 3 + 8 * NT(v)


def sizes(v, j=None):
    """Sizes of values: facts about v (and all values)."""
    w, j = z3.Ints('w!s j!s')
    out = [U(KIND(v) >= 0, KIND(v) <= 3, NT(v) >= 0, NT(v) <= 65535, NC(v) >= 0, NC(v) <= 65535, NM(v) >= 0, NM(v) <= 65535,
             Implies(KIND(v) == 0, And(NC(v) == 1, LEN(v) == C0(v) + 16)),
             Implies(Or(KIND(v) == 1, KIND(v) == 2), LEN(v) == C0(v) + 2 + 16 * NC(v)),
             Implies(KIND(v) == 3, And(OFF(v, 0) == C0(v) + 2, LEN(v) == OFF(v, NM(v)))),
             LEN(v) >= 3)]
    out.append(forall([w], LEN(w) >= 3, LEN(w)))
    out.append(forall([j], Implies(And(KIND(v) == 3, rng(j, NM(v))), And(OFF(v, j + 1) == OFF(v, j) + 8 + LEN(M(v, j)), OFF(v, j) >= C0(v) + 2, OFF(v, j + 1) <= LEN(v))), M(v, j)))
    k = z3.Int('k!s')
    out.append(forall([j, k], Implies(And(KIND(v) == 3, rng(j, NM(v)), k > j, k <= NM(v)), OFF(v, j + 1) <= OFF(v, k)), [M(v, j), OFF(v, k)]))   # lemma Offsets
    return out


def cells(k, i, r, b, v):
    """Definition of ENC(k, i, r, b, v)."""
    j = z3.Int('j!e')
    c0 = b + C0(v)
    tag = forall([j], Implies(rng(j, NT(v)), And(S(k, b + 3 + 8 * j) == 4, S(k, b + 7 + 8 * j) == 4, S(i, b + 3 + 8 * j) == TK(v, j), S(i, b + 7 + 8 * j) == TV(v, j))), TK(v, j))
    crd = lambda o: forall([j], Implies(rng(j, NC(v)), And(S(k, o + 16 * j) == 108, S(k, o + 8 + 16 * j) == 108, S(r, o + 16 * j) == LA(v, j), S(r, o + 8 + 16 * j) == LO(v, j))), LA(v, j))
    mem = forall([j], Implies(rng(j, NM(v)), And(S(k, b + OFF(v, j)) == 8, S(i, b + OFF(v, j)) == MID(v, j), ENC(k, i, r, b + OFF(v, j) + 8, M(v, j)))), M(v, j))
    return And(S(k, b) == 1, S(i, b) == KIND(v), S(k, b + 1) == 2, S(i, b + 1) == NT(v), tag,
               If(KIND(v) == 0, crd(c0),
                  If(KIND(v) == 3, And(S(k, c0) == 2, S(i, c0) == NM(v), mem), And(S(k, c0) == 2, S(i, c0) == NC(v), crd(c0 + 2)))))


def unfold(s, b, v):
    k, i, r = arrs(s)
    return ENC(k, i, r, b, v) == cells(k, i, r, b, v)


def arrs(s):
    return s.f['kind'].t, s.f['iv'].t, s.f['rv'].t


def enc(s, b, v):
    return ENC(*arrs(s), b, v)


def agree(s, t, lo, hi):
    b = z3.Int('b!a')
    a, c = arrs(s), arrs(t)
    return forall([b], Implies(And(b >= lo, b < hi), And([S(x, b) == S(y, b) for x, y in zip(a, c)])), [S(c[0], b)])


def agree_axiom():
    """ENC only depends on its cells (proved as lemma EncLocal)."""
    k, i, k2, i2 = [z3.Const(n, A_) for n in ('k!x', 'i!x', 'k!y', 'i!y')]
    r, r2 = z3.Const('r!x', AR), z3.Const('r!y', AR)
    b, v, c = z3.Ints('b!x v!x c!x')
    same = z3.ForAll([c], Implies(And(c >= b, c < b + LEN(v)), And(S(k, c) == S(k2, c), S(i, c) == S(i2, c), S(r, c) == S(r2, c))))
    return forall([k, i, r, k2, i2, r2, b, v], Implies(And(ENC(k, i, r, b, v), same), ENC(k2, i2, r2, b, v)), [ENC(k, i, r, b, v), ENC(k2, i2, r2, b, v)])


class EncLocal(Lemma):
    """Induction step of: the code of v depends on the cells b .. b+LEN(v) only."""
    name = 'lemma: the code of an element depends on its cells only'

    def run(self, x):
        I = x.I
        k, i, k2, i2 = [z3.Const(n, A_) for n in ('k1', 'i1', 'k2', 'i2')]
        r, r2 = z3.Const('r1', AR), z3.Const('r2', AR)
        b, v, c, j = z3.Ints('b v c j')
        for f in sizes(v):
            I.assume(f)
        I.assume(ENC(k, i, r, b, v) == cells(k, i, r, b, v))
        I.assume(ENC(k2, i2, r2, b, v) == cells(k2, i2, r2, b, v))
        I.assume(ENC(k, i, r, b, v))
        I.assume(z3.ForAll([c], Implies(And(c >= b, c < b + LEN(v)), And(S(k, c) == S(k2, c), S(i, c) == S(i2, c), S(r, c) == S(r2, c))), patterns=[S(k2, c)]))
        bb = lambda j: b + OFF(v, j) + 8
        # induction hypothesis for the members
        same = lambda j: z3.ForAll([c], Implies(And(c >= bb(j), c < bb(j) + LEN(M(v, j))), And(S(k, c) == S(k2, c), S(i, c) == S(i2, c), S(r, c) == S(r2, c))))
        I.assume(forall([j], Implies(And(rng(j, NM(v)), KIND(v) == 3, ENC(k, i, r, bb(j), M(v, j)), same(j)), ENC(k2, i2, r2, bb(j), M(v, j))), M(v, j)))
        I.check('the code stays', ENC(k2, i2, r2, b, v))


class Offsets(Lemma):
    """Induction steps of: member offsets grow, the last one is the length."""
    name = 'lemma: member offsets increase up to the length'

    def run(self, x):
        I = x.I
        v, j, k, w = z3.Ints('v j k w')
        I.assume(And(rng(j, NM(v)), forall([w], LEN(w) >= 3, LEN(w)), OFF(v, j + 1) == OFF(v, j) + 8 + LEN(M(v, j))))
        I.assume(And(k > j, k < NM(v), OFF(v, k + 1) == OFF(v, k) + 8 + LEN(M(v, k))))
        I.check('start', OFF(v, j + 1) <= OFF(v, j + 1))
        I.check('step', Implies(OFF(v, j + 1) <= OFF(v, k), OFF(v, j + 1) <= OFF(v, k + 1)))


def fields(I, ref, cls, st=None):
    h = {'tags': (EL, 'tags'), 'id': (EL, 'id'), 'coordinate': (NODE, 'coordinate'), 'coordinates': (cls, 'coordinates'), 'elements': (REL, 'elements')}

    def get(n):
        c, f = h[n]
        T = I.class_named(c)
        ft, dc = I.field_decl(T, f)
        return I.read(LV('heap', ref, (('hf', dc, f, ft['i']),)))
    return get


def repr_(I, ref, v, pred, kinds=(0, 1, 2, 3)):
    """The fields of the object ref (current heap) have value v; members related by pred."""
    return And([p for _, p in parts(I, ref, v, pred, kinds)])


def parts(I, ref, v, pred, kinds=(0, 1, 2, 3)):
    j = z3.Int('j!r')
    out = []
    g = fields(I, ref, WAY)
    tags = g('tags')
    out.append(('tags', And(tags.len == NT(v), forall([j], Implies(rng(j, NT(v)), And(S(tags.el.f['key'].t, j) == TK(v, j), S(tags.el.f['value'].t, j) == TV(v, j))), TK(v, j)))))
    for k in kinds:
        g = fields(I, ref, KINDS[k])
        out.append(('kind', Implies(KIND(v) == k, I.get_tag(ref) == I.tag_of(KINDS[k]))))
        if k == 0:
            c = g('coordinate')
            out.append(('coordinates', Implies(KIND(v) == 0, And(c.f['latitude'].t == LA(v, 0), c.f['longitude'].t == LO(v, 0)))))
        elif k < 3:
            c = g('coordinates')
            out.append(('coordinates', Implies(KIND(v) == k, And(c.len == NC(v), forall([j], Implies(rng(j, NC(v)), And(S(c.el.f['latitude'].t, j) == LA(v, j), S(c.el.f['longitude'].t, j) == LO(v, j))), LA(v, j))))))
        else:
            e = g('elements')
            ids = S_id(I)
            el = S(e.el.t, j)
            out.append(('members', Implies(KIND(v) == 3, And(e.len == NM(v), forall([j], Implies(rng(j, NM(v)), And(el != 0, ids(el) == MID(v, j), pred(el, M(v, j)))), M(v, j))))))
    return out


def S_id(I):
    T = I.class_named(EL)
    ft, dc = I.field_decl(T, 'id')
    return lambda r: S(I.heap_arr((dc, 'id'), ft).t, r)


# ---------------------------------------------------------------- writer
def cell_template(x, streamlv, base):
    """Cells written by a loop over a sequence of tags or coordinates; relation members."""
    def t(lc):
        I = lc.I
        v = x.v
        S0 = lc.get(lc.entry, streamlv)
        L0 = S0.f['len'].t
        cur = lambda st: lc.get(st, streamlv)
        j = z3.Int('j!t')
        yield ('cells written before the loop are kept', lambda st: And(agree(S0, cur(st), 0, L0), cur(st).f['len'].t >= L0))
        yield ('the stream stays at its end', lambda st: And(wf(cur(st)), cur(st).f['p'].t == cur(st).f['len'].t))
        for n, p in lc.positions():
            for w in (8, 16):
                yield ('%s items of %d bytes' % (n, w), lambda st, p=p, w=w: cur(st).f['len'].t == L0 + w * p(st))

            def tags(st, p=p):
                k, i, r = arrs(cur(st))
                return forall([j], Implies(rng(j, p(st)), And(S(k, L0 + 8 * j) == 4, S(k, L0 + 4 + 8 * j) == 4, S(i, L0 + 8 * j) == TK(v, j), S(i, L0 + 4 + 8 * j) == TV(v, j))), TK(v, j))

            def coords(st, p=p):
                k, i, r = arrs(cur(st))
                return forall([j], Implies(rng(j, p(st)), And(S(k, L0 + 16 * j) == 108, S(k, L0 + 8 + 16 * j) == 108, S(r, L0 + 16 * j) == LA(v, j), S(r, L0 + 8 + 16 * j) == LO(v, j))), LA(v, j))

            def members(st, p=p):
                k, i, r = arrs(cur(st))
                return forall([j], Implies(rng(j, p(st)), ENC(k, i, r, base + OFF(v, j) + 8, M(v, j))), M(v, j))

            def ids(st, p=p):
                k, i, r = arrs(cur(st))
                return forall([j], Implies(rng(j, p(st)), And(S(k, base + OFF(v, j)) == 8, S(i, base + OFF(v, j)) == MID(v, j))), M(v, j))
            yield ('member ids written', ids)
            yield ('tags written', tags)
            yield ('coordinates written', coords)
            yield ('member offset', lambda st, p=p: And(cur(st).f['len'].t == base + OFF(v, p(st)), p(st) <= NM(v)))
            yield ('members written', members)
    return t


def no_heap_write(I, lv, key):
    I.check('the writer changes no object', BoolVal(False))


class Write(Contract):
    """Writing an object of value v appends exactly the code of v (recursion: through accept)."""

    def __init__(self, k):
        self.k, self.label = k, KINDS[k].split('::')[-1]

    name = 'utymap::index::ElementStream::write'

    def setup(self, x):
        I = x.I
        x.args = [I.new_root(mk(I, None, 'out')), LV('heap', I.const(Z, 'element'))]
        x.v = z3.Int('v')
        x.s = x.args[0]
        I.solver.axioms.append(agree_axiom())
        x.entered = False

    def ghost(self, x):
        x.I.heap_hook = no_heap_write
        x.I.extra[EL + '::accept'] = lambda I, c: self.accept(x, I, c)
        x.I.st.ghost['$in'] = SV(BoolVal(False), None)

    def state(self, I, s, ref, v):
        st = I.read(s)
        return [('stream at its end', And(wf(st), st.f['ok'].t, st.f['p'].t == st.f['len'].t, st.f['open'].t == -1)),
                ('sizes', And(sizes(v)))]

    def done(self, I, o, n, v):
        return [('the code of the element is appended', enc(n, o.f['len'].t, v)), ('nothing before it changes', agree(o, n, 0, o.f['len'].t)),
                ('the stream ends behind the code', And(wf(n), n.f['ok'].t, n.f['open'].t == -1, n.f['len'].t == o.f['len'].t + LEN(v), n.f['p'].t == n.f['len'].t))]

    def accept(self, x, I, c):
        w = I.read(c.arg(0))
        out = [f.o for f in w.f.values() if isinstance(f, PyV)] if isinstance(w, StV) else []
        if not (len(out) == 1 and isinstance(out[0], LV) and out[0].same(x.s)):
            raise Unsupported('accept with another visitor')
        ref = c.this.base
        if z3.is_false(I.gget('$in').t):
            I.check('the given element is written', ref == x.args[1].base)
            I.st.ghost['$in'] = SV(BoolVal(True), None)
            for nm, p in self.state(I, x.s, ref, x.v):
                I.check('on accept: ' + nm, p)
            o = I.read(x.s)
            k = I.choose([KIND(x.v) == i for i in range(4)])
            I.inline(I.find_override(I.m.recbyname[KINDS[k]], c.f), c.this, c.args())
            n = I.read(x.s)
            I.assume(unfold(n, o.f['len'].t, x.v))
            for nm, p in self.done(I, o, n, x.v):
                I.check('written: ' + nm, p)
            return VOID
        # a member: the same contract for its value
        if not (z3.is_app(ref) and ref.decl().kind() == z3.Z3_OP_SELECT):
            raise Unsupported('accept on something else than a member')
        v = M(x.v, ref.children()[-1])
        for nm, p in self.state(I, x.s, ref, v):
            if nm == 'sizes':
                I.assume(p)
            else:
                I.check('on accept of a member: ' + nm, p)
        I.check('the member has a value', REP(ref, v))
        o = I.read(x.s)
        I.write(x.s, I.refresh(o, 'out'))
        n = I.read(x.s)
        for nm, p in self.done(I, o, n, v):
            I.assume(p)
        I.assume(And(n.f['app'].t == o.f['app'].t, n.f['joint'].t == o.f['joint'].t))
        return VOID

    def pre(self, x):
        I = x.I
        ref = x.args[1].base
        return self.state(I, x.s, ref, x.v) + [('kind', KIND(x.v) == self.k), ('the element is an object with value v', And(ref > 0, repr_(I, ref, x.v, REP)))]

    def invariants(self, x):
        return [frame_template, lambda lc: cell_template(x, x.s, x.was(x.s).f['len'].t)(lc)]

    def post(self, x):
        return self.done(x.I, x.was(x.s), x.now(x.s), x.v)

    def modifies(self, x):
        return [x.s]


# ---------------------------------------------------------------- reader
def leafwise(I, key, a0, a1, cond):
    r = z3.Int('r!h')
    ls = list(zip(leaves(a0), leaves(a1)))
    return And([forall([r], Implies(cond(r), S(p, r) == S(q, r)), [S(q, r)]) for p, q in ls])


def is_ptr(I, T):
    return T.get('k') == 'ptr' or T.get('k') == 'rec' and I.rname(T) in PTR_TYPES


def heap_template(x):
    def t(lc):
        I = lc.I
        al = lc.entry.ghost['$alloc'].t if '$alloc' in lc.entry.ghost else None
        refs = []
        for n, lv in lc.vars(lambda v: isinstance(v, (SV, VecV))):
            v = lc.get(lc.entry, lv)
            if isinstance(v, VecV) and lv.kind == 'heap':
                refs.append(lv.base)
            elif isinstance(v, SV) and v.T is not None and is_ptr(I, v.T):
                refs.append(v.t)
        uniq = []
        for r in refs:
            if not any(r.eq(u) for u in uniq):
                uniq.append(r)
        for m in sorted(lc.M, key=str):
            if m[0] != 'heap':
                continue
            key = (m[1], m[2])
            if key not in lc.entry.heap:
                lc.entry.heap[key] = I.heap_init(key, lc.entry)
            a0 = lc.entry.heap[key]
            for i, u in enumerate([None] + uniq):
                def cond(r, u=u):
                    c = [] if al is None else [r < al]
                    return And(c + ([r != u] if u is not None else []))
                yield ('objects other than %s keep %s' % (u, key), lambda st, key=key, a0=a0, cond=cond: leafwise(I, key, a0, st.heap.get(key, a0), cond))
    return t


def read_template(x):
    def t(lc):
        I = lc.I
        v = x.v
        st0 = lc.get(lc.entry, x.s)
        g0 = st0.f['g'].t
        g = lambda st: lc.get(st, x.s).f['g'].t
        j = z3.Int('j!t')
        vecs = lc.vars(lambda u: isinstance(u, VecV))
        al0 = lc.entry.ghost['$alloc'].t if '$alloc' in lc.entry.ghost else IntVal(1)
        for n, lv in lc.vars(lambda u: isinstance(u, SV) and u.T is not None and is_ptr(I, u.T)):
            ref = lc.get(lc.entry, lv).t
            T = I.class_named(REL)
            ft, dc = I.field_decl(T, 'elements')
            vecs.append((n + '->elements', LV('heap', ref, (('hf', dc, 'elements', ft['i']),))))
        for n, p in lc.positions():
            for w in (8, 16):
                yield ('%s items of %d bytes read' % (n, w), lambda st, p=p, w=w: g(st) == g0 + w * p(st))
            yield ('%s member offset' % n, lambda st, p=p: And(g(st) == x.base + OFF(v, p(st))))
            for vn, lv in vecs:
                u0 = lc.get(lc.entry, lv)
                vec = lambda st, lv=lv: lc.get(st, lv)
                yield ('length of %s' % vn, lambda st, p=p, vec=vec: vec(st).len == p(st))
                yield ('length of %s kept' % vn, lambda st, u0=u0, vec=vec: vec(st).len == u0.len)
                if isinstance(u0.el, StV) and 'key' in u0.el.f:
                    yield ('tags read into %s' % vn, lambda st, p=p, vec=vec: forall([j], Implies(rng(j, p(st)), And(S(vec(st).el.f['key'].t, j) == TK(v, j), S(vec(st).el.f['value'].t, j) == TV(v, j))), TK(v, j)))
                elif isinstance(u0.el, StV) and 'latitude' in u0.el.f:
                    yield ('coordinates read into %s' % vn, lambda st, p=p, vec=vec: forall([j], Implies(rng(j, p(st)), And(S(vec(st).el.f['latitude'].t, j) == LA(v, j), S(vec(st).el.f['longitude'].t, j) == LO(v, j))), LA(v, j)))
                elif isinstance(u0.el, SV):
                    def mem(st, p=p, vec=vec):
                        sv, I.st = I.st, st
                        try:
                            ids, al = S_id(I), I.old_alloc()
                            e = S(vec(st).el.t, j)
                            return forall([j], Implies(rng(j, p(st)), And(e >= al0, e < al, ids(e) == MID(v, j), EQ(e, M(v, j)))), M(v, j))
                        finally:
                            I.st = sv
                    yield ('members read into %s' % vn, mem)
    return t


class ReadRec:
    """Contract of the recursive reader: found by recursion, not by name."""

    def __init__(self, x):
        self.x = x

    def concerns(self, I, d):
        RT = I.noref(d['ret'])
        return I.rname(RT) in PTR_TYPES and I.rname(I.targ(RT, 0)) == EL

    def stream(self, I, s, v):
        st = I.read(s)
        return [('stream readable', And(wf(st), st.f['ok'].t)), ('sizes', And(sizes(v))), ('the code of a value is at the position', enc(st, st.f['g'].t, v))]

    def call(self, I, d, this, args):
        x = self.x
        cur = I.st.ghost['$rec'].o
        if cur is None:
            I.st.ghost['$rec'] = PyV(str(d['id']))
            I.check('reading starts where the stream is', I.read(x.s).f['g'].t == x.base)
            x.alloc0 = I.old_alloc()
            I.st.ghost['$mine'] = PyV(Refs(()))
            r = I.inline_body(d, this, args)
            I.check('the element read is a new object', And(r.t > 0, r.t >= x.alloc0))
            for n, p in parts(I, r.t, x.v, EQ):
                I.check('the element read has the value which was written: ' + n, p)
            I.check('the position is behind the code', I.read(x.s).f['g'].t == x.base + LEN(x.v))
            I.assume(EQ(r.t, x.v))
            I.st.ghost['$ret'] = PyV(Refs(I.st.ghost['$ret'].o.refs + (r.t,)))
            return r
        if cur != str(d['id']):
            return I.inline_body(d, this, args)
        # a member
        s0 = I.read(x.s)
        j = z3.Int('j!w')
        g = s0.f['g'].t
        idx = [SV_.t for SV_ in (I.read(lv) for lv in I.frames[-1].vars.values() if lv.kind == 'root') if isinstance(SV_, SV) and SV_.t.sort() == INT and SV_.T and SV_.T.get('k') == 'int']
        for k in idx:
            if I.valid(g == x.base + OFF(x.v, k) + 8):
                break
        else:
            if not I.quiet:
                raise Unsupported('position of a member read')
            k = I.const(Z, 'member')      # loop analysis without invariants; decided by the final pass
            I.assume(And(g == x.base + OFF(x.v, k) + 8, rng(k, NM(x.v))))
        v = M(x.v, k)
        for nm, p in self.stream(I, x.s, v):
            if nm == 'sizes':
                I.assume(p)
            else:
                I.check('member: ' + nm, p)
        I.write(x.s, upd(I.read(x.s), g=s0.f['g'].t + LEN(v), p=I.const(Z, 'p')))
        n = I.read(x.s)
        I.assume(wf(n))
        al = I.old_alloc()
        I.gset('$alloc', SV(I.const(Z, 'alloc'), None))
        r = I.const(Z, 'member')
        I.assume(And(r >= al, r < I.old_alloc()))
        for key in list(x.keys):
            a0 = I.heap_arr(key)
            a1 = I.refresh(a0, 'H%s.' % key[1])
            for w in I.wlog:
                w.add(('heap',) + key)
            I.st.heap[key] = a1
            I.assume(leafwise(I, key, a0, a1, lambda q: q < al))
        I.assume(EQ(r, v))
        I.st.ghost['$ret'] = PyV(Refs(I.st.ghost['$ret'].o.refs + (r,)))
        return SV(r, I.T(d['ret']))


def owned(I, lv, key):
    mine, ret = I.st.ghost['$mine'].o.refs, I.st.ghost['$ret'].o.refs
    b = lv.base
    if any(b.eq(m) for m in mine) or key == ('$', 'tag') or I.st.ghost['$alloc'].t.eq(z3.simplify(b + 1)) or z3.simplify(I.st.ghost['$alloc'].t - b).eq(IntVal(1)):
        return
    if key == (EL, 'id') and any(b.eq(m) for m in ret):
        return
    I.check('only objects of this call (or the id of a returned one) are changed', Or([b == m for m in mine] + ([b == m for m in ret] if key == (EL, 'id') else [])))


class Read(Contract):
    """Reading at the code of v gives an element with value v and the given id, and moves the position behind the code."""

    def __init__(self, k):
        self.k, self.label = k, KINDS[k].split('::')[-1]

    name = 'utymap::index::ElementStream::read'

    def setup(self, x):
        super().setup(x)
        I = x.I
        x.v = z3.Int('v')
        x.s = x.args[0]
        x.base = I.read(x.s).f['g'].t
        I.solver.axioms.append(agree_axiom())
        x.keys = []
        for c, fs in ((EL, ('id', 'tags')), (NODE, ('coordinate',)), (WAY, ('coordinates',)), (AREA, ('coordinates',)), (REL, ('elements',))):
            for f in fs:
                ft, dc = I.field_decl(I.class_named(c), f)
                I.heap_arr((dc, f), ft)
                x.keys.append((dc, f))
        I.get_tag(IntVal(0))
        x.keys.append(('$', 'tag'))

    def ghost(self, x):
        I = x.I
        I.recspec = ReadRec(x)
        I.heap_hook = owned
        I.st.ghost['$rec'] = PyV(None)
        I.st.ghost['$mine'] = PyV(Refs(()))
        I.st.ghost['$ret'] = PyV(Refs(()))

    def pre(self, x):
        s = x.now(x.s)
        return x.I.recspec.stream(x.I, x.s, x.v) + [('kind', KIND(x.v) == self.k), ('definition', unfold(s, x.base, x.v))]

    def invariants(self, x):
        return [frame_template, heap_template(x), read_template(x)]

    def modifies(self, x):
        return [x.s]

    def post(self, x):
        I = x.I
        n = x.now(x.s)
        r = x.ret.t
        return [('the element exists', r > 0)] + [('the element has the value which was written: ' + n, p) for n, p in parts(I, r, x.v, EQ)] + [('it has the given id', S_id(I)(r) == x.arg(1).t),
                ('the position is behind the code', n.f['g'].t == x.base + LEN(x.v)),
                ('the stream content is unchanged', And([n.f[k].t == x.was(x.s).f[k].t for k in ('kind', 'iv', 'rv', 'sv', 'len')]))]


class ReadUnknown(Contract):
    """An unknown type byte is refused with a domain error."""
    name = 'utymap::index::ElementStream::read'
    label = 'unknown type'

    def pre(self, x):
        s = x.now(x.args[0])
        g = s.f['g'].t
        b = S(s.f['iv'].t, g)
        return [('a type byte other than 0..3 (and no white space)', And(wf(s), s.f['ok'].t, S(s.f['kind'].t, g) == 1, Or(b < 0, b > 3), Or(b < 9, b > 13), b != 32))]

    def throws(self, x):
        return BoolVal(True)

    def on_throw(self, x, t):
        return [('it is a domain error', BoolVal(t.cls == 'std::domain_error'))]


INSTALL = streams.install
CONTRACTS = [Write(k) for k in range(4)] + [Read(k) for k in range(4)] + [ReadUnknown(), EncLocal(), Offsets()]

# ---------------------------------------------------------------- meshes
MTU = '@core/src/index/MeshStream.cpp'
LISTS = [('vertices', True), ('triangles', False), ('colors', False), ('uvs', True), ('uvMap', False)]
MN = fn('MN', Z, Z)
MI = fn('MI', Z, Z, Z)
MR = fn('MR', Z, Z, R)
F32 = fn('f32', R, R)


def mname(I):
    return z3.Const('mesh.name', I.Str)


def mstart(I, b, i):
    p = b + strlen(I, mname(I)) + 1
    for k in range(i):
        p = p + 4 + 4 * MN(k)
    return p


def mcells(I, s, b, upto=5):
    j = z3.Int('j!m')
    k, i, r = arrs(s)
    out = [And(S(k, b) == 201, S(s.f['sv'].t, b) == mname(I))]
    for n, (nm, real) in list(enumerate(LISTS))[:upto]:
        p = mstart(I, b, n)
        cell = And(S(k, p + 4 + 4 * j) == 104, S(r, p + 4 + 4 * j) == F32(MR(n, j))) if real else And(S(k, p + 4 + 4 * j) == 54, S(i, p + 4 + 4 * j) == MI(n, j))
        out.append(And(S(k, p) == 4, S(i, p) == MN(n), forall([j], Implies(rng(j, MN(n)), cell), MR(n, j) if real else MI(n, j))))
    return out


def msizes(I):
    j = z3.Int('j!z')
    out = [strlen(I, mname(I)) >= 0]
    for n, (nm, real) in enumerate(LISTS):
        out.append(And(MN(n) >= 0, MN(n) < 2 ** 32))
        if not real:
            out.append(forall([j], And(MI(n, j) >= -2 ** 31, MI(n, j) < 2 ** 31), MI(n, j)))
    return And(out)


def mesh_is(I, m, f32):
    j = z3.Int('j!m')
    out = [('name', m.f['name'].t == mname(I))]
    for n, (nm, real) in enumerate(LISTS):
        v = m.f[nm]
        val = (F32(MR(n, j)) if f32 else MR(n, j)) if real else MI(n, j)
        out.append((nm, And(v.len == MN(n), forall([j], Implies(rng(j, MN(n)), S(v.el.t, j) == val), MR(n, j) if real else MI(n, j)))))
    return out


class MeshWrite(Contract):
    name = 'utymap::index::MeshStream::write'
    tu = MTU

    def pre(self, x):
        I = x.I
        s, m = x.now(x.args[0]), x.now(x.args[1])
        return [('stream at its end', And(wf(s), s.f['ok'].t, s.f['p'].t == s.f['len'].t, s.f['open'].t == -1)), ('sizes', msizes(I)),
                ('value', And([p for _, p in mesh_is(I, m, False)]))]

    def modifies(self, x):
        return [x.args[0]]

    def invariants(self, x):
        I = x.I

        def t(lc):
            s0 = lc.get(lc.entry, x.args[0])
            L0 = s0.f['len'].t
            cur = lambda st: lc.get(st, x.args[0])
            j = z3.Int('j!t')
            yield ('cells written before the loop are kept', lambda st: And(agree(s0, cur(st), 0, L0), cur(st).f['len'].t >= L0))
            yield ('strings are kept', lambda st: cur(st).f['sv'].t == s0.f['sv'].t)
            yield ('the stream stays at its end', lambda st: And(wf(cur(st)), cur(st).f['p'].t == cur(st).f['len'].t))
            for n, p in lc.positions():
                yield ('%s items' % n, lambda st, p=p: cur(st).f['len'].t == L0 + 4 * p(st))
                for k, (nm, real) in enumerate(LISTS):
                    def c(st, p=p, k=k, real=real):
                        a = arrs(cur(st))
                        cell = And(S(a[0], L0 + 4 * j) == 104, S(a[2], L0 + 4 * j) == F32(MR(k, j))) if real else And(S(a[0], L0 + 4 * j) == 54, S(a[1], L0 + 4 * j) == MI(k, j))
                        return forall([j], Implies(rng(j, p(st)), cell), MR(k, j) if real else MI(k, j))
                    yield ('%s written' % nm, c)
        return [frame_template, t]

    def post(self, x):
        I = x.I
        o, n = x.was(x.args[0]), x.now(x.args[0])
        b = o.f['len'].t
        return [('cells: ' + nm, p) for nm, p in zip(['name'] + [l[0] for l in LISTS], mcells(I, n, b))] + [
            ('nothing before changes', agree(o, n, 0, b)),
            ('the stream ends behind the mesh', And(wf(n), n.f['len'].t == mstart(I, b, 5), n.f['p'].t == n.f['len'].t, n.f['ok'].t))]


class MeshRead(Contract):
    name = 'utymap::index::MeshStream::read'
    tu = MTU

    def pre(self, x):
        I = x.I
        s = x.now(x.args[0])
        return [('stream', And(wf(s), s.f['ok'].t)), ('sizes', msizes(I)), ('cells', And(mcells(I, s, s.f['g'].t) + [mstart(I, s.f['g'].t, 5) <= s.f['len'].t]))]

    def modifies(self, x):
        return [x.args[0]]

    def invariants(self, x):
        def t(lc):
            s0 = lc.get(lc.entry, x.args[0])
            g0 = s0.f['g'].t
            j = z3.Int('j!t')
            vecs = lc.vars(lambda u: isinstance(u, VecV) and isinstance(u.el, SV))
            for n, p in lc.positions():
                yield ('%s position' % n, lambda st, p=p: lc.get(st, x.args[0]).f['g'].t == g0 + 4 * p(st))
                for vn, lv in vecs:
                    v0 = lc.get(lc.entry, lv)
                    yield ('%s length kept' % vn, lambda st, lv=lv, v0=v0: lc.get(st, lv).len == v0.len)
                    yield ('%s length' % vn, lambda st, lv=lv, p=p: lc.get(st, lv).len == p(st))
                    for k, (nm, real) in enumerate(LISTS):
                        if real != (v0.el.t.sort().range() == R):
                            continue
                        yield ('%s read into %s' % (nm, vn), lambda st, lv=lv, p=p, k=k, real=real: forall(
                            [j], Implies(rng(j, p(st)), S(lc.get(st, lv).el.t, j) == (F32(MR(k, j)) if real else MI(k, j))), MR(k, j) if real else MI(k, j)))
        return [frame_template, t]

    def post(self, x):
        I = x.I
        o, n = x.was(x.args[0]), x.now(x.args[0])
        return [('mesh ' + nm, p) for nm, p in mesh_is(I, x.ret, True)] + [('the position is behind the mesh', n.f['g'].t == mstart(I, o.f['g'].t, 5))]


CONTRACTS += [MeshWrite(), MeshRead()]
HARNESS = {'src': 'c06.cpp', 'repo': ['src/index/ElementStream.cpp', 'src/index/MeshStream.cpp', 'src/index/StringTable.cpp', 'lib/hashing/MurmurHash3.cpp']}

"""Symbolic execution of the extracted AST: one function at a time, callees by contract (or inlined when they have
none), loops cut by invariants (Houdini over templates) or fully unrolled under an unwinding obligation."""
import z3, sys, time, re
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal
from .core import *
from . import core as core_
from .front import strip_targs

sys.setrecursionlimit(20000)
MAXLEN = 2 ** 48

STD_ALIAS = {'std::__cxx11::basic_string': 'std::basic_string', 'std::__cxx11::list': 'std::list'}
VEC_TYPES = {'std::vector', 'std::deque', 'std::list', 'std::initializer_list', 'std::array', 'std::__cxx11::list'}
MAP_TYPES = {'std::map', 'std::unordered_map', 'std::multimap'}
SET_TYPES = {'std::set', 'std::unordered_set'}
PTR_TYPES = {'std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr'}


class Cfg:
    def __init__(self, **k):
        self.dbl = 'real'          # real | fp
        self.strs = 'vec'          # vec | opaque
        self.overflow = False      # emit signed-overflow obligations
        self.bounds = True         # emit index-in-bounds obligations
        self.unroll = 0
        self.merge = True
        self.max_paths = 4000
        self.timeout = 10000
        self.cvc5 = 10000
        self.htimeout = 2000       # Houdini queries
        self.qfcand = 0            # ms for quantifier-free candidates with quantified facts (0: htimeout)
        self.ftimeout = 1000       # path feasibility queries
        self.deadline = None
        self.inline_depth = 40
        self.__dict__.update(k)


_quant = {}


def has_quant(t):
    k = t.get_id()
    r = _quant.get(k)
    if r is None:
        r = z3.is_quantifier(t) or any(has_quant(c) for c in t.children())
        _quant[k] = r
        _quant['keep', k] = t
    return r


class Frame:
    def __init__(self, fn, this=None):
        self.fn, self.this, self.vars, self.closure = fn, this, {}, None
        self.names = {}

    def copy(self):
        f = Frame(self.fn, self.this)
        f.vars, f.names, f.closure = dict(self.vars), dict(self.names), self.closure
        return f


class Ctx:
    def __init__(self, prefix, base):
        self.prefix, self.taken, self.base, self.new = prefix, [], base, []
        self.nchk = 0

    def key(self):
        return self.base + tuple(self.taken)


class Closure:
    def __init__(self, rid, caps, this):
        self.rid, self.caps, self.this = rid, caps, this

    def pyeq(self, o):
        return isinstance(o, Closure) and o.rid == self.rid and set(o.caps) == set(self.caps) and \
            all(pyeq(o.caps[k], self.caps[k]) for k in self.caps) and (o.this is self.this or pyeq(self.this, o.this))


class PyFn:
    """A spec-provided callable standing for an unknown functor."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def pyeq(self, o):
        return isinstance(o, PyFn) and o.fn is self.fn


class FnRef:
    def __init__(self, f):
        self.f = f

    def pyeq(self, o):
        return isinstance(o, FnRef) and o.f['id'] == self.f['id']


class Refs:
    """Objects allocated by the activation under verification (path-local)."""

    def __init__(self, refs):
        self.refs = refs

    def pyeq(self, o):
        return isinstance(o, Refs) and len(o.refs) == len(self.refs) and all(a.eq(b) for a, b in zip(self.refs, o.refs))


class Obl:
    def __init__(self, name, status, backend, t, model=None, path=None, fn=None):
        self.name, self.status, self.backend, self.time, self.model, self.path, self.fn = name, status, backend, t, model, path, fn


class Interp:
    def __init__(self, module, cfg=None, solver=None):
        from . import lib
        self.m = module
        self.cfg = cfg or Cfg()
        self.solver = solver or Solver()
        self.lib = lib.REG
        core_.ISOLATE[0] = bool(getattr(self.cfg, 'isolate', False))
        if getattr(self.cfg, 'portfolio', False):
            self.solver.portfolio = True
        self.extra = {}            # name -> model fn(I, call)   (spec-specific trusted models)
        self.contracts = {}        # qualified name -> Contract
        self.templates = []        # loop-invariant templates
        self.obls = []
        self.oblkeys = {}
        self.loopcache = {}
        self.st = State()
        self.frames = []
        self.ctx = Ctx((), ())
        self.nofork = 0
        self.quiet = 0
        self.pending = None
        self.wlog = []
        self.assumptions = set()
        self.inlined = set()
        self.applied = set()
        self.libused = set()
        self.strlits = {}
        self.current = None
        self.invlog = []
        self.wonly, self.dropped = 0, set()
        self.tags = {}
        self.virt = {}             # name -> handler for virtual/unknown calls
        self.Str = z3.DeclareSort('Str')
        self.field_types = {}
        self.npaths = 0
        self.salt = None
        self.rounds = 0
        self.heap_hook = None      # called before every heap write
        self.recspec = None        # contract of the recursive functions reached by inlining

    # ------------------------------------------------------------ types
    def T(self, i):
        return i if isinstance(i, dict) else self.m.types[i]

    def noref(self, T):
        T = self.T(T)
        while T['k'] == 'ref':
            T = self.T(T['to'])
        return T

    def rname(self, T):
        T = self.noref(T)
        if T['k'] != 'rec':
            return None
        n = STD_ALIAS.get(T['n'], T['n'])
        return n

    def targ(self, T, i):
        return self.T(self.noref(T)['args'][i]['t'])

    def is_own(self, T):
        T = self.noref(T)
        return T['k'] == 'rec' and T.get('own') and not T.get('lambda')

    def rec_fields(self, T):
        """[(name, type, declaring class name)] bases first."""
        T = self.noref(T)
        r = self.m.records.get(T['rid'])
        if r is None:
            raise Unsupported('no definition of ' + T['n'])
        out = []
        for b in r['bases']:
            if self.is_own(b):
                out += self.rec_fields(b)
        for f in r['fields']:
            out.append((f['n'], self.T(f['t']), r['n'], f))
        return out

    def class_named(self, name):
        r = self.m.recbyname.get(name) or self.m.recbyname.get(name + '#')
        if r is None:
            raise Unsupported('class %s not found in the extracted sources' % name)
        return self.T(r['ty'])

    def dsort(self):
        return REAL if self.cfg.dbl == 'real' else FP

    def scalar_sort(self, T):
        k = T['k']
        if k in ('int', 'enum', 'ptr', 'nullptr'):
            return INT
        if k == 'bool':
            return BOOL
        if k == 'float':
            if self.cfg.dbl == 'real':
                return REAL
            return FP if T['w'] == 64 else z3.Float32()
        return None

    def name(self, base):
        self.st.ctr += 1
        return '%s!%d' % (base, self.st.ctr)

    def const(self, sort, base='c'):
        return z3.Const(self.name(base), sort)

    def fresh(self, T, name='v', lift=(), exact=False):
        """Fresh value of type T. The name is used as is when exact (initial heap), else made unique."""
        T = self.noref(T) if T['k'] != 'ref' else T
        nm = name if exact else self.name(name)
        v = self._fresh(T, nm, tuple(lift))
        if not lift:
            self.assume_range(v)
        return v

    def _fresh(self, T, nm, lift, depth=0):
        T = self.T(T)
        if T['k'] == 'ref':
            return SV(z3.Const(nm, lift_sort(INT, lift)), T)
        s = self.scalar_sort(T)
        if s is not None:
            return SV(z3.Const(nm, lift_sort(s, lift)), T)
        if T['k'] == 'array':
            return VecV(z3.Const(nm + '.len', lift_sort(INT, lift)), self._fresh(self.T(T['of']), nm + '.el', lift + (INT,)), 'array')
        if T['k'] == 'rec':
            n = self.rname(T)
            h = getattr(self, 'opaque_types', {}).get(n)
            if h is not None:
                return h(self, T, nm, lift)
            if n == 'std::basic_string':
                if self.cfg.strs == 'opaque':
                    return SV(z3.Const(nm, lift_sort(self.Str, lift)), T)
                el = self._fresh(self.chartype(), nm + '.el', lift + (INT,))
                return VecV(z3.Const(nm + '.len', lift_sort(INT, lift)), el, 'str')
            if n in VEC_TYPES:
                return VecV(z3.Const(nm + '.len', lift_sort(INT, lift)),
                            self._fresh(self.targ(T, 0), nm + '.el', lift + (INT,)), 'vec')
            if n in MAP_TYPES or n in SET_TYPES:
                ks = self.key_sort(self.targ(T, 0))
                val = self._fresh(self.targ(T, 1), nm + '.val', lift + (ks,)) if n in MAP_TYPES else None
                return MapV(z3.Const(nm + '.has', lift_sort(z3.ArraySort(ks, BOOL), lift)), val,
                            z3.Const(nm + '.size', lift_sort(INT, lift)), ks, T)
            if n in PTR_TYPES:
                return SV(z3.Const(nm, lift_sort(INT, lift)), T)
            if n == 'std::pair':
                return StV('std::pair', {'first': self._fresh(self.targ(T, 0), nm + '.1', lift),
                                         'second': self._fresh(self.targ(T, 1), nm + '.2', lift)})
            if n == 'std::tuple':
                return StV('std::tuple', {'e%d' % i: self._fresh(self.targ(T, i), nm + '.%d' % i, lift) for i in range(len(T['args']))})
            if self.is_own(T) and depth < 6:
                return StV(T['n'], {f: self._fresh(ft, nm + '.' + f, lift, depth + 1) for f, ft, c, _ in self.rec_fields(T)})
        return SV(z3.Const(nm, lift_sort(INT, lift)), {'k': 'opaque', 's': T.get('s')})

    def chartype(self):
        for t in self.m.types:
            if t['k'] == 'int' and t.get('ch') and t['s'] == 'char':
                return t
        return {'k': 'int', 'w': 8, 'sg': True, 'ch': True, 's': 'char', 'i': -1}

    def key_sort(self, T):
        v = self._fresh(self.noref(T), 'k!', ())
        ls = leaves(v)
        if len(ls) == 1:
            return ls[0].sort()
        return tuple_sort([x.sort() for x in ls])

    def key_like(self, T):
        return self._fresh(self.noref(T), 'k!', ())

    def assume_range(self, v):
        """Type invariants of C++ values: machine-integer ranges, non-negative lengths."""
        for c in self.range_of(v):
            self.fact(c)

    def range_of(self, v):
        out = []
        if isinstance(v, SV):
            T = v.T
            if T is not None and T.get('k') == 'enum':
                T = self.T(T['u'])
            if T is not None and T.get('k') == 'int' and v.t.sort() == INT and not z3.is_int_value(v.t):
                lo, hi = self.irange(T)
                out.append(And(v.t >= lo, v.t <= hi))
            elif T is not None and T.get('k') in ('ptr', 'ref') and v.t.sort() == INT and not z3.is_int_value(v.t):
                out.append(v.t > 0 if T.get('k') == 'ref' else v.t >= 0)
        elif isinstance(v, StV):
            for x in v.f.values():
                out += self.range_of(x)
        elif isinstance(v, VecV):
            if v.len.sort() == INT and not z3.is_int_value(v.len):
                out.append(And(v.len >= 0, v.len <= MAXLEN))
        elif isinstance(v, MapV):
            if v.size.sort() == INT and not z3.is_int_value(v.size):
                out.append(And(v.size >= 0, v.size <= MAXLEN))
        return out

    def irange(self, T):
        if T['k'] == 'enum':
            T = self.T(T['u'])
        w = T['w']
        return (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if T['sg'] else (0, 2 ** w - 1)

    # ------------------------------------------------------------ facts, obligations
    def fact(self, c):
        k = c.get_id()
        if k in self.st.facts:
            return
        self.st.facts.add(k)
        self.st.pc.append(c)

    def assume(self, c):
        if isinstance(c, bool):
            c = BoolVal(c)
        if z3.is_true(c):
            return
        self.st.pc.append(c)

    def check(self, name, goal):
        """Proof obligation: must hold on the current path. Assumed afterwards."""
        if isinstance(goal, bool):
            goal = BoolVal(goal)
        if self.quiet:
            self.assume(goal)
            return
        if self.nofork:
            self.pending.append((name, list(self.st.pc), goal))
            self.assume(goal)
            return
        self.discharge(name, list(self.st.pc), goal)
        self.assume(goal)

    def discharge(self, name, pc, goal):
        self.ctx.nchk += 1
        key = (self.ctx.key(), name, self.ctx.nchk)
        if key in self.oblkeys:
            return
        if self.cfg.deadline and time.time() > self.cfg.deadline:
            self.obls.append(Obl(name, 'unknown', 'deadline', 0, None, self.ctx.key(), self.current))
            self.oblkeys[key] = True
            raise Unsupported('time budget of the check exhausted')
        t0 = time.time()
        st, be, model = self.solver.valid(pc, goal, self.cfg.timeout, self.cfg.cvc5)
        o = Obl(name, st, be, time.time() - t0, model, self.ctx.key(), self.current)
        if st != 'proved':
            o.goal = goal
        self.obls.append(o)
        self.oblkeys[key] = True

    def using(self, name, hyps, goal, pick=(), general=(), about=None):
        """Obligation hyps => goal from the listed facts only; each picked fact is one of the current path facts.
        general: subterms replaced by arbitrary values (a stronger obligation); about(vars): facts proved of these subterms first."""
        ids = {c.get_id() for c in self.st.pc}
        for f in self.st.pc:
            if z3.is_and(f):
                ids |= {c.get_id() for c in f.children()}
        for p in pick:
            if p.get_id() not in ids:
                raise Unsupported('picked fact is not on the path: %s' % name)
        if self.quiet:
            return
        fs = list(hyps) + list(pick)
        if general:
            vs = [z3.Const('gen!%d' % i, t.sort()) for i, t in enumerate(general)]
            sub = list(zip(general, vs))
            fs = [z3.substitute(f, *sub) for f in fs]
            goal = z3.substitute(goal, *sub)
            if about is not None:
                key = ('about', tuple(t.get_id() for t in general))
                if key not in self.oblkeys:
                    self.oblkeys[key] = general
                    self.discharge(name + ': generalised facts', [], about(general))
                fs.append(about(vs))
        self.discharge(name, fs, goal)

    def valid(self, goal, timeout=None):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        tmo = timeout or self.cfg.htimeout
        if self.cfg.qfcand and not has_quant(g):
            # candidates about positions rarely need quantified facts: do not spend the whole time on a model search
            qf = [p for p in self.st.pc if not has_quant(p)]
            r = self.solver.valid(qf, goal, tmo, axioms=False)[0]
            if r == 'proved':
                return True
            tmo = min(tmo, self.cfg.qfcand)
            s = self.solver._mk(self.st.pc, tmo, True)
            s.add(Not(goal))
            return core_.run_check(s) == z3.unsat
        return self.solver.valid(self.st.pc, goal, tmo)[0] == 'proved'

    def feasible(self, c=None, timeout=None):
        timeout = timeout or self.cfg.ftimeout
        if c is not None:
            c = z3.simplify(c)
            if z3.is_false(c):
                return False
        return self.solver.sat(self.st.pc + ([c] if c is not None else []), timeout) != 'unsat'

    # ------------------------------------------------------------ path exploration
    def choose(self, conds):
        """Splits on the alternatives; returns the index taken on this path (its condition is assumed)."""
        sc = [z3.simplify(c) for c in conds]
        live = [i for i, c in enumerate(sc) if not z3.is_false(c)]
        if len(live) == 1:
            self.assume(sc[live[0]])
            return live[0]
        for i in live:
            if z3.is_true(sc[i]):
                return i
        if self.nofork:
            raise NeedFork('choose')
        c = self.ctx
        if len(c.taken) < len(c.prefix):
            i = c.prefix[len(c.taken)]
        else:
            ok = [i for i in live if self.feasible(sc[i])]
            if not ok:
                raise PathEnd()
            i = ok[0]
            for j in ok[1:]:
                c.new.append(tuple(c.taken) + (j,))
        c.taken.append(i)
        self.assume(sc[i])
        return i

    def explore(self, fn, state):
        """Runs fn on every feasible path from state. Yields (result, final state)."""
        saved = (self.ctx, self.st, self.nofork, self.frames, self.pending)
        base = self.ctx.key() + ('|%d' % self.ctx.nchk,) + ((self.salt,) if self.salt else ())
        work, out, n = [()], [], 0
        try:
            while work:
                n += 1
                if n > self.cfg.max_paths:
                    raise Unsupported('more than %d paths' % self.cfg.max_paths)
                if self.cfg.deadline and time.time() > self.cfg.deadline:
                    raise Unsupported('time budget of the check exhausted')
                self.ctx = Ctx(work.pop(), base)
                self.st = state.copy()
                self.nofork, self.pending = 0, None
                self.frames = [f.copy() for f in saved[3]]
                try:
                    r = fn()
                    out.append((r, self.st))
                except PathEnd:
                    pass
                work += self.ctx.new
        finally:
            self.ctx, self.st, self.nofork, self.frames, self.pending = saved
        self.npaths += n
        return out

    def branch(self, c, fa, fb):
        c = z3.simplify(c)
        if z3.is_true(c):
            return fa()
        if z3.is_false(c):
            return fb()
        if self.cfg.merge:
            base = self.st.copy()
            sp = self.pending
            nfr = len(self.frames)
            fvars = self.frames[-1].copy() if self.frames else None
            wl = [set(w) for w in self.wlog]
            self.nofork += 1
            self.pending = []
            ok = False
            try:
                self.st = base.copy()
                self.st.pc.append(c)
                ra = fa()
                sa = self.st
                self.st = base.copy()
                self.st.ctr = sa.ctr
                self.st.pc.append(Not(c))
                rb = fb()
                sb = self.st
                r, m = self.merge(c, base, sa, sb, ra, rb)
                ok = True
            except (NeedFork, Abrupt):
                pass
            finally:
                self.nofork -= 1
                mine, self.pending = self.pending, sp
                if not ok:
                    self.st = base
                    del self.frames[nfr:]
                    if fvars is not None:
                        self.frames[-1] = fvars
            if ok:
                self.st = m
                if self.nofork:
                    self.pending += mine
                else:
                    for (nm, pc, g) in mine:
                        self.discharge(nm, pc, g)
                return r
        i = self.choose([c, Not(c)])
        return fa() if i == 0 else fb()

    def merge(self, c, base, sa, sb, ra, rb):
        if isinstance(ra, LV) or isinstance(rb, LV):
            if not (isinstance(ra, LV) and isinstance(rb, LV)):
                raise NeedFork('lv')
            r = self.merge_lv(c, ra, rb)
        elif ra is None or rb is None:
            if ra is not rb:
                raise NeedFork('none')
            r = None
        else:
            r = ite(c, ra, rb)
        m = base.copy()
        m.ctr = max(sa.ctr, sb.ctr)
        for k in set(sa.roots) | set(sb.roots):
            if k in sa.roots and k in sb.roots:
                m.roots[k] = sa.roots[k] if sa.roots[k] is sb.roots[k] else ite(c, sa.roots[k], sb.roots[k])
            else:
                m.roots[k] = sa.roots.get(k) if k in sa.roots else sb.roots[k]
        for k in set(sa.heap) | set(sb.heap):
            if k in sa.heap and k in sb.heap:
                m.heap[k] = sa.heap[k] if sa.heap[k] is sb.heap[k] else ite(c, sa.heap[k], sb.heap[k])
            else:
                s, o = (sa, sb) if k in sa.heap else (sb, sa)
                init = self.heap_init(k, o)
                m.heap[k] = ite(c, s.heap[k], init) if s is sa else ite(c, init, s.heap[k])
        for k in set(sa.ghost) | set(sb.ghost):
            if k in sa.ghost and k in sb.ghost:
                m.ghost[k] = sa.ghost[k] if sa.ghost[k] is sb.ghost[k] else ite(c, sa.ghost[k], sb.ghost[k])
            else:
                raise NeedFork('ghost')
        if sa.epoch != sb.epoch:
            raise NeedFork('epoch')
        n = len(base.pc)
        for f in sa.pc[n + 1:]:
            m.pc.append(Implies(c, f))
        for f in sb.pc[n + 1:]:
            m.pc.append(Implies(Not(c), f))
        return r, m

    def merge_lv(self, c, a, b):
        if a.same(b):
            return a
        if a.kind == 'heap' and b.kind == 'heap' and len(a.path) == len(b.path):
            x = LV('heap', a.base, a.path)
            y = LV('heap', a.base, b.path)
            if x.same(y):
                return LV('heap', If(c, a.base, b.base), a.path)
        if a.kind == b.kind and len(a.path) == len(b.path) and a.path and a.path[-1][0] == 'i' and b.path[-1][0] == 'i':
            x, y = LV(a.kind, a.base, a.path[:-1]), LV(b.kind, b.base, b.path[:-1])
            if x.same(y):
                return x + ('i', If(c, a.path[-1][1], b.path[-1][1]))
        raise NeedFork('lv')

    # ------------------------------------------------------------ memory
    def new_root(self, v):
        self.st.ctr += 1
        rid = 'r%d' % self.st.ctr
        self.st.roots[rid] = v
        return LV('root', rid)

    def heap_init(self, key, st=None):
        st = st or self.st
        T = self.field_types[key]
        return self._fresh(T, 'H%d:%s.%s' % (st.epoch.get(key, 0), key[0], key[1]), (INT,))

    def heap_arr(self, key, T=None):
        if T is not None:
            self.field_types.setdefault(key, T)
        if key not in self.st.heap:
            self.st.heap[key] = self.heap_init(key)
        return self.st.heap[key]

    def field_decl(self, T, fname):
        for f, ft, cls, node in self.rec_fields(T):
            if f == fname:
                return ft, cls
        raise Unsupported('no field %s in %s' % (fname, T['n']))

    def read(self, lv, T=None):
        if lv.kind == 'root':
            v = self.st.roots[lv.base]
            return self._nav(v, lv.path)
        if lv.kind == 'global':
            return self.read_global(lv)
        if not lv.path:
            T = self.noref(T)
            if not self.is_own(T):
                raise Unsupported('whole-object heap read of %s' % T.get('s'))
            return StV(T['n'], {f: self.read(lv + ('hf', cls, f, ft['i'])) for f, ft, cls, _ in self.rec_fields(T)})
        c = lv.path[0]
        arr = self.heap_arr((c[1], c[2]), self.T(c[3]))
        v = select(arr, lv.base)
        self.assume_range(v)
        return self._nav(v, lv.path[1:])

    def _nav(self, v, path):
        for c in path:
            if c[0] == 'f':
                if not isinstance(v, StV):
                    raise Unsupported('field %s of %r' % (c[1], v))
                v = v.f[c[1]]
            elif c[0] == 'i':
                v = select(v.el, c[1])
                self.assume_range(v)
            elif c[0] == 'k':
                v = select(v.val, c[1])
                self.assume_range(v)
            elif c[0] == 'me':
                K = self.key_like(self.targ(v.T, 0))
                kv = dec(c[1], K)
                if v.val is None:
                    v = kv
                else:
                    x = select(v.val, c[1])
                    self.assume_range(x)
                    self.assume_range(kv)
                    v = StV('std::pair', {'first': kv, 'second': x})
            else:
                raise Unsupported('path %r' % (c,))
        return v

    def write(self, lv, x):
        if lv.kind == 'global':
            raise Unsupported('write to a global')
        for w in self.wlog:
            if lv.kind == 'root':
                p = []
                for c in lv.path:
                    if c[0] != 'f':
                        break
                    p.append(c[1])
                w.add(('root', lv.base, tuple(p)))
            elif lv.path:
                w.add(('heap', lv.path[0][1], lv.path[0][2]))
        if lv.kind == 'root':
            self.st.roots[lv.base] = self._upd(self.st.roots.get(lv.base), lv.path, x)
            return
        if not lv.path:
            if not isinstance(x, StV):
                raise Unsupported('whole-object heap write')
            T = self.class_named(x.cls)
            for f, ft, cls, _ in self.rec_fields(T):
                self.write(lv + ('hf', cls, f, ft['i']), x.f[f])
            return
        c = lv.path[0]
        key = (c[1], c[2])
        if self.heap_hook is not None:
            self.heap_hook(self, lv, key)
        arr = self.heap_arr(key, self.T(c[3]))
        old = select(arr, lv.base) if len(lv.path) > 1 else None
        nv = self._upd(old, lv.path[1:], x)
        self.st.heap[key] = store(arr, lv.base, nv)

    def _upd(self, v, path, x):
        if not path:
            return x
        c, rest = path[0], path[1:]
        if c[0] == 'f':
            if not isinstance(v, StV):
                raise Unsupported('field write into %r' % (v,))
            f = dict(v.f)
            f[c[1]] = self._upd(f.get(c[1]), rest, x)
            return StV(v.cls, f)
        if c[0] == 'i':
            y = self._upd(select(v.el, c[1]), rest, x) if rest else x
            return VecV(v.len, store(v.el, c[1], y), v.kind)
        if c[0] == 'k':
            y = self._upd(select(v.val, c[1]), rest, x) if rest else x
            return MapV(v.has, store(v.val, c[1], y), v.size, v.ks, v.T)
        if c[0] == 'me':
            if rest and rest[0] == ('f', 'second'):
                return self._upd(v, (('k', c[1]),) + tuple(rest[1:]), x)
        raise Unsupported('write path %r' % (path,))

    def field_lv(self, lv, T, fname, declcls=None):
        """LV of a field given the LV of its object (T: static class type)."""
        if lv.kind == 'heap' and not lv.path:
            ft, cls = self.field_decl(T, fname)
            if declcls:
                cls = declcls
            return lv + ('hf', cls, fname, ft['i'])
        return lv + ('f', fname)

    def deref(self, v, T):
        """LV designated by pointer value v; T: pointee type (None: v is an iterator)."""
        if T is not None:
            T = self.noref(T)
        elif isinstance(v, SV):
            raise Unsupported('range of pointers in an algorithm')
        if isinstance(v, PyV):
            if isinstance(v.o, LV):
                return v.o
            raise Unsupported('deref of %r' % (v,))
        if isinstance(v, ItV):
            if v.kind == 'vec':
                return v.cont + ('i', v.pos)
            if v.kind == 'map':
                return v.cont + ('me', v.pos)
            h = getattr(self, 'node_deref', None)
            if h:
                return h(self, v, T)
            raise Unsupported('deref iterator')
        if isinstance(v, SV):
            if self.cfg.bounds:
                self.check('non-null pointer dereference', v.t != 0)
            if self.is_own(T):
                return LV('heap', v.t)
            return LV('heap', v.t, (('hf', '$val', T['s'].replace('const ', ''), T['i']),))
        if isinstance(v, VecV):
            raise Unsupported('deref of array value')
        raise Unsupported('deref %r' % (v,))

    def alloc(self, T, v):
        """Allocates a heap object initialised with v; returns its reference value."""
        g = self.st.ghost
        if '$alloc' not in g:
            g['$alloc'] = SV(z3.Int('alloc0'), None)
            self.fact(g['$alloc'].t > 0)
        for w in self.wlog:
            w.add(('ghost', '$alloc'))
        a = g['$alloc'].t
        g['$alloc'] = SV(a + 1, None)
        T = self.noref(T)
        if '$mine' in g:
            g['$mine'] = PyV(Refs(g['$mine'].o.refs + (a,)))
        if self.is_own(T):
            lv = LV('heap', a)
            if not isinstance(v, StV):
                raise Unsupported('alloc of %r' % (v,))
            for f, ft, cls, _ in self.rec_fields(T):
                self.write(lv + ('hf', cls, f, ft['i']), self.lift_ok(v.f[f]))
            self.set_tag(a, T['n'])
        else:
            self.write(LV('heap', a, (('hf', '$val', T['s'].replace('const ', ''), T['i']),)), self.lift_ok(v))
        return SV(a, {'k': 'ptr'})

    def lift_ok(self, v):
        if isinstance(v, PyV):
            raise Unsupported('python-level value stored in heap: %r' % (v,))
        return v

    def old_alloc(self):
        g = self.st.ghost
        if '$alloc' not in g:
            g['$alloc'] = SV(z3.Int('alloc0'), None)
            self.fact(g['$alloc'].t > 0)
        return g['$alloc'].t

    def tag_of(self, cls):
        return self.tags.setdefault(cls, len(self.tags) + 1)

    def set_tag(self, ref, cls):
        key = ('$', 'tag')
        self.field_types[key] = {'k': 'int', 'w': 32, 'sg': True, 's': 'int', 'i': -2}
        arr = self.heap_arr(key)
        for w in self.wlog:
            w.add(('heap',) + key)
        self.st.heap[key] = SV(z3.Store(arr.t, ref, self.tag_of(cls)), arr.T)

    def get_tag(self, ref):
        key = ('$', 'tag')
        self.field_types[key] = {'k': 'int', 'w': 32, 'sg': True, 's': 'int', 'i': -2}
        return z3.Select(self.heap_arr(key).t, ref)

    # ------------------------------------------------------------ ghosts
    def gget(self, name):
        return self.st.ghost[name]

    def gset(self, name, v):
        for w in self.wlog:
            w.add(('ghost', name))
        self.st.ghost[name] = v

    # ------------------------------------------------------------ havoc
    def refresh(self, v, nm='h'):
        def f(t):
            return z3.Const(self.name(nm), t.sort())
        nv = vmap(f, v)
        self.assume_range(nv)
        return nv

    def havoc(self, M):
        for k in sorted(M, key=str):
            if k[0] == 'root':
                if k[1] not in self.st.roots:
                    continue
                lv = LV('root', k[1], tuple(('f', x) for x in k[2]))
                self.st.roots[k[1]] = self._upd(self.st.roots[k[1]], lv.path, self.refresh(self.read(lv), 'h'))
            elif k[0] == 'heap':
                key = (k[1], k[2])
                self.st.heap[key] = self.refresh(self.heap_arr(key), 'H%s.' % k[2])
            elif k[0] == 'ghost':
                if k[1] in self.st.ghost:
                    old = self.st.ghost[k[1]]
                    self.st.ghost[k[1]] = self.refresh(old, 'g' + k[1])
                    if k[1] == '$alloc':
                        self.assume(self.st.ghost[k[1]].t >= old.t)

    # ------------------------------------------------------------ statements
    def block(self, ss):
        for s in ss:
            self.exec(s)

    def exec(self, s):
        if s is None:
            return
        k = s['s']
        getattr(self, 's_' + k, self.s_unsupported)(s)

    def s_unsupported(self, s):
        raise Unsupported('statement %s (line %s)' % (s.get('cls', s['s']), s.get('l')))

    def s_null(self, s):
        pass

    def s_expr(self, s):
        if s['e'] is not None:
            self.ev(s['e'])

    def s_block(self, s):
        self.block(s['b'])

    def declare(self, d):
        T = self.T(d['t'])
        fr = self.frames[-1]
        if d.get('static') and not (T.get('c') and T['k'] != 'ref' and d.get('init') is not None and constant(d['init'])):
            raise Unsupported('static local %s' % d['n'])
        if T['k'] == 'ref':
            x = self.ev(d['init'])
            if not isinstance(x, LV):
                x = self.new_root(x)
            lv = x
        else:
            if d.get('init') is not None:
                v = self.rv(d['init'], T)
            else:
                v = self.uninit(T)
            if T['k'] == 'array' and isinstance(v, VecV):
                v = VecV(IntVal(T['len']), v.el, v.kind)
            lv = self.new_root(v)
        fr.vars[d['id']] = lv
        fr.names[d['id']] = (d['n'], T)

    def uninit(self, T):
        v = self.fresh(T, 'uninit')
        if T['k'] == 'array':
            v = VecV(IntVal(T['len']), v.el, v.kind)
        return v

    def s_decl(self, s):
        for d in s['d']:
            self.declare(d)

    def s_if(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if s.get('cv'):
            self.declare(s['cv'])
        c = self.cond(s['c'])

        def a():
            self.exec(s['t'])

        def b():
            self.exec(s['f'])
        self.branch(c, a, b)

    def s_ret(self, s):
        f = self.frames[-1].fn
        v = None
        if s.get('e') is not None:
            RT = self.T(f['ret']) if f else None
            if RT is not None and RT['k'] == 'ref':
                v = self.ev(s['e'])
                if not isinstance(v, LV):
                    v = self.new_root(v)
            elif RT is not None and RT['k'] == 'void':
                self.ev(s['e'])
            else:
                v = self.rv(s['e'], RT)
        raise CxxReturn(v)

    def s_break(self, s):
        raise CxxBreak()

    def s_continue(self, s):
        raise CxxContinue()

    def s_while(self, s):
        def cond():
            if s.get('cv'):
                self.declare(s['cv'])
            return self.cond(s['c'])
        self.loop(s, cond, lambda: self.exec(s['b']), lambda: None)

    def s_do(self, s):
        # first iteration unconditionally, then a while loop
        try:
            self.exec(s['b'])
        except CxxContinue:
            pass
        except CxxBreak:
            return
        self.loop(s, lambda: self.cond(s['c']), lambda: self.exec(s['b']), lambda: None)

    def s_for(self, s):
        self.exec(s.get('init'))
        self.loop(s, lambda: self.cond(s['c']) if s.get('c') is not None else BoolVal(True), lambda: self.exec(s['b']),
                  lambda: self.ev(s['inc']) if s.get('inc') is not None else None)

    def s_range(self, s):
        for d in s['pre']:
            self.exec(d)

        def body():
            self.exec(s['v'])
            self.exec(s['b'])
        self.loop(s, lambda: self.cond(s['c']), body, lambda: self.ev(s['inc']))

    def s_switch(self, s):
        v = self.rv(s['c'])
        if not isinstance(v, SV):
            raise Unsupported('switch on %r' % (v,))
        items = []   # flatten labels

        def flat(st):
            while st is not None and st['s'] in ('case', 'default'):
                items.append(('label', st.get('v') if st['s'] == 'case' else None, st['s'] == 'default'))
                st = st['b']
            if st is not None:
                items.append(('stmt', st))
        body = s['b']
        for st in (body['b'] if body['s'] == 'block' else [body]):
            flat(st)
        vals = [i[1] for i in items if i[0] == 'label' and not i[2]]
        conds, starts = [], []
        for n, i in enumerate(items):
            if i[0] == 'label':
                conds.append(And([v.t != x for x in vals]) if i[2] else v.t == i[1])
                starts.append(n)
        if not any(i[0] == 'label' and i[2] for i in items):
            conds.append(And([v.t != x for x in vals]))
            starts.append(None)

        def run(start):
            if start is None:
                return
            try:
                for i in items[start:]:
                    if i[0] == 'stmt':
                        self.exec(i[1])
            except CxxBreak:
                pass

        def go(j):
            if j == len(conds) - 1:
                return run(starts[j])
            self.branch(conds[j], lambda: run(starts[j]), lambda: go(j + 1))
        go(0)

    def s_try(self, s):
        try:
            self.exec(s['b'])
        except CxxThrow as t:
            for h in s['h']:
                if 'v' not in h or self.catches(self.T(h['v']['t']), t.cls):
                    if 'v' in h:
                        lv = self.new_root(SV(IntVal(0), {'k': 'opaque'}))
                        self.frames[-1].vars[h['v']['id']] = lv
                    self.exec(h['b'])
                    return
            raise

    def catches(self, T, cls):
        n = self.rname(T)
        return n == cls or n == 'std::exception' or (n == 'std::logic_error' and cls in ('std::domain_error', 'std::invalid_argument', 'std::out_of_range')) \
            or (n == 'std::runtime_error' and cls in ('std::range_error', 'std::overflow_error'))

    # ------------------------------------------------------------ loops
    def loop(self, s, cond, body, inc):
        n = 0
        unroll = self.unroll_bound()
        while True:
            pre = self.st
            self.st = pre.copy()
            c = z3.simplify(cond())
            if z3.is_false(c):
                return
            if not z3.is_true(c):
                if not unroll:
                    self.st = pre
                    break
                if n >= unroll:
                    self.check('unwinding assertion: loop at line %s runs at most %d times' % (s.get('l'), unroll), Not(c))
                    return
                if self.choose([Not(c), c]) == 0:
                    return
            n += 1
            if n > 4096:
                raise Unsupported('loop at line %s does not terminate concretely' % s.get('l'))
            try:
                body()
            except CxxContinue:
                pass
            except CxxBreak:
                return
            inc()
        self.inv_loop(s, cond, body, inc)

    def unroll_bound(self):
        return self.cfg.unroll

    def inv_loop(self, s, cond, body, inc):
        if self.nofork:
            raise NeedFork('loop')
        entry = self.st
        key = (self.ctx.key(), id(s), self.ctx.nchk)
        if key in self.loopcache:
            M, kept = self.loopcache[key]
        else:
            M, kept = self.houdini(s, entry, cond, body, inc)
            self.loopcache[key] = (M, kept)
            if not self.quiet:
                for nm, _ in kept:
                    if nm.startswith('axiom: '):
                        continue
                    self.obls.append(Obl('%s: loop invariant (line %s) %s established and preserved' % (self.current, s.get('l'), nm),
                                         'proved', 'z3', 0, None, self.ctx.key(), self.current))
        self.st = entry.copy()
        self.havoc(M)
        cur = self.st
        for nm, c in kept:
            self.assume(c(self.st))
        c = cond()
        if self.choose([c, Not(c)]) == 1:
            return
        try:
            body()
        except CxxBreak:
            return
        except CxxContinue:
            pass
        inc()
        raise PathEnd()

    def houdini(self, s, entry, cond, body, inc):
        M = set()
        self.quiet += 1
        sub = self.frames
        try:
            def once(cands, fails):
                """Explores one iteration from an arbitrary state satisfying cands."""
                ws = set()
                st = entry.copy()
                self.st = st
                self.havoc(M)
                for nm, c in cands:
                    self.assume(c(self.st))
                head = self.st
                self.wlog.append(ws)
                self.rounds += 1
                salt, self.salt = self.salt, '#%d' % self.rounds   # inner loops are analysed anew under each assumption set

                def it():
                    c = cond()
                    if self.choose([c, Not(c)]) == 1:
                        raise PathEnd()
                    try:
                        body()
                    except CxxContinue:
                        pass
                    except (CxxBreak, CxxReturn, CxxThrow):
                        raise PathEnd()
                    inc()
                    for i, (nm, c) in enumerate(cands):
                        if i in fails or nm.startswith('axiom: '):
                            continue
                        if not self.valid(c(self.st)):
                            fails[i] = True
                try:
                    self.explore(it, head)
                finally:
                    self.wlog.pop()
                    self.salt = salt
                return {w for w in ws if not (w[0] == 'root' and w[1] not in entry.roots)}
            fast = getattr(self.cfg, 'fastw', False)
            self.wonly += fast           # loops inside need no invariants to find what is written
            for _ in range(12):
                ws = once([], {})
                if ws <= M:
                    break
                M |= ws
            self.wonly -= fast
            self.st = entry
            cands = []
            for nm, c in self.candidates(s, entry, M) if not self.wonly else ():
                if (id(s), nm) in self.dropped:
                    continue
                if nm.startswith('axiom: '):      # instance of a definition of the specification, true in every state
                    cands.append((nm, c))
                    continue
                try:
                    if self.valid(c(entry)):
                        cands.append((nm, c))
                    else:
                        self.invlog.append('%s line %s: candidate %s does not hold on entry' % (self.current, s.get('l'), nm))
                except NeedFork:
                    pass
            while not self.wonly:
                fails = {}
                ws = once(cands, fails)
                if not ws <= M:
                    M |= ws
                    continue
                if not fails:
                    break
                for i in fails:
                    self.invlog.append('%s line %s: candidate %s not preserved' % (self.current, s.get('l'), cands[i][0]))
                    if fast and cands[i][0].endswith('<= entry'):
                        self.dropped.add((id(s), cands[i][0]))
                cands = [c for i, c in enumerate(cands) if i not in fails]
        finally:
            self.quiet -= 1
            self.st = entry
            self.frames = sub
        for w in self.wlog:
            w |= M
        return M, cands

    def candidates(self, s, entry, M):
        lc = LoopCtx(self, s, entry, M)
        out = list(lc.auto())
        for t in self.templates:
            try:
                for nm, c in t(lc) or []:
                    out.append((nm, c))
            except (KeyError, Unsupported):
                pass
        return out

    # ------------------------------------------------------------ expressions
    def cond(self, e):
        v = self.rv(e)
        return self.truth(v)

    def truth(self, v):
        if isinstance(v, SV):
            if v.t.sort() == BOOL:
                return v.t
            if v.t.sort() == INT:
                return v.t != 0
            if v.t.sort() == REAL:
                return v.t != 0
        if isinstance(v, PyV):
            return BoolVal(True)
        raise Unsupported('condition %r' % (v,))

    def rv(self, e, T=None):
        x = self.ev(e)
        if isinstance(x, LV):
            return self.read(x, self.T(e['t']))
        return x

    def lvof(self, e):
        x = self.ev(e)
        if isinstance(x, LV):
            return x
        return self.new_root(x)

    def ev(self, e):
        return getattr(self, 'e_' + e['e'], self.e_unsupported)(e)

    def e_unsupported(self, e):
        raise Unsupported('expression %s (line %s)' % (e.get('cls', e['e']), e.get('l')))

    def e_int(self, e):
        T = self.T(e['t'])
        if T['k'] == 'bool':
            return SV(BoolVal(e['v'] not in ('0',)), T)
        return SV(IntVal(int(e['v'])), T)

    def dconst(self, x, w=64):
        if self.cfg.dbl == 'real':
            if x in (float('inf'), float('-inf')) or x != x:
                r = z3.Real('INF')
                return r if x > 0 else -r
            from fractions import Fraction
            fr = Fraction(repr(x)) if 'e' not in repr(x) and 'n' not in repr(x) else Fraction(x)
            return z3.Q(fr.numerator, fr.denominator)
        return z3.FPVal(x, FP if w == 64 else z3.Float32())

    def e_fp(self, e):
        T = self.T(e['t'])
        v = e['v']
        x = float(v) if v in ('inf', '-inf', 'nan', '-nan') else float.fromhex(v)
        return SV(self.dconst(x, T['w']), T)

    def e_str(self, e):
        return self.strlit(bytes.fromhex(e['hex']), 'array')

    def strlit(self, b, kind='str'):
        if self.cfg.strs == 'opaque':
            if b not in self.strlits:
                c = z3.Const('lit_' + b.hex(), self.Str)
                for o in self.strlits.values():
                    self.solver.axioms.append(c != o)
                self.strlits[b] = c
            return SV(self.strlits[b], {'k': 'str'})
        arr = z3.K(INT, IntVal(0))
        for i, ch in enumerate(b):
            arr = z3.Store(arr, i, ch if ch < 128 else ch - 256)
        return VecV(IntVal(len(b)), SV(arr, self.chartype()), 'str')

    def e_null(self, e):
        return SV(IntVal(0), self.T(e['t']))

    def e_zero(self, e):
        return self.zero(self.T(e['t']))

    def zero(self, T, lift=()):
        T = self.noref(T)
        s = self.scalar_sort(T)
        if s is not None:
            t = BoolVal(False) if s == BOOL else IntVal(0) if s == INT else self.dconst(0.0, T.get('w', 64))
            return SV(t, T)
        n = self.rname(T)
        h = getattr(self, 'opaque_zero', {}).get(n)
        if h is not None:
            return h(self, T)
        if n in ('std::_List_iterator', 'std::_List_const_iterator'):
            return SV(IntVal(0), {'k': 'opaque', 's': n})
        if n == 'std::pair':
            return StV('std::pair', {'first': self.zero(self.targ(T, 0)), 'second': self.zero(self.targ(T, 1))})
        if n in PTR_TYPES:
            return SV(IntVal(0), T)
        if n == 'std::basic_string':
            return self.strlit(b'')
        if n in VEC_TYPES:
            v = self.fresh(T, 'empty')
            return VecV(IntVal(0), v.el, v.kind)
        if n in MAP_TYPES or n in SET_TYPES:
            return self.empty_map(T)
        if T['k'] == 'array':
            v = self.fresh(T, 'z')
            el = self.zero(self.T(T['of']))
            return VecV(IntVal(T['len']), vmap(lambda a, b: z3.K(INT, b), v.el, el), 'array')
        if self.is_own(T):
            c = self.m.find(T['n'] + '::' + T['n'].split('::')[-1], lambda f, m: not f['params'])
            if c and not c[0].get('dflt'):
                return self.construct(c[0], [])
            return StV(T['n'], {f: (self.rv(node['init']) if node.get('init') else self.default_field(ft)) for f, ft, _, node in self.rec_fields(T)})
        raise Unsupported('zero of %s' % T.get('s'))

    def default_field(self, T):
        """Default-initialisation: scalars are indeterminate, classes run their default constructor."""
        s = self.scalar_sort(self.T(T))
        if s is not None or T['k'] == 'array':
            return self.uninit(T)
        return self.zero(T)

    def empty_map(self, T):
        v = self.fresh(T, 'emap')
        return MapV(z3.K(v.ks, BoolVal(False)), v.val, IntVal(0), v.ks, v.T)

    def e_mat(self, e):
        x = self.ev(e['x'])
        if isinstance(x, LV):
            return x
        return self.new_root(x)

    def e_this(self, e):
        return PyV(self.this())

    def this(self):
        t = self.frames[-1].this
        if t is None:
            raise Unsupported('this')
        return t

    def e_var(self, e):
        i = e['id']
        for_var = self.frames[-1].vars.get(i)
        if for_var is not None:
            return for_var
        if 'glob' in e:
            return LV('global', i)
        raise Unsupported('variable %s not in scope' % e['n'])

    def read_global(self, lv):
        g = self.m.globals.get(lv.base)
        if g is None or not g['const']:
            raise Unsupported('mutable global %s' % (g and g['n']))
        if g['const'] == 'unwritten':
            self.assumptions.add('non-const global %s keeps its initial value: no function of the translation unit writes it (scanned), other units are not scanned' % g['n'])
        h = self.extra.get('global ' + g['n'])
        if h is not None:
            return self._nav(h(self), lv.path)
        if g.get('init') is None:
            T = self.noref(self.T(g['t']))
            v = self._fresh(T, 'glob_' + g['n'], ())
            return self._nav(v, lv.path)
        self.frames.append(Frame(None))
        try:
            return self._nav(self.rv(g['init']), lv.path)
        finally:
            self.frames.pop()

    def e_fn(self, e):
        return PyV(FnRef(e['f']))

    def e_mem(self, e):
        FT = self.T(e['b']['t'])
        if e.get('arrow'):
            p = self.rv(e['b'])
            PT = self.T(FT['to']) if FT['k'] == 'ptr' else FT
            base = self.deref(p, PT)
        else:
            base = self.ev(e['b'])
            PT = FT
            if not isinstance(base, LV):
                base = self.new_root(base)
        lv = self.field_lv(base, self.noref(PT) if self.is_own(PT) else PT, e['n']) if self.is_own(PT) else base + ('f', e['n'])
        if self.is_own(PT):
            ft, _ = self.field_decl(self.noref(PT), e['n'])
            if ft['k'] == 'ref':
                v = self.read(lv)
                return self.deref(v, ft['to']) if not isinstance(v, LV) else v
        return lv

    def e_cast(self, e):
        ck = e['ck']
        T = self.T(e['t'])
        if ck == 'LValueToRValue':
            x = self.ev(e['x'])
            return self.read(x, self.T(e['x']['t'])) if isinstance(x, LV) else x
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr', 'LValueBitCast'):
            return self.ev(e['x'])
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            x = self.ev(e['x'])
            return x
        if ck == 'Dynamic':
            x = self.ev(e['x'])
            h = self.extra.get('dynamic_cast')
            if h:
                return h(self, x, T)
            raise Unsupported('dynamic_cast')
        if ck == 'ToVoid':
            self.ev(e['x'])
            return VOID
        if ck == 'NullToPointer':
            return SV(IntVal(0), T)
        if ck == 'ArrayToPointerDecay':
            x = self.ev(e['x'])
            if isinstance(x, LV):
                return ItV('vec', x, IntVal(0))
            return x   # string literal
        if ck == 'BitCast':
            x = self.rv(e['x'])
            return x
        v = self.rv(e['x'])
        return self.convert(v, self.T(e['x']['t']), T, ck)

    def convert(self, v, S, T, ck):
        if isinstance(v, SV):
            if ck == 'IntegralCast':
                return SV(self.wrap(self.toint(v.t), T), T)
            if ck == 'IntegralToBoolean':
                return SV(v.t != 0, T)
            if ck == 'PointerToBoolean':
                return SV(v.t != 0, T)
            if ck in ('IntegralToFloating',):
                return SV(self.int2dbl(self.toint(v.t), T), T)
            if ck == 'FloatingToIntegral':
                return SV(self.dbl2int(v.t, T), T)
            if ck == 'FloatingCast':
                if self.cfg.dbl == 'real':
                    if S['w'] == 64 and T['w'] == 32:
                        return SV(self.uf('f32', REAL, REAL)(v.t), T)
                    return SV(v.t, T)
                return SV(z3.fpFPToFP(z3.RNE(), v.t, FP if T['w'] == 64 else z3.Float32()), T)
            if ck == 'FloatingToBoolean':
                return SV(v.t != self.dconst(0.0), T)
            if ck in ('PointerToIntegral', 'IntegralToPointer'):
                return SV(v.t, T)
        if ck in ('PointerToBoolean',) and isinstance(v, (PyV, ItV)):
            return SV(BoolVal(True), T)
        raise Unsupported('cast %s of %r' % (ck, v))

    def toint(self, t):
        if t.sort() == BOOL:
            return If(t, IntVal(1), IntVal(0))
        return t

    def uf(self, name, *sorts):
        return z3.Function(name, *sorts)

    def int2dbl(self, t, T):
        if self.cfg.dbl == 'real':
            return z3.ToReal(t)
        if z3.is_int_value(z3.simplify(t)):
            return z3.FPVal(float(z3.simplify(t).as_long()), FP)
        return self.uf('i2d', INT, FP)(t)

    def dbl2int(self, t, T):
        if self.cfg.dbl == 'real':
            return If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
        return self.uf('d2i', FP, INT)(t)

    def wrap(self, t, T):
        """Conversion of the mathematical integer t to machine type T (modular)."""
        if T['k'] == 'enum':
            T = self.T(T['u'])
        if T['k'] == 'bool':
            return t != 0
        if T['k'] != 'int':
            return t
        lo, hi = self.irange(T)
        s = z3.simplify(t)
        if z3.is_int_value(s):
            n = s.as_long()
            return IntVal((n - lo) % (hi - lo + 1) + lo)
        if self.in_range(t, lo, hi):
            return t
        m = hi - lo + 1
        return ((t - lo) % m) + lo if lo else t % m

    def in_range(self, t, lo, hi):
        # syntactic shortcut: constants with declared range are handled by the solver anyway
        return self.solver.valid(self.st.pc, And(t >= lo, t <= hi), 700)[0] == 'proved'

    def arith(self, op, a, b, T, line=None):
        """a op b at machine type T (operands already converted)."""
        if T['k'] == 'float':
            return self.farith(op, a, b)
        if op in ('+', '-', '*'):
            r = a + b if op == '+' else a - b if op == '-' else a * b
            return self.result(r, T, op, line)
        if op in ('/', '%'):
            if self.cfg.bounds:
                self.check('division by zero (line %s)' % line, b != 0)
            q = If(And(a >= 0, b > 0), a / b, If(And(a < 0, b > 0), -((-a) / b), If(And(a >= 0, b < 0), -(a / (-b)), (-a) / (-b))))
            if z3.is_int_value(b) and b.as_long() > 0:
                q = If(a >= 0, a / b, -((-a) / b))
                if self.in_range(a, 0, 2 ** 64):
                    q = a / b
                    return q if op == '/' else a % b
            return q if op == '/' else a - b * q
        if op == '<<':
            sb = z3.simplify(b)
            if z3.is_int_value(sb):
                return self.result(a * (2 ** sb.as_long()), T, op, line)
            p = IntVal(1)
            w = T['w']
            if self.cfg.bounds:
                self.check('shift amount in range (line %s)' % line, And(b >= 0, b < w))
            p = IntVal(2 ** (w - 1))
            for i in range(w - 2, -1, -1):
                p = If(b == i, IntVal(2 ** i), p)
            return self.result(a * p, T, op, line)
        if op == '>>':
            sb = z3.simplify(b)
            if z3.is_int_value(sb):
                return a / (2 ** sb.as_long())
            w = T['w']
            p = IntVal(2 ** (w - 1))
            for i in range(w - 2, -1, -1):
                p = If(b == i, IntVal(2 ** i), p)
            return a / p
        if op in ('&', '|', '^'):
            return self.bitop(op, a, b, T)
        raise Unsupported('operator %s' % op)

    def bitop(self, op, a, b, T):
        sa, sb = z3.simplify(a), z3.simplify(b)
        w = T['w']
        if z3.is_int_value(sa) and not z3.is_int_value(sb):
            a, b, sa, sb = b, a, sb, sa
        if z3.is_int_value(sa) and z3.is_int_value(sb):
            x, y = sa.as_long(), sb.as_long()
            return IntVal({'&': x & y, '|': x | y, '^': x ^ y}[op])
        if z3.is_int_value(sb):
            n = sb.as_long() % (2 ** w)
            bits = [i for i in range(w) if n >> i & 1]
            if op == '&':
                if n == (1 << len(bits)) - 1:
                    return a % (n + 1)
                r = IntVal(0)
                if len(bits) <= 8 or True:
                    # group runs of bits
                    i = 0
                    while i < len(bits):
                        j = i
                        while j + 1 < len(bits) and bits[j + 1] == bits[j] + 1:
                            j += 1
                        lo, ln = bits[i], j - i + 1
                        r = r + ((a / (2 ** lo)) % (2 ** ln)) * (2 ** lo)
                        i = j + 1
                    if T['sg'] and (n >> (w - 1)):
                        raise Unsupported('signed mask')
                    return r
            if op == '|':
                r = a
                for i in bits:
                    r = r + If((a / (2 ** i)) % 2 == 1, IntVal(0), IntVal(2 ** i))
                return r
            if op == '^':
                r = a
                for i in bits:
                    r = r + If((a / (2 ** i)) % 2 == 1, IntVal(-2 ** i), IntVal(2 ** i))
                return r
        if op == '|':
            # disjoint halves: a multiple of 2^k, 0 <= b < 2^k
            for k in (8, 16, 24, 32, 1, 2, 4):
                for x, y in ((a, b), (b, a)):
                    if self.solver.valid(self.st.pc, And(x % (2 ** k) == 0, y >= 0, y < 2 ** k), 400)[0] == 'proved':
                        return x + y
        A, B = z3.Int2BV(a, w), z3.Int2BV(b, w)
        r = {'&': A & B, '|': A | B, '^': A ^ B}[op]
        return z3.BV2Int(r, T['sg'])

    def result(self, r, T, op, line):
        if T['k'] == 'enum':
            T = self.T(T['u'])
        if T['k'] != 'int':
            return r
        if T['sg']:
            if self.cfg.overflow:
                lo, hi = self.irange(T)
                s = z3.simplify(r)
                if not z3.is_int_value(s):
                    self.check('no signed overflow in %s (line %s)' % (op, line), And(r >= lo, r <= hi))
            else:
                self.assumptions.add('signed machine arithmetic treated as mathematical')
            return r
        return self.wrap(r, T)

    def farith(self, op, a, b):
        if self.cfg.dbl == 'real':
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                return a / b
            raise Unsupported('float operator ' + op)
        rm = z3.RNE()
        return {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op](rm, a, b)

    def compare(self, op, a, b):
        if z3.is_fp(a):
            return {'<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ, '==': z3.fpEQ, '!=': z3.fpNEQ}[op](a, b)
        if a.sort() == BOOL and b.sort() == BOOL and op in ('==', '!='):
            return a == b if op == '==' else a != b
        a, b = self.toint(a), self.toint(b)
        return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b,
                '!=': lambda: a != b}[op]()

    def e_bin(self, e):
        op = e['op']
        T = self.T(e['t'])
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op == '=':
            # C++17 evaluates the right operand first; the operands in scope are side-effect free
            v = self.rv(e['b'], T)
            lv = self.ev(e['a'])
            self.write(lv, v)
            return lv
        if op in ('&&', '||'):
            a = self.cond(e['a'])
            if op == '&&':
                return self.branch(a, lambda: SV(self.cond(e['b']), T), lambda: SV(BoolVal(False), T))
            return self.branch(a, lambda: SV(BoolVal(True), T), lambda: SV(self.cond(e['b']), T))
        a, b = self.rv(e['a']), self.rv(e['b'])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return SV(self.veq_op(op, a, b), T)
        if isinstance(a, ItV) or isinstance(b, ItV):
            return self.it_arith(op, a, b, T)
        return SV(self.arith(op, self.toint(a.t), self.toint(b.t), self.num(T), e.get('l')), T)

    def num(self, T):
        return self.T(T['u']) if T['k'] == 'enum' else T

    def it_arith(self, op, a, b, T):
        if isinstance(a, ItV) and isinstance(b, ItV) and op == '-':
            if not pyeq(a.cont, b.cont):
                raise Unsupported('difference of unrelated iterators')
            return SV(b.pos - a.pos if a.rev else a.pos - b.pos, T)
        if isinstance(b, ItV):
            a, b = b, a
        d = b.t if op == '+' else -b.t
        return ItV(a.kind, a.cont, a.pos + (-d if a.rev else d), a.end, a.rev)

    def veq_op(self, op, a, b):
        if isinstance(a, SV) and isinstance(b, SV):
            if a.t.sort() == self.Str:
                raise Unsupported('string compare')
            return self.compare(op, a.t, b.t)
        if isinstance(a, ItV) and isinstance(b, ItV):
            if a.kind == 'map':
                eq = self.mapit_eq(a, b)
                return eq if op == '==' else Not(eq)
            if not pyeq(a.cont, b.cont):
                raise Unsupported('comparison of iterators of different containers')
            x, y = (b.pos, a.pos) if a.rev else (a.pos, b.pos)
            return self.compare(op, x, y)
        if isinstance(a, PyV) and isinstance(b, SV) or isinstance(b, PyV) and isinstance(a, SV):
            s = a if isinstance(a, SV) else b
            if z3.is_int_value(s.t) and s.t.as_long() == 0:
                return BoolVal(op == '!=')
        if isinstance(a, PyV) and isinstance(b, PyV) and isinstance(a.o, LV) and isinstance(b.o, LV):
            if a.o.same(b.o):
                return BoolVal(op == '==')
            if a.o.kind == 'root' and b.o.kind == 'root' and a.o.base != b.o.base:
                return BoolVal(op == '!=')
        raise Unsupported('compare %r %s %r' % (a, op, b))

    def mapit_eq(self, a, b):
        if a.pos is None and b.pos is None:
            return BoolVal(True)
        if a.pos is None:
            a, b = b, a
        if b.pos is None:
            return a.end
        return Or(And(a.end, b.end), And(Not(a.end), Not(b.end), a.pos == b.pos))

    def e_cassign(self, e):
        lv = self.ev(e['a'])
        b = self.rv(e['b'])
        a = self.read(lv, self.T(e['a']['t']))
        if isinstance(a, ItV):
            v = self.it_arith(e['op'], a, b, None)
        else:
            CT = self.num(self.T(e['ct']))
            LT = self.num(self.T(e['a']['t']))
            x = self.toint(a.t)
            if CT['k'] == 'float' and LT['k'] != 'float':
                x = self.int2dbl(x, CT)
            elif CT['k'] == 'int' and LT['k'] == 'int' and (CT['w'], CT['sg']) != (LT['w'], LT['sg']):
                x = self.wrap(x, CT)
            r = self.arith(e['op'], x, self.toint(b.t), CT, e.get('l'))
            if LT['k'] == 'int' and CT['k'] == 'float':
                r = self.dbl2int(r, LT)
            elif LT['k'] == 'int' and (CT['w'], CT['sg']) != (LT['w'], LT['sg']):
                r = self.wrap(r, LT)
            elif LT['k'] == 'bool':
                r = r != 0
            v = SV(r, a.T)
        self.write(lv, v)
        return lv

    def e_un(self, e):
        op = e['op']
        T = self.T(e['t'])
        if op in ('++', '--', 'post++', 'post--'):
            lv = self.ev(e['x'])
            a = self.read(lv)
            nv = self.step(a, 1 if '++' in op else -1, self.num(self.T(e['x']['t'])), e.get('l'))
            self.write(lv, nv)
            return a if op.startswith('post') else lv
        if op == '*':
            p = self.rv(e['x'])
            return self.deref(p, T)
        if op == '&':
            x = self.ev(e['x'])
            if isinstance(x, LV):
                if x.kind == 'heap' and not x.path:
                    return SV(x.base, T)
                if x.path and x.path[-1][0] == 'i':
                    return ItV('vec', LV(x.kind, x.base, x.path[:-1]), x.path[-1][1])
                return PyV(x)
            if isinstance(x, PyV):
                return x
            raise Unsupported('address of a value')
        if op == '!':
            return SV(Not(self.cond(e['x'])), T)
        v = self.rv(e['x'])
        if op == '-':
            if T['k'] == 'float':
                return SV(-v.t if self.cfg.dbl == 'real' else z3.fpNeg(v.t), T)
            return SV(self.result(-self.toint(v.t), T, '-', e.get('l')), T)
        if op == '+':
            return SV(self.toint(v.t), T)
        if op == '~':
            if T['sg']:
                return SV(-v.t - 1, T)
            return SV((2 ** T['w'] - 1) - v.t, T)
        raise Unsupported('unary ' + op)

    def step(self, a, d, T, line=None):
        if isinstance(a, ItV):
            if a.kind == 'map':
                from . import lib
                return lib.mapit_step(self, a, d)
            return ItV(a.kind, a.cont, a.pos + (-d if a.rev else d), a.end, a.rev)
        if isinstance(a, SV):
            if T['k'] == 'float':
                return SV(self.farith('+', a.t, self.dconst(float(d))), a.T)
            if T['k'] == 'int' and T['w'] < 32:
                return SV(self.wrap(a.t + d, T), a.T)
            return SV(self.result(a.t + d, T, '++', line), a.T)
        raise Unsupported('++ on %r' % (a,))

    def e_cond(self, e):
        c = self.cond(e['c'])
        if e.get('lv'):
            def g(x):
                r = self.ev(x)
                return r if isinstance(r, LV) else self.new_root(r)
            return self.branch(c, lambda: g(e['a']), lambda: g(e['b']))
        return self.branch(c, lambda: self.rv(e['a']), lambda: self.rv(e['b']))

    def e_sub(self, e):
        p = self.rv(e['a'])
        i = self.rv(e['b'])
        if isinstance(p, SV):
            p, i = i, p
        if isinstance(p, ItV) and p.kind == 'vec':
            idx = p.pos + i.t
            self.bounds(p.cont, idx, e.get('l'))
            return p.cont + ('i', idx)
        if isinstance(p, VecV):
            return self.new_root(p) + ('i', i.t)
        raise Unsupported('subscript of %r' % (p,))

    def bounds(self, cont, idx, line, what='index'):
        if not self.cfg.bounds:
            self.assumptions.add('container index bounds not proved in this contract set')
            return
        v = self.read(cont)
        self.check('%s within bounds (line %s)' % (what, line), And(idx >= 0, idx < v.len))

    def e_ilist(self, e):
        T = self.T(e['t'])
        if self.scalar_sort(T) is not None:
            return self.rv(e['a'][0]) if e['a'] else self.zero(T)
        if T['k'] == 'array':
            v = self.fresh(T, 'arr')
            el = v.el
            for i, x in enumerate(e['a']):
                el = store(el, IntVal(i), self.rv(x))
            return VecV(IntVal(T['len']), el, 'array')
        if self.is_own(T):
            fs = self.rec_fields(T)
            f = {}
            for i, (n, ft, _, node) in enumerate(fs):
                f[n] = self.rv(e['a'][i]) if i < len(e['a']) else (self.rv(node['init']) if node.get('init') else self.zero(ft))
            return StV(T['n'], f)
        if len(e['a']) == 1:
            return self.ev(e['a'][0])
        raise Unsupported('initializer list of %s' % T.get('s'))

    def e_stdilist(self, e):
        x = e['x']
        while x['e'] == 'mat':
            x = x['x']
        v = self.rv(x)
        return VecV(v.len, v.el, 'vec')

    def e_lambda(self, e):
        r = self.m.records[e['rid']]
        caps, this = {}, None
        for c, init in zip(r['captures'], e['inits']):
            if c['this']:
                this = self.frames[-1].this
            elif c['byref']:
                caps[c['id']] = self.frames[-1].vars.get(c['id']) or self.lvof(init)
            else:
                caps[c['id']] = self.new_root(self.rv(init))
        return PyV(Closure(e['rid'], caps, this))

    def e_throw(self, e):
        if e.get('x') is None:
            raise Unsupported('rethrow')
        raise CxxThrow(self.rname(self.T(e['x']['t'])))

    def e_new(self, e):
        T = self.T(e['at'])
        v = self.rv(e['init']) if e.get('init') is not None else self.zero(T)
        return self.alloc(T, v)

    def e_delete(self, e):
        self.ev(e['x'])
        return VOID

    def e_ctor(self, e):
        T = self.T(e['t'])
        f = e['f']
        d = self.m.funcs.get(f['id'])
        if (e.get('copy') or e.get('move')) and (e.get('triv') or d is None or d.get('dflt')) and len(e['a']) >= 1:
            return self.rv(e['a'][0])
        return self.construct_call(f, T, e['a'], e)

    def construct_call(self, f, T, args, e):
        n = self.rname(T)
        call = Call(self, f, None, args, e)
        call.T = T
        q = strip_targs(f['n'])
        h = self.extra.get('ctor ' + (n or '')) or self.extra.get(q)
        if h is not None:
            return h(self, call)
        h = self.contracts.get(q)
        if h is not None and h is not self.verifying(q) and h.matches(f, self):
            return h.apply(self, call)
        d = self.m.funcs.get(f['id'])
        if d is not None and d.get('dflt'):
            return StV(T['n'], {fn: (self.rv(node['init']) if node.get('init') else self.default_field(ft)) for fn, ft, _, node in self.rec_fields(T)})
        if d is not None:
            return self.construct(d, call.args())
        if self.is_own(T) and not args:
            return self.zero(T)
        h = self.lib.get('ctor ' + (n or ''))
        if h is None:
            raise Unsupported('constructor of %s' % T.get('s'))
        self.libused.add('ctor ' + n)
        return h(self, call)

    def construct(self, d, args, target=None):
        """Runs constructor definition d; returns the constructed value (or initialises target)."""
        T = self.noref(self.T(d['cls']))
        own = target is None
        if own:
            fields = {}
            for fn, ft, _, node in self.rec_fields(T):
                fields[fn] = PyV('unset')
            target = self.new_root(StV(T['n'], fields))
        self.inlined.add(strip_targs(d['n']))
        fr = Frame(d, target)
        self.bind(fr, d, args)
        self.push(fr)
        try:
            done = set()
            for i in d.get('inits', []):
                if 'deleg' in i:
                    v = self.rv(i['init'])
                    self.write(target, v)
                    done = {fn for fn, *_ in self.rec_fields(T)}
                elif 'field' in i:
                    ft, cls = self.field_decl(T, i['field'])
                    if ft['k'] == 'ref':
                        x = self.ev(i['init'])
                        if isinstance(x, LV):
                            x = SV(x.base, ft) if x.kind == 'heap' and not x.path else PyV(x)
                        v = x
                    elif i['init'] is None:
                        v = self.default_field(ft)
                    else:
                        v = self.rv(i['init'], ft)
                    self.write(self.field_lv(target, T, i['field']), v)
                    done.add(i['field'])
                elif 'base' in i:
                    BT = self.T(i['base'])
                    if self.is_own(BT):
                        init = i['init']
                        bd = self.m.funcs.get(init['f']['id']) if init['e'] == 'ctor' else None
                        if bd is not None and not bd.get('dflt'):
                            self.construct(bd, Call(self, init['f'], None, init['a'], init).args(), target)
                        elif bd is not None and bd.get('dflt') or init['e'] == 'ctor':
                            for fn, ft, _, node in self.rec_fields(BT):
                                self.write(self.field_lv(target, T, fn), self.rv(node['init']) if node.get('init') else self.default_field(ft))
                        done |= {fn for fn, *_ in self.rec_fields(BT)}
            r = self.m.records[T['rid']]
            for fld in r['fields']:
                if fld['n'] not in done:
                    self.write(self.field_lv(target, T, fld['n']), self.rv(fld['init']) if fld.get('init') else self.default_field(self.T(fld['t'])))
            try:
                self.exec(d.get('body'))
            except CxxReturn:
                pass
        finally:
            self.frames.pop()
        return self.read(target, T) if own else None

    def verifying(self, q):
        return self.current_contract if self.current == q and len(self.frames) == 0 else None

    current_contract = None

    def push(self, fr):
        if len(self.frames) > self.cfg.inline_depth:
            raise Unsupported('call depth (recursion without a contract?) at ' + fr.fn['n'])
        self.frames.append(fr)

    def bind(self, fr, d, args):
        ps = d['params']
        if len(args) < len(ps):
            raise Unsupported('argument count for ' + d['n'])
        for p, a in zip(ps, args):
            PT = self.T(p['t'])
            if PT['k'] == 'ref':
                if not isinstance(a, LV):
                    a = self.new_root(a)
                fr.vars[p['id']] = a
            else:
                if isinstance(a, LV):
                    a = self.read(a, PT)
                fr.vars[p['id']] = self.new_root(a)
            fr.names[p['id']] = (p['n'], PT)

    # ------------------------------------------------------------ calls
    def e_call(self, e):
        if 'f' in e:
            return self.call(e['f'], None, e['a'], e)
        c = self.rv(e['c'])
        return self.call_value(c, e['a'], e)

    def e_mcall(self, e):
        b = e.get('b')
        if b is None or 'f' not in e:
            raise Unsupported('member pointer call')
        if e.get('arrow'):
            p = self.rv(b)
            PT = self.T(self.T(b['t'])['to'])
            this = self.deref(p, PT)
        else:
            this = self.ev(b)
            if not isinstance(this, LV):
                this = self.new_root(this)
        return self.call(e['f'], this, e['a'], e)

    def e_opcall(self, e):
        f = e.get('f')
        if f is None:
            raise Unsupported('operator call')
        if 'cls' in f and not f.get('static'):
            b = e['a'][0]
            x = self.ev(b)
            if not isinstance(x, LV):
                x = self.new_root(x)
            return self.call(f, x, e['a'][1:], e)
        return self.call(f, None, e['a'], e)

    def call(self, f, this, argnodes, e):
        c = Call(self, f, this, argnodes, e)
        return self.dispatch(c)

    def dispatch(self, c):
        f, this = c.f, c.this
        q = strip_targs(f['n'])
        c.q = q
        # closures
        if this is not None and f['sn'] == 'operator()':
            try:
                tv = self.read(this, self.T(f['cls']))
            except Unsupported:
                tv = None
            if isinstance(tv, PyV):
                return self.call_closure(tv.o, c)
        h = self.extra.get(q)
        if h is not None:
            r = h(self, c)
            if r is not NotImplemented:
                self.libused.add(q)
                return r
        k = self.contracts.get(q)
        if k is not None and k.matches(f, self):
            self.applied.add(q)
            return k.apply(self, c)
        d = self.m.funcs.get(f['id'])
        if f.get('virt') and not (c.e or {}).get('qual'):
            d = self.resolve_virtual(c, d)
            if d is not None:
                q2 = strip_targs(d['n'])
                k = self.contracts.get(q2)
                if k is not None and k.matches(d, self):
                    self.applied.add(q2)
                    return k.apply(self, c)
        if d is not None and d.get('dflt') and d['sn'] == 'operator=':
            v = c.rd(0)
            self.write(this, v)
            return this
        h = self.lib.get(q)
        if d is None and f['sn'] == 'operator=' and f.get('cls') is not None and self.is_own(f['cls']):
            self.write(this, c.rd(0))
            return this
        if d is not None and 'body' in d and h is None:
            return self.inline(d, this, c.args())
        if h is None:
            h = self.lib.get('*::' + f['sn']) if False else None
        if h is None and f.get('conv'):
            h = self.lib.get(strip_targs(self.rname(f['cls']) or '') + '::conv')
        if h is None:
            raise Unsupported('call to %s (no body, contract or library model)' % q)
        self.libused.add(q)
        return h(self, c)

    def resolve_virtual(self, c, d):
        h = self.virt.get(c.q)
        if h is not None:
            return h(self, c)
        if c.this is not None and c.this.kind == 'root':
            v = self.read(c.this, None)
            if isinstance(v, StV):
                r = self.m.recbyname.get(v.cls)
                return self.find_override(r, c.f)
        if c.this is not None and c.this.kind == 'root' or d is None or True:
            # final class or unique override
            if d is not None and 'body' in d:
                T = self.noref(c.f['cls'])
                subs = [r for r in self.m.records.values() if any(self.noref(b).get('rid') == T['rid'] for b in r['bases'])]
                if not subs:
                    return d
        raise Unsupported('virtual call to %s on an object of unknown class' % c.q)

    def find_override(self, r, f):
        for m in r['methods']:
            if m['n'] == f['sn'] and (m['id'] == f['id'] or f['id'] in m['over'] or self.overrides(m, f['id'])):
                return self.m.funcs.get(m['id'])
        for b in r['bases']:
            br = self.m.records.get(self.noref(b).get('rid'))
            if br:
                x = self.find_override(br, f)
                if x:
                    return x
        return None

    def overrides(self, m, fid):
        seen = set()
        work = list(m['over'])
        allm = {x['id']: x for r in self.m.records.values() for x in r['methods']}
        while work:
            i = work.pop()
            if i == fid:
                return True
            if i in seen or i not in allm:
                continue
            seen.add(i)
            work += allm[i]['over']
        return False

    def inline(self, d, this, args):
        if self.recspec is not None and self.recspec.concerns(self, d) and self.m.cyclic(d['id']):
            return self.recspec.call(self, d, this, args)
        return self.inline_body(d, this, args)

    def inline_body(self, d, this, args):
        self.inlined.add(strip_targs(d['n']))
        fr = Frame(d, this)
        self.bind(fr, d, args)
        self.push(fr)
        n = len(self.frames)
        try:
            self.exec(d['body'])
            r = None
        except CxxReturn as x:
            r = x.val
        finally:
            del self.frames[n - 1:]
        return r if r is not None else VOID

    def call_closure(self, o, c):
        if isinstance(o, PyFn):
            return o.fn(self, c)
        if isinstance(o, FnRef):
            return self.call(o.f, None, c.nodes, c.e) if c.nodes is not None else self.dispatch(Call(self, o.f, None, None, c.e, c._args))
        if isinstance(o, LV):
            v = self.read(o)
            if isinstance(v, PyV):
                return self.call_closure(v.o, c)
        if isinstance(o, Closure):
            r = self.m.records[o.rid]
            fid = c.f['id'] if c.f and c.f['id'] in self.m.funcs and 'lambda@' in c.f['n'] else r.get('call')
            d = self.m.funcs.get(fid)
            if d is None:
                raise Unsupported('closure body')
            args = c.args(d)
            fr = Frame(d, o.this)
            fr.vars.update(o.caps)
            self.bind(fr, d, args)
            self.push(fr)
            n = len(self.frames)
            try:
                self.exec(d['body'])
                return VOID
            except CxxReturn as x:
                return x.val if x.val is not None else VOID
            finally:
                del self.frames[n - 1:]
        raise Unsupported('call of %r' % (o,))

    def call_value(self, v, argnodes, e):
        if isinstance(v, PyV):
            return self.call_closure(v.o, Call(self, None, None, argnodes, e))
        raise Unsupported('call of %r' % (v,))

    def invoke(self, functor, args, e=None):
        """Calls a functor value (closure / functor object) with evaluated args; used by library models."""
        v = self.read(functor) if isinstance(functor, LV) else functor
        if isinstance(v, PyV):
            return self.call_closure(v.o, Call(self, None, None, None, e, args))
        if isinstance(v, StV):
            r = self.m.recbyname.get(v.cls)
            for m in r['methods']:
                if m['n'] == 'operator()':
                    d = self.m.funcs.get(m['id'])
                    lv = functor if isinstance(functor, LV) else self.new_root(v)
                    f = dict(d) if d else {'id': m['id'], 'n': v.cls + '::operator()', 'sn': 'operator()', 'cls': r['ty']}
                    return self.dispatch(Call(self, f, lv, None, e, args))
        raise Unsupported('invoke %r' % (v,))


def constant(n):
    """An initialiser which has the same value whenever it is evaluated."""
    if isinstance(n, list):
        return all(constant(v) for v in n)
    if isinstance(n, dict):
        if n.get('e') in ('var', 'this', 'call', 'mcall', 'opcall', 'new', 'lambda', 'mem'):
            return False
        return all(constant(v) for v in n.values())
    return True


class Call:
    def __init__(self, I, f, this, nodes, e, args=None):
        self.I, self.f, self.this, self.nodes, self.e = I, f, this, nodes, e
        self._args = args
        self.line = (e or {}).get('l')
        self.T = I.T(e['t']) if e and 't' in e else None
        self.q = None

    def args(self, d=None):
        """Evaluated arguments: LV for reference parameters, values otherwise."""
        if self._args is None:
            I = self.I
            f = d or self.f
            ps = [I.T(p['t']) for p in f['params']] if f is not None and 'params' in f else ([I.T(p) for p in f['ps']] if f else [])
            out = []
            for i, n in enumerate(self.nodes):
                byref = i < len(ps) and ps[i]['k'] == 'ref'
                x = I.ev(n)
                if not byref and isinstance(x, LV):
                    x = I.read(x, I.T(n['t']))
                out.append(x)
            self._args = out
        return self._args

    def n(self):
        return len(self.nodes) if self.nodes is not None else len(self._args)

    def arg(self, i):
        return self.args()[i]

    def argT(self, i):
        if self.nodes is not None:
            return self.I.T(self.nodes[i]['t'])
        return None

    def rd(self, i):
        x = self.arg(i)
        if isinstance(x, LV):
            return self.I.read(x, self.argT(i))
        return x

    def lv(self, i):
        x = self.arg(i)
        return x if isinstance(x, LV) else self.I.new_root(x)

    def rdthis(self):
        return self.I.read(self.this, self.I.T(self.f['cls']) if self.f and 'cls' in self.f else None)

    def thisT(self):
        return self.I.T(self.f['cls'])

    def ret(self):
        return self.I.T(self.f['ret'])


class LoopCtx:
    """What an invariant template sees at a loop head."""

    def __init__(self, I, s, entry, M):
        self.I, self.s, self.entry, self.M = I, s, entry, M

    def vars(self, pred=None):
        """[(name, LV)] of the variables of all frames in scope, innermost frame first, whose entry value satisfies pred."""
        out, seen = [], set()
        for fr in reversed(self.I.frames):
            for i, lv in fr.vars.items():
                k = (lv.kind, str(lv.base), str(lv.path))
                if k in seen:
                    continue
                seen.add(k)
                try:
                    v = self.I.read(lv, fr.names.get(i, (None, None))[1])
                except Exception:
                    continue
                if pred is None or pred(v):
                    out.append((fr.names.get(i, ('?',))[0], lv))
        return out

    def modified(self, lv):
        return lv.kind == 'root' and any(m[0] == 'root' and m[1] == lv.base for m in self.M)

    def get(self, st, lv, T=None):
        sv, self.I.st = self.I.st, st
        try:
            return self.I.read(lv, T)
        finally:
            self.I.st = sv

    def ints(self):
        return self.vars(lambda v: isinstance(v, SV) and v.t.sort() == INT and v.T is not None and v.T.get('k') == 'int')

    def iters(self):
        return self.vars(lambda v: isinstance(v, ItV) and v.kind == 'vec')

    def positions(self):
        """Modified integer counters and vector iterators: [(name, st -> Int)]"""
        out = []
        for n, lv in self.ints():
            if self.modified(lv):
                out.append((n, lambda st, lv=lv: self.get(st, lv).t))
        for n, lv in self.iters():
            if self.modified(lv):
                out.append((n, lambda st, lv=lv: self.get(st, lv).pos))
        return out

    def auto(self):
        """Range candidates for modified counters against unmodified integers, lengths and end iterators."""
        I = self.I
        pos = self.positions()
        bounds = []
        for n, lv in self.ints():
            bounds.append((n, lambda st, lv=lv: self.get(st, lv).t))
        for n, lv in self.iters():
            if not self.modified(lv):
                bounds.append((n, lambda st, lv=lv: self.get(st, lv).pos))
        for n, lv in self.vars(lambda v: isinstance(v, VecV)):
            bounds.append((n + '.size', lambda st, lv=lv: self.get(st, lv).len))
        for n, lv in self.iters():
            v = self.get(self.entry, lv)
            bounds.append((n + '.cont.size', lambda st, lv=lv: self.get(st, self.get(st, lv).cont).len))
        iters = {n: self.get(self.entry, lv).cont for n, lv in self.iters()} if getattr(I.cfg, 'sameauto', False) else {}
        for n, p in pos:
            e0 = p(self.entry)
            yield ('%s >= entry' % n, lambda st, p=p, e0=e0: p(st) >= e0)
            yield ('%s <= entry' % n, lambda st, p=p, e0=e0: p(st) <= e0)
            yield ('%s >= 0' % n, lambda st, p=p: p(st) >= 0)
            for bn, b in bounds:
                if bn == n:
                    continue
                if n in iters and (bn not in iters and not bn.endswith('.cont.size') or not pyeq(iters[n], iters.get(bn.replace('.cont.size', '')))):
                    continue
                yield ('%s <= %s' % (n, bn), lambda st, p=p, b=b: p(st) <= b(st))
                yield ('%s >= %s' % (n, bn), lambda st, p=p, b=b: p(st) >= b(st))
                eb = b(self.entry)
                yield ('%s <= max(entry,%s)' % (n, bn), lambda st, p=p, eb=eb, e0=e0: Or(p(st) <= eb, p(st) <= e0))

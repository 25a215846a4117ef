"""Contracts: the same pre/postcondition object is checked against the body and assumed at call sites."""
import z3, time
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal
from .core import *
from .interp import Interp, Cfg, Call, Frame, LV
from .front import strip_targs


class X:
    """Evaluation context handed to pre/post: this, args, ret, old and new state."""

    def __init__(self, I, this, args, f):
        self.I, self.this, self.args, self.f = I, this, args, f
        self.old = None
        self.ret = None
        self.ghost = {}

    def at(self, st, lv, T=None):
        sv, self.I.st = self.I.st, st
        try:
            return self.I.read(lv, T)
        finally:
            self.I.st = sv

    def now(self, lv, T=None):
        return self.I.read(lv, T)

    def was(self, lv, T=None):
        return self.at(self.old, lv, T)

    def arg(self, i):
        """Value of argument i on entry."""
        a = self.args[i]
        if isinstance(a, LV):
            T = self.I.noref(self.f['ps'][i]) if self.f else None
            return self.was(a, T) if self.old is not None else self.now(a, T)
        return a

    def fieldlv(self, name):
        T = self.I.noref(self.f['cls'])
        return self.I.field_lv(self.this, T, name)

    def field(self, name):
        """Current value of a field of *this."""
        return self.now(self.fieldlv(name))

    def oldfield(self, name):
        return self.was(self.fieldlv(name))

    def g(self, name):
        return self.I.gget(name)

    def og(self, name):
        return self.old.ghost[name]


class Contract:
    """Subclass and override. name: qualified function name without template arguments."""
    name = None
    unroll = 0
    cfg = {}
    trusted = False            # assumed at call sites, never verified (reported)
    may_throw = False          # any throw allowed
    instance = None            # predicate picking the definition among overloads / template instantiations
    label = None               # distinguishes several contracts of one function
    tu = None                  # translation unit (default: the spec module's TU)
    rely = None                # names of the contracts used at call sites (default: all of the spec)
    cost = 0                   # scheduling hint

    def matches(self, f, I):
        if self.instance is None:
            return True
        try:
            return bool(self.instance(f, I))
        except Exception:
            return False

    # -- overridables
    def setup(self, x):
        """Makes symbolic this/args (default: fresh values of the declared types)."""
        I = x.I
        f = x.f
        if 'cls' in f and not f.get('static'):
            T = I.noref(f['cls'])
            x.this = self.make_this(x, T)
        x.args = []
        for i, p in enumerate(f['params']):
            x.args.append(self.make_arg(x, i, p['n'], I.T(p['t'])))

    def make_this(self, x, T):
        I = x.I
        if x.f.get('ctor'):
            return None
        return I.new_root(I.fresh(T, 'this'))

    def make_arg(self, x, i, name, T):
        I = x.I
        v = I.fresh(I.noref(T), name)
        return I.new_root(v) if T['k'] == 'ref' else v

    def pre(self, x):
        return []

    def post(self, x):
        return []

    def throws(self, x):
        """Condition (over the entry state) under which the function throws; None: never."""
        return None

    def on_throw(self, x, t):
        """Postconditions of exceptional exits."""
        return []

    def modifies(self, x):
        """LVs (or ('ghost', name)) the function may write; used at call sites and checked as the frame."""
        return []

    def invariants(self, x):
        """Loop-invariant templates (candidates; only inductive ones are used)."""
        return []

    def ghost(self, x):
        """Initial ghost state."""

    def result(self, x):
        """Fresh result at a call site."""
        I = x.I
        RT = I.T(x.f['ret'])
        if RT['k'] == 'void':
            return VOID
        return I.fresh(RT, 'ret_' + x.f['sn'])

    # -- call site
    def apply(self, I, c):
        x = X(I, c.this, c.args(), c.f)
        for nm, p in self.pre(x):
            I.check('precondition of %s: %s (call at line %s)' % (self.name, nm, c.line), p)
        x.old = I.st.copy()
        tc = self.throws(x)
        if tc is not None:
            if I.choose([Not(tc), tc]) == 1:
                raise CxxThrow(self.exc(x))
        for lv in self.modifies(x):
            if isinstance(lv, tuple):
                I.gset(lv[1], I.refresh(I.gget(lv[1]), lv[1]))
            else:
                I.write(lv, I.refresh(I.read(lv), 'm'))
        x.ret = self.result(x)
        for nm, p in self.post(x):
            I.assume(p)
        return x.ret

    def exc(self, x):
        return 'std::exception'

    # -- verification of the body
    def verify(self, I):
        """Generates and discharges the obligations of every definition of the function in the module."""
        defs = I.m.find(self.name, (lambda f, m: self.instance(f, I)) if self.instance else None)
        defs = [d for d in defs if self.pick(d, I)]
        if not defs:
            raise Unsupported('function under contract not found: ' + self.name)
        seen = set()
        n = 0
        for d in defs:
            if d['loc'] in seen and not self.all_instances:
                continue
            seen.add(d['loc'])
            self.verify_def(I, d)
            n += 1
        return n

    all_instances = False

    def pick(self, d, I):
        return True

    def verify_def(self, I, d):
        saved = (I.cfg, I.templates, I.current)
        from .interp import Cfg
        cfg = Cfg(**{**saved[0].__dict__, **self.cfg})
        cfg.unroll = self.unroll
        I.cfg = cfg
        I.current = self.name
        own = I.contracts.pop(self.name, None) if not self.recursive else None
        returned = []
        try:
            def run():
                x = X(I, None, [], d)
                self.setup(x)
                self.ghost(x)
                I.templates = list(self.invariants(x))
                for nm, p in self.pre(x):
                    I.assume(p)
                if not returned:
                    r = I.solver.sat(I.st.pc, 3000)
                    if r == 'unsat':
                        I.obls.append(Obl_('%s: precondition satisfiable (vacuity guard)' % self.name, 'refuted', I))
                        raise PathEnd()
                x.old = I.st.copy()
                x.d = d
                try:
                    x.ret = self.call_body(x, d)
                except CxxThrow as t:
                    returned.append('throw')
                    if self.may_throw == 'checked':
                        for nm, p in self.on_throw(x, t):
                            I.check('%s: on throw: %s' % (self.name, nm), p)
                    if self.may_throw:
                        return
                    tc = self.throws(x)
                    I.check('%s: throws %s only when specified' % (self.name, t.cls), tc if tc is not None else BoolVal(False))
                    for nm, p in self.on_throw(x, t):
                        I.check('%s: on throw: %s' % (self.name, nm), p)
                    return
                returned.append('ret')
                I.xcur = x
                tc = self.throws(x)
                if tc is not None:
                    I.check('%s: returns normally only when not specified to throw' % self.name, Not(tc))
                for nm, p in self.post(x):
                    I.check('%s: ensures %s' % (self.name, nm), p)
                self.check_frame(x)
            n0 = len(I.obls)
            I.explore(run, State())
            if not returned:
                I.obls.append(Obl_('%s: some path reaches the end (vacuity guard)' % self.name, 'refuted', I))
            if len(I.obls) == n0:
                I.obls.append(Obl_('%s: generates obligations (vacuity guard)' % self.name, 'refuted', I))
        finally:
            I.cfg, I.templates, I.current = saved
            if own is not None:
                I.contracts[self.name] = own

    recursive = False

    def call_body(self, x, d):
        I = x.I
        if d.get('ctor'):
            v = I.construct(d, x.args)
            x.this = I.new_root(v)
            return v
        return I.inline(d, x.this, x.args)

    def check_frame(self, x):
        """Everything reachable by reference and not listed in modifies is unchanged."""
        I = x.I
        if x.f.get('ctor'):
            return
        mods = self.modifies(x)
        lvs = [m for m in mods if isinstance(m, LV)]

        def listed(lv):
            for m in lvs:
                if m.kind == lv.kind and (m.base == lv.base if m.kind == 'root' else m.base.eq(lv.base)) and \
                        (m.path == lv.path[:len(m.path)]):
                    return True
            return False

        def go(lv, old, new):
            if listed(lv) or old is new:
                return
            if isinstance(old, StV) and isinstance(new, StV):
                for k in old.f:
                    go(lv + ('f', k), old.f[k], new.f[k])
                return
            if isinstance(old, PyV):
                return
            a, b = leaves(old), leaves(new)
            if all(p.eq(q) for p, q in zip(a, b)):
                return
            if isinstance(old, VecV):
                g = vec_eq(old, new)
            else:
                g = And([p == q for p, q in zip(a, b)])
            I.check('%s: frame: %s unchanged' % (self.name, '.'.join(str(c[1]) for c in lv.path) or 'argument'), g)
        roots = []
        if x.this is not None and x.this.kind == 'root':
            roots.append(x.this)
        for i, a in enumerate(x.args):
            if isinstance(a, LV) and a.kind == 'root':
                roots.append(a)
        for lv in roots:
            go(lv, x.was(lv), I.read(lv))


def Obl_(name, status, I):
    from .interp import Obl
    return Obl(name, status, 'vacuity', 0, None, (), I.current)


def vec_eq(a, b):
    i = z3.Int('i!eq')
    es = [z3.Select(p, i) == z3.Select(q, i) for p, q in zip(leaves(a.el), leaves(b.el))]
    return And(a.len == b.len, z3.ForAll([i], Implies(And(i >= 0, i < a.len), And(es))))


class Lemma(Contract):
    """A statement over contracts only: run(x) executes calls through their contracts and checks goals."""

    def verify(self, I):
        saved = (I.cfg, I.templates, I.current)
        from .interp import Cfg
        I.cfg = Cfg(**{**saved[0].__dict__, **self.cfg})
        I.cfg.unroll = self.unroll
        I.current = self.name
        done = []
        try:
            def go():
                x = X(I, None, [], None)
                self.run(x)
                done.append(1)
            n0 = len(I.obls)
            I.explore(go, State())
            if not done or len(I.obls) == n0:
                I.obls.append(Obl_('%s: lemma reaches its goal (vacuity guard)' % self.name, 'refuted', I))
        finally:
            I.cfg, I.templates, I.current = saved
        return 1

    def matches(self, f, I):
        return False

    def callf(self, x, qname, this, args, sig=None):
        """Calls function qname (through its contract when it has one)."""
        I = x.I
        ds = I.m.find(qname, (lambda f, m: sig(f, I)) if sig else None)
        if not ds:
            raise Unsupported('function not found: ' + qname)
        return I.dispatch(Call(I, ds[0], this, None, None, args))

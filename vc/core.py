"""Values, memory and solver interface of the verification-condition generator."""
import z3, select as select_, signal, time, subprocess, os, tempfile, itertools
from z3 import And, Or, Not, Implies, If, Select, Store, IntVal, BoolVal, RealVal, ForAll, Exists

INT, BOOL, REAL = z3.IntSort(), z3.BoolSort(), z3.RealSort()
FP = z3.Float64()


class Unsupported(Exception):
    """The function uses something outside the verifier's subset: nothing is proved about it."""


class PathEnd(Exception):
    pass


class NeedFork(Exception):
    pass


class Abrupt(Exception):
    pass


class CxxThrow(Abrupt):
    def __init__(self, cls, val=None):
        self.cls, self.val = cls, val


class CxxReturn(Abrupt):
    def __init__(self, val=None):
        self.val = val


class CxxBreak(Abrupt):
    pass


class CxxContinue(Abrupt):
    pass


def forall(vs, body, pat=None):
    """Quantifier with a trigger when the trigger is one z3 accepts."""
    if pat is not None:
        if not isinstance(pat, (list, tuple)):
            pat = [pat]
        if not any(_bad(p) for p in pat):
            try:
                return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*pat)] if len(pat) > 1 else list(pat))
            except z3.Z3Exception:
                pass
    return z3.ForAll(vs, body)


def _bad(t, depth=0):
    if z3.is_app(t):
        k = t.decl().kind()
        if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_EQ):
            return True
        return any(_bad(c, depth + 1) for c in t.children())
    return False


# ---------------------------------------------------------------- values
class V:
    __slots__ = ()


class SV(V):
    """Scalar leaf."""
    __slots__ = ('t', 'T')

    def __init__(self, t, T=None):
        self.t, self.T = t, T

    def __repr__(self):
        return 'SV(%s)' % self.t


class StV(V):
    """Record by value."""
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __repr__(self):
        return 'StV(%s,%s)' % (self.cls, self.f)


class VecV(V):
    """Sequence: length and element leaves lifted over Int."""
    __slots__ = ('len', 'el', 'kind')

    def __init__(self, ln, el, kind='vec'):
        self.len, self.el, self.kind = ln, el, kind

    def __repr__(self):
        return 'VecV(%s)' % self.len


class MapV(V):
    """Finite map (val None: set): domain, value leaves lifted over the key sort, size."""
    __slots__ = ('has', 'val', 'size', 'ks', 'T')

    def __init__(self, has, val, size, ks, T=None):
        self.has, self.val, self.size, self.ks, self.T = has, val, size, ks, T


class ItV(V):
    """Iterator or pointer into a container. kind: vec | map | node; end: BoolRef for map iterators."""
    __slots__ = ('kind', 'cont', 'pos', 'end', 'rev')

    def __init__(self, kind, cont, pos, end=None, rev=False):
        self.kind, self.cont, self.pos, self.end, self.rev = kind, cont, pos, end, rev

    def __repr__(self):
        return 'It(%s,%s)' % (self.cont, self.pos)


class PyV(V):
    """Python-level value: closure, address of a local, ... (never a symbolic leaf)."""
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return 'PyV(%s)' % (self.o,)


VOID = PyV('void')


class LV:
    __slots__ = ('kind', 'base', 'path')

    def __init__(self, kind, base, path=()):
        self.kind, self.base, self.path = kind, base, path

    def __add__(self, comp):
        return LV(self.kind, self.base, self.path + (comp,))

    def __repr__(self):
        return 'LV(%s,%s,%s)' % (self.kind, self.base, self.path)

    def same(self, o):
        if not isinstance(o, LV) or self.kind != o.kind or len(self.path) != len(o.path):
            return False
        if self.kind == 'root':
            if self.base != o.base:
                return False
        elif not self.base.eq(o.base):
            return False
        for a, b in zip(self.path, o.path):
            if a[0] != b[0]:
                return False
            for x, y in zip(a[1:], b[1:]):
                if isinstance(x, z3.ExprRef):
                    if not (isinstance(y, z3.ExprRef) and x.eq(y)):
                        return False
                elif x != y:
                    return False
        return True


def pyeq(a, b):
    if a is b:
        return True
    if isinstance(a, LV):
        return a.same(b)
    if hasattr(a, 'pyeq'):
        return a.pyeq(b)
    return type(a) == type(b) and a == b


def vmap(f, *vs):
    """Applies f to corresponding leaves; raises NeedFork when the structures differ."""
    v = vs[0]
    if any(type(w) is not type(v) for w in vs[1:]):
        raise NeedFork('shape')
    if isinstance(v, SV):
        return SV(f(*[w.t for w in vs]), v.T)
    if isinstance(v, StV):
        if any(w.cls != v.cls for w in vs[1:]):
            raise NeedFork('cls')
        return StV(v.cls, {k: vmap(f, *[w.f[k] for w in vs]) for k in v.f})
    if isinstance(v, VecV):
        return VecV(f(*[w.len for w in vs]), vmap(f, *[w.el for w in vs]) if v.el is not None else None, v.kind)
    if isinstance(v, MapV):
        return MapV(f(*[w.has for w in vs]), vmap(f, *[w.val for w in vs]) if v.val is not None else None,
                    f(*[w.size for w in vs]), v.ks, v.T)
    if isinstance(v, ItV):
        for w in vs[1:]:
            if w.kind != v.kind or w.rev != v.rev or not pyeq(w.cont, v.cont):
                raise NeedFork('it')
        if v.kind == 'map':
            if any(w.pos is None for w in vs):
                if not all(w.pos is None for w in vs):
                    raise NeedFork('mapit')
                return v
        return ItV(v.kind, v.cont, f(*[w.pos for w in vs]), f(*[w.end for w in vs]) if v.end is not None else None, v.rev)
    if isinstance(v, PyV):
        for w in vs[1:]:
            if not pyeq(w.o, v.o):
                raise NeedFork('py')
        return v
    raise Unsupported('vmap %r' % (v,))


def leaves(v):
    if isinstance(v, SV):
        return [v.t]
    if isinstance(v, StV):
        return [x for k in v.f for x in leaves(v.f[k])]
    if isinstance(v, VecV):
        return [v.len] + (leaves(v.el) if v.el is not None else [])
    if isinstance(v, MapV):
        return [v.has] + (leaves(v.val) if v.val is not None else []) + [v.size]
    if isinstance(v, ItV):
        return ([v.pos] if v.pos is not None else []) + ([v.end] if v.end is not None else [])
    return []


def rebuild(v, ts):
    """Inverse of leaves: same structure, leaf terms taken from the iterator ts."""
    it = iter(ts)
    return vmap(lambda _: next(it), v)


def select(v, i):
    return vmap(lambda t: Select(t, i), v)


def store(v, i, x):
    return vmap(lambda t, y: Store(t, i, y), v, x)


def ite(c, a, b):
    def f(x, y):
        return x if x.eq(y) else If(c, x, y)
    return vmap(f, a, b)


def lift_sort(s, lift):
    for k in reversed(lift):
        s = z3.ArraySort(k, s)
    return s


_pair_sorts = {}


def tuple_sort(sorts):
    key = tuple(s.name() if s.kind() != z3.Z3_ARRAY_SORT else str(s) for s in sorts)
    if key not in _pair_sorts:
        d = z3.Datatype('Tup_' + '_'.join(key))
        d.declare('mk', *[('p%d' % i, s) for i, s in enumerate(sorts)])
        _pair_sorts[key] = d.create()
    return _pair_sorts[key]


def enc(v):
    """Encodes a structured value as a single SMT term (map keys)."""
    ls = leaves(v)
    if len(ls) == 1:
        return ls[0]
    s = tuple_sort([x.sort() for x in ls])
    return s.mk(*ls)


def dec(t, like):
    ls = leaves(like)
    if len(ls) == 1:
        return rebuild(like, [t])
    s = tuple_sort([x.sort() for x in ls])
    return rebuild(like, [s.accessor(0, i)(t) for i in range(len(ls))])


# ---------------------------------------------------------------- state
class State:
    def __init__(self):
        self.roots = {}
        self.heap = {}
        self.ghost = {}
        self.pc = []
        self.facts = set()
        self.ctr = 0
        self.epoch = {}
        self.maps = {}

    def copy(self):
        s = State()
        s.roots, s.heap, s.ghost = dict(self.roots), dict(self.heap), dict(self.ghost)
        s.pc, s.facts, s.ctr, s.epoch, s.maps = list(self.pc), set(self.facts), self.ctr, dict(self.epoch), dict(self.maps)
        return s

    def set(self, o):
        for k in ('roots', 'heap', 'ghost', 'pc', 'facts', 'ctr', 'epoch', 'maps'):
            setattr(self, k, getattr(o, k))


# ---------------------------------------------------------------- solver
ISOLATE = [False]
HUNG = [0]


def run_check(s):
    """s.check(). z3 sometimes misses its own timeout inside the theory of arrays (not even an interrupt ends it); with
    ISOLATE the check runs in a forked child which is killed then, and the answer is 'unknown'."""
    if not ISOLATE[0]:
        return s.check()
    lim = getattr(s, 'limit', 10) * 1.5 + 1
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.write(w, str(s.check()).encode())
        finally:
            os._exit(0)
    os.close(w)
    try:
        ready, _, _ = select_.select([r], [], [], lim)
        out = os.read(r, 16).decode() if ready else ''
    finally:
        os.close(r)
        if not ready:
            HUNG[0] += 1
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    return {'sat': z3.sat, 'unsat': z3.unsat}.get(out, z3.unknown)


def split_goal(g):
    """Goals which together are equivalent to g (quantified variables become fresh constants)."""
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.FreshConst(g.var_sort(i), 'sk') for i in range(g.num_vars())]
        return split_goal(z3.substitute_vars(g.body(), *reversed(vs)))
    if z3.is_and(g):
        return [q for c in g.children() for q in split_goal(c)]
    if z3.is_implies(g):
        return [Implies(g.arg(0), q) for q in split_goal(g.arg(1))]
    return [g]


class Solver:
    """z3 first, cvc5 on 'unknown'."""

    def __init__(self):
        self.time = 0.0
        self.queries = 0
        self.by = {'z3': 0, 'cvc5': 0, 'simplifier': 0}
        self.axioms = []
        self.use_cvc5 = True

    def _mk(self, facts, timeout, simple=False, axioms=True):
        s = z3.SimpleSolver() if simple else z3.Solver()
        s.set('timeout', int(timeout))
        s.limit = int(timeout) / 1000.0
        for a in self.axioms if axioms else []:
            s.add(a)
        for f in facts:
            s.add(f)
        return s

    def sat(self, facts, timeout=1500):
        """'sat' | 'unsat' | 'unknown'"""
        self.queries += 1
        t0 = time.time()
        s = self._mk(facts, timeout)
        r = str(run_check(s))
        self.time += time.time() - t0
        return r

    def valid(self, facts, goal, timeout=10000, cvc5_timeout=None, want_model=True, axioms=True, part=False):
        """-> (status, backend, model)"""
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.by['simplifier'] += 1
            return 'proved', 'simplifier', None
        self.queries += 1
        t0 = time.time()
        # the two front ends of z3 behave quite differently on quantified problems
        s = self._mk(facts, min(timeout * 0.5, 400) if self.portfolio else max(timeout * 0.5, 100), False, axioms)
        s.add(Not(goal))
        r = run_check(s)
        if r == z3.unknown and ISOLATE[0]:
            # weaker theory of arrays (a refutation means nothing)
            s1 = self._mk(facts, min(timeout * 0.5, 1500), False, axioms)
            s1.set('smt.array.extensional', False)
            s1.add(Not(goal))
            if run_check(s1) == z3.unsat:
                self.time += time.time() - t0
                self.by['z3'] += 1
                return 'proved', 'z3', None
        if r == z3.unknown and ISOLATE[0] and self.portfolio and not part:
            parts = split_goal(goal)
            if len(parts) > 1:
                self.time += time.time() - t0
                for q in parts:
                    w = self.valid(facts, q, timeout, cvc5_timeout, want_model, axioms, True)
                    if w[0] != 'proved':
                        return w
                return w
        if r == z3.unknown and self.portfolio:
            s1 = self._mk(facts, min(timeout * 0.5, 300), True, axioms)
            s1.add(Not(goal))
            r = run_check(s1)
            if r != z3.unknown:
                s = s1
        if r == z3.unknown and self.portfolio:
            be = self.race(s, timeout)
            if be:
                self.time += time.time() - t0
                self.by[be] = self.by.get(be, 0) + 1
                return 'proved', be, None
        elif r == z3.unknown:
            s = self._mk(facts, timeout, True, axioms)
            s.add(Not(goal))
            r = run_check(s)
        if r == z3.unknown and timeout >= 4000:
            # second configuration before the other provers
            s2 = self._mk(facts, timeout / 2, False, axioms)
            s2.set('smt.arith.solver', 2)
            s2.set('smt.random_seed', 7)
            s2.add(Not(goal))
            r2 = run_check(s2)
            if r2 != z3.unknown:
                s, r = s2, r2
        self.time += time.time() - t0
        if r == z3.unsat:
            self.by['z3'] += 1
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', None if ISOLATE[0] else s.model()
        if self.use_cvc5 and cvc5_timeout:
            t0 = time.time()
            txt = s.to_smt2()
            r = self.ext(['cvc5', '--lang', 'smt2', '--tlimit=%d' % cvc5_timeout], '(set-logic ALL)\n' + txt, cvc5_timeout)
            be = 'cvc5'
            if r != 'unsat':
                r = self.ext(['/usr/bin/z3', '-T:%d' % max(1, cvc5_timeout // 1000)], txt, cvc5_timeout)
                be = 'z3 4.8'
            self.time += time.time() - t0
            if r == 'unsat':
                self.by[be] = self.by.get(be, 0) + 1
                return 'proved', be, None
        return 'unknown', 'z3', None

    portfolio = False

    def race(self, s, timeout):
        """cvc5 and the older z3 side by side; the name of the one which proves, or None."""
        txt = s.to_smt2()
        ps = []
        fd, p = tempfile.mkstemp(suffix='.smt2')
        os.write(fd, ('(set-logic ALL)\n' + txt).encode())
        os.close(fd)
        lim = timeout / 1000.0
        try:
            for nm, cmd in (('cvc5', ['cvc5', '--lang', 'smt2', '--tlimit=%d' % timeout]), ('z3 4.8', ['/usr/bin/z3', '-t:%d' % timeout])):
                ps.append((nm, subprocess.Popen(cmd + [p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            end = time.time() + lim + 0.5
            live = list(ps)
            while live and time.time() < end:
                for x in list(live):
                    if x[1].poll() is not None:
                        live.remove(x)
                        if x[1].stdout.read().strip().split('\n')[0] == 'unsat':
                            return x[0]
                time.sleep(0.004)
            return None
        finally:
            for nm, q in ps:
                if q.poll() is None:
                    q.kill()
                q.wait()
                q.stdout.close()
            os.unlink(p)

    def ext(self, cmd, txt, timeout):
        fd, p = tempfile.mkstemp(suffix='.smt2')
        os.write(fd, txt.encode())
        os.close(fd)
        try:
            r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=timeout / 1000.0 + 5)
            return r.stdout.strip().split('\n')[0]
        except Exception:
            return 'unknown'
        finally:
            os.unlink(p)

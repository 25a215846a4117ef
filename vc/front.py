"""Front end: runs the astx extractor on the real sources and indexes the resulting JSON AST."""
import json, os, subprocess, re, hashlib, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
CXXFLAGS = ['-std=c++11', '-include', 'string', '-include', 'sstream', '-w',
            '-I' + REPO + '/core/src', '-I' + REPO + '/core/lib', '-I' + REPO + '/core', '-I' + REPO + '/core/shared']


class ExtractError(Exception):
    pass


def ensure_astx():
    """Builds the extractor once (setup_cmd does it; checks rebuild it when it is missing)."""
    src = os.path.join(VERIF, 'tools', 'astx.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    out = os.path.join(BUILD, 'astx-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    cmd = ['g++', '-O1', '-w', '-fno-rtti', '-std=c++17', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('cannot build astx: ' + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


def strip_targs(n):
    """std::vector<int>::push_back -> std::vector::push_back (operators kept)."""
    m = re.search(r'operator[<>=!\-\(\[].*$', n)
    tail = ''
    if m and (m.start() == 0 or n[m.start() - 1] == ':' ):
        tail = n[m.start():]
        n = n[:m.start()]
    out, d = [], 0
    for ch in n:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out) + tail


class Module:
    def __init__(self, src, roots=None):
        astx = ensure_astx()
        fd, tmp = tempfile.mkstemp(suffix='.json', dir=BUILD)
        os.close(fd)
        try:
            cmd = [astx, tmp, ','.join(roots or [REPO + '/core', VERIF]), src, '--', '/usr/bin/clang++'] + CXXFLAGS + \
                ['-fsyntax-only', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode or os.path.getsize(tmp) == 0:
                raise ExtractError('clang could not parse %s:\n%s' % (src, (r.stderr + r.stdout)[-3000:]))
            d = json.load(open(tmp))
        finally:
            os.unlink(tmp)
        self.src = src
        self.types = d['types']
        for i, t in enumerate(self.types):
            t['i'] = i
        self.funcs = {}
        self.byname = {}
        for f in d['funcs']:
            f['q'] = strip_targs(f['n'])
            self.funcs[f['id']] = f
            self.byname.setdefault(f['q'], []).append(f)
        self.records = {r['rid']: r for r in d['records']}
        self.recbyname = {}
        for r in d['records']:
            self.recbyname.setdefault(self.recname(r), r)
        self.globals = {g['id']: g for g in d['globals']}
        self.globbyname = {g['n']: g for g in d['globals']}

        # a non-const namespace-scope scalar that no extracted function can modify is as good as constant:
        # every occurrence is an immediate read
        mut = {i for i, g in self.globals.items() if not g['const']}
        if mut:
            bad = set()

            def walk(n, read):
                if isinstance(n, list):
                    for x in n:
                        walk(x, False)
                elif isinstance(n, dict):
                    if n.get('e') == 'var' and n.get('id') in mut:
                        if not read:
                            bad.add(n['id'])
                        return
                    rd = n.get('e') == 'cast' and n.get('ck') == 'LValueToRValue'
                    for k, x in n.items():
                        if isinstance(x, (list, dict)):
                            walk(x, rd and k == 'x')
            for f in d['funcs']:
                walk(f, False)
            for i in mut - bad:
                self.globals[i]['const'] = 'unwritten'

    def recname(self, r):
        t = self.types[r['ty']] if 'ty' in r else None
        return r['n']

    def find(self, q, pred=None):
        c = [f for f in self.byname.get(q, []) if 'body' in f or f.get('ctor')]
        if pred:
            c = [f for f in c if pred(f, self)]
        return c

    def T(self, i):
        return self.types[i]

    def callees(self, fid):
        """Functions called directly by fid (virtual calls: all overriders)."""
        if not hasattr(self, '_callees'):
            self._callees, self._over = {}, {}
            for r in self.records.values():
                for m in r['methods']:
                    for o in m['over']:
                        self._over.setdefault(o, set()).add(m['id'])
        if fid not in self._callees:
            out = set()

            def add(i):
                if i not in out:
                    out.add(i)
                    for j in self._over.get(i, ()):
                        add(j)

            def walk(n):
                if isinstance(n, list):
                    for x in n:
                        walk(x)
                elif isinstance(n, dict):
                    if n.get('e') in ('call', 'mcall', 'opcall', 'ctor') and isinstance(n.get('f'), dict):
                        add(n['f']['id'])
                    if n.get('e') == 'lambda':
                        c = self.records[n['rid']].get('call')
                        if c is not None:
                            add(c)
                    for x in n.values():
                        if isinstance(x, (list, dict)):
                            walk(x)
            f = self.funcs.get(fid)
            if f is not None:
                walk(f.get('body'))
                walk(f.get('inits'))
            self._callees[fid] = out
        return self._callees[fid]

    def cyclic(self, fid):
        """The function can reach itself through calls."""
        if not hasattr(self, '_cyc'):
            self._cyc = {}
        if fid not in self._cyc:
            seen, work = set(), list(self.callees(fid))
            while work:
                i = work.pop()
                if i not in seen:
                    seen.add(i)
                    work += self.callees(i)
            self._cyc[fid] = fid in seen
        return self._cyc[fid]

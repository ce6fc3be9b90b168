"""Loads the program model: runs the libTooling extractor over translation units of /repo and indexes it."""
import hashlib, json, os, subprocess, sys, tarfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GS_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
GX = os.path.join(BUILD, 'gx')

# conversions that throw on text they cannot convert
STD_THROW = frozenset('std::' + x for x in 'stoi stol stoll stoul stoull stof stod stold'.split())

class AnalysisBroken(Exception):
    pass

def build_gx():
    src = os.path.join(VERIF, 'extract', 'gx.cpp')
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, 'gx.sha')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(GX) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    L = '/usr/lib/llvm-18'
    tmp = GX + '.%d' % os.getpid()
    cmd = ['clang++-18', '-O1', '-std=c++17', '-fno-rtti', '-w', '-I%s/include' % L, src, '-o', tmp,
           '-L%s/lib' % L, '-l:libclang-cpp.so.18.1', '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('extractor does not build: ' + r.stderr[-2000:])
    os.rename(tmp, GX)
    open(stamp, 'w').write(h)

def includes():
    inc = ['-I' + os.path.join(VERIF, 'shim', 'inc')]
    deps = [('tools/antlr4-cpp-runtime-4/runtime/src', 'tools/antlr4-cpp-runtime-4.tar.gz'),
            ('tools/workflow/_include', None), ('tools/log4cplus/include', None), ('tools/zlib-1.3/include', None)]
    for d, tar in deps:
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            inc.append('-I' + p)
        elif tar and os.path.exists(os.path.join(REPO, tar)):
            dst = os.path.join(BUILD, 'deps')
            if not os.path.isdir(os.path.join(dst, os.path.basename(tar)[:-7])):
                os.makedirs(dst, exist_ok=True)
                tarfile.open(os.path.join(REPO, tar)).extractall(dst)
            inc.append('-I' + os.path.join(dst, d[len('tools/'):]))
    return inc

def flags():
    f = ['-std=c++11', '-pthread', '-D_FILE_OFFSET_BITS=64', '-D_LARGEFILE64_SOURCE', '-D_LARGEFILE_SOURCE', '-w',
         '-ferror-limit=0', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    return f + includes()

_hdr = None
def header_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        for d, ds, fs in sorted(os.walk(REPO)):
            rel = os.path.relpath(d, REPO)
            if rel.split('/')[0] in ('.git', 'tools', '_build', 'data', 'backups', 'logs', 'lib', 'bin', '.objs', 'docs', '.debug'):
                ds[:] = []
                continue
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp')):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
        h.update(open(GX, 'rb').read())
        h.update(' '.join(flags()).encode())
        _hdr = h.hexdigest()
    return _hdr

def extract(tu):
    p = os.path.join(REPO, tu)
    if not os.path.exists(p):
        raise AnalysisBroken('translation unit %s does not exist' % tu)
    key = hashlib.sha256((header_hash() + tu + REPO).encode() + open(p, 'rb').read()).hexdigest()[:32]
    cdir = os.path.join(BUILD, 'cache')
    os.makedirs(cdir, exist_ok=True)
    out = os.path.join(cdir, key + '.json')
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run([GX, REPO, tmp, p, '--'] + flags(), cwd=REPO, capture_output=True, text=True)
        if not os.path.exists(tmp) or os.path.getsize(tmp) == 0:
            raise AnalysisBroken('extractor failed on %s: %s' % (tu, r.stderr[-1500:]))
        os.rename(tmp, out)
    try:
        return json.load(open(out))
    except ValueError as e:
        os.unlink(out)
        raise AnalysisBroken('extractor output of %s unreadable: %s' % (tu, e))

_base = None
def base_fns():
    global _base
    if _base is None:
        p = os.path.join(VERIF, 'engine', 'base_fns.json')
        _base = json.load(open(p)) if os.path.exists(p) else {}
    return _base

class Fn:
    new = False
    def __init__(self, d, tu):
        self.d = d; self.tu = tu
        self.q = d['q']; self.u = d['u']; self.file = d['file']; self.line = d['l']
        self.nodes = d.get('nodes', [])
        self.blocks = {b['id']: b for b in d.get('blocks', [])}
        self.params = d['params']; self.rt = d['rt']; self.cls = d.get('cls')
        self.entry = d.get('entry'); self.exit = d.get('exit')
        self.name = self.q.split('::')[-1]
    def calls(self):
        for i, n in enumerate(self.nodes):
            if n and n.get('k') in ('call', 'ctor', 'new'):
                yield i, n
    def __repr__(self):
        return self.q

class Prog:
    def __init__(self, tus):
        build_gx()
        with ThreadPoolExecutor(8) as ex:
            ds = list(ex.map(extract, tus))
        self.tus = tus
        self.fns = {}; self.byname = {}; self.records = {}; self.enums = {}; self.globals = {}
        self.errors = {}
        self.nfun = 0
        for tu, d in zip(tus, ds):
            if d['errors']:
                self.errors[tu] = d['errors']
            for f in d['functions']:
                if not f['u'] or f['u'] in self.fns:
                    continue
                F = Fn(f, tu)
                self.fns[F.u] = F
                self.byname.setdefault(F.q, []).append(F)
            for r in d['records']:
                self.records.setdefault(r['q'], r)
            for e in d['enums']:
                self.enums.setdefault(e['q'], e)
            for g in d['globals']:
                self.globals.setdefault(g['q'], g)
        self.over = {}
        for F in self.fns.values():
            for o in F.d.get('over', []):
                self.over.setdefault(o, []).append(F)
        self._cg()
        self._new()
    def _new(self):
        """functions that did not exist when the rules were written: helpers extracted since are judged inside their callers"""
        base = base_fns()
        for F in self.fns.values(): F.new = False
        if not base: return
        for q, l in self.byname.items():
            if len(l) > base.get(q, 0):
                if q in base and '(anonymous class)' not in q: continue
                for F in l: F.new = bool(F.blocks)
        ch = True
        while ch:
            ch = False
            for F in self.fns.values():
                if F.new and not F.cls and not F.d.get('static_member'):
                    c = set(self.fns[u].cls for u in self.callers.get(F.u, ()) if u != F.u)
                    if len(c) == 1 and (k := c.pop()): F.cls = k; ch = True
    def home(self, F, seen=()):
        """the functions of the original program a new function works for"""
        if not F.new: return {F.u}
        r = set()
        for u in self.callers.get(F.u, ()):
            if u not in seen and u != F.u: r |= self.home(self.fns[u], tuple(seen) + (F.u,))
        return r
    def flat(self, F, seen=None):
        """F and the new functions its code was moved to"""
        if seen is None: seen = {F.u}
        r = [F]
        for u in sorted(self.callees.get(F.u, ())):
            G = self.fns[u]
            if G.new and u not in seen: seen.add(u); r += self.flat(G, seen)
        return r
    def flatcalls(self, F):
        for G in self.flat(F):
            for i, n in G.calls(): yield G, i, n
    def noreturn(self, F):
        """no path of F reaches its end"""
        if getattr(F, '_nr', None) is None:
            F._nr = False
            seen = {F.entry}; st = [F.entry]
            while st:
                b = F.blocks[st.pop()]
                if b.get('nr') or any(isinstance(e, int) and (F.nodes[e].get('k') == 'throw' or F.nodes[e].get('k') == 'call' and F.nodes[e].get('u') in self.fns and F.nodes[e].get('u') != F.u and self.fns[F.nodes[e]['u']].new and self.noreturn(self.fns[F.nodes[e]['u']])) for e in b['e']): continue
                for y in b['s']:
                    if y >= 0 and y not in seen: seen.add(y); st.append(y)
            F._nr = F.exit not in seen
        return F._nr
    def _cg(self):
        self.callees = {}; self.callers = {}
        for F in self.fns.values():
            s = set()
            for n in F.nodes:
                if not n: continue
                k = n.get('k')
                if k in ('call', 'ctor', 'new', 'lambda', 'ref'):
                    u = n.get('u')
                    if u in self.fns and (k != 'ref' or n.get('d') == 'func'): s.add(u)
                    if k == 'call' and n.get('virt'):
                        for o in self.over.get(u, []): s.add(o.u)
            for b in F.blocks.values():
                for e in b['e']:
                    if isinstance(e, dict) and e['k'] == 'dtor' and e.get('u') in self.fns:
                        s.add(e['u'])
            self.callees[F.u] = s
            for t in s: self.callers.setdefault(t, set()).add(F.u)
        self._mod = None
    def get(self, q, nparams=None, sig=None, required=True):
        """the function(s) with qualified name q; a missing anchor is an analysis error"""
        c = self.byname.get(q, [])
        if nparams is not None: c = [f for f in c if len(f.params) == nparams]
        if sig is not None: c = [f for f in c if sig(f)]
        if required and not c:
            raise AnalysisBroken('anchor function %s not found in %s' % (q, ', '.join(self.tus)))
        return c
    def one(self, q, **kw):
        c = self.get(q, **kw)
        if len(c) != 1: raise AnalysisBroken('anchor function %s is ambiguous (%d)' % (q, len(c)))
        return c[0]
    def cls_fns(self, cls):
        return [f for f in self.fns.values() if f.cls == cls]
    def reach(self, pred):
        """functions from which a function satisfying pred(F) is reachable (including itself)"""
        seed = [u for u, F in self.fns.items() if pred(F)]
        seen = set(seed); st = list(seed)
        while st:
            u = st.pop()
            for c in self.callers.get(u, ()):
                if c not in seen:
                    seen.add(c); st.append(c)
        return seen
    def forward(self, us):
        seen = set(us); st = list(us)
        while st:
            for c in self.callees.get(st.pop(), ()):
                if c not in seen:
                    seen.add(c); st.append(c)
        return seen
    @property
    def modsets(self):
        """transitively assigned field / global names per function"""
        if self._mod is None:
            d = {}
            for u, F in self.fns.items():
                s = set()
                for n in F.nodes:
                    if not n: continue
                    if n.get('k') == 'asg' or (n.get('k') == 'un' and n['op'] in ('++', '--', 'p++', 'p--')) or (n.get('k') == 'call' and n.get('op') in ('=', '+=', '++', '--')):
                        t = n['args'][0] if n.get('k') != 'call' or 'o' not in n else n['o']
                        t = F.nodes[t]
                        while t.get('k') in ('idx',) or (t.get('k') == 'un' and t['op'] == '*') or (t.get('k') == 'call' and t.get('op') in ('[]', '*')):
                            t = F.nodes[t['args'][0] if t.get('k') != 'call' or 'o' not in t else t['o']]
                        if t.get('k') == 'mem': s.add(t['q'])
                        elif t.get('k') == 'ref' and t.get('d') in ('global', 'slocal'): s.add(t.get('q', t['n']))
                    elif n.get('k') == 'call' and 'o' in n and not n.get('cm'):
                        t = F.nodes[n['o']]
                        if t.get('k') == 'mem' and n.get('u') not in self.fns: s.add(t['q'])
                    if n.get('k') == 'call' and n.get('pm'):
                        for ch, a in zip(n['pm'][-len(n['args']):] if n['args'] else '', n['args']):
                            t = F.nodes[a]
                            if t.get('k') == 'un' and t['op'] == '&': t = F.nodes[t['args'][0]]; ok = ch == 'p'
                            else: ok = ch == 'r'
                            if ok and t.get('k') == 'mem': s.add(t['q'])
                d[u] = s
            ch = True
            while ch:
                ch = False
                for u in d:
                    for c in self.callees[u]:
                        if not d[c] <= d[u]:
                            d[u] |= d[c]; ch = True
            self._mod = d
        return self._mod
    @property
    def throwers(self):
        """functions that may let an exception escape by an explicit throw (transitively, ignoring catches)"""
        if getattr(self, '_thr', None) is None:
            def has(F):
                return any(n and n.get('k') == 'throw' for n in F.nodes)
            self._thr = self.reach(has)
        return self._thr
    def bases(self, t):
        out = set()
        for b in (self.records.get(t) or {}).get('bases', []): out.add(b); out |= self.bases(b)
        return out
    def catches(self, ht, typ):
        """does a handler of type ht surely catch an exception of type typ"""
        if ht == '...': return True
        if typ == '?': return False
        h = ht.replace('const ', '').replace('&', '').strip(); t = typ.replace('const ', '').replace('&', '').strip()
        if h == t: return True
        if h == 'std::exception' and t.startswith('std::') and 'basic_string' not in t and not t.endswith('*'): return True
        return h in self.bases(t)
    @property
    def escapes(self):
        """function -> types of the explicitly thrown exceptions that may leave it (handlers taken into account)"""
        if getattr(self, '_esc', None) is None:
            d = {u: set() for u in self.fns}
            inside = {u: set() for u in self.fns}       # what may be thrown inside a try body of the function (for rethrows)
            # generated parsers call the visitor back from library code that has no body here
            visitors = [u for u, F in self.fns.items() if F.name.startswith('visit') and F.cls and any(b.endswith('Visitor') for b in self.bases(F.cls))]
            sites = {}                                  # callee -> [(caller, try)]
            def leave(F, typ, t):
                while t >= 0:
                    T = F.d['trys'][t]
                    if any(self.catches(ht, typ) for ht, hb in T['h']): return False
                    t = T['p']
                return True
            work = []
            def add(u, typ, t):
                F = self.fns[u]
                if t >= 0: inside[u].add(typ)
                if typ not in d[u] and leave(F, typ, t): d[u].add(typ); return True
                return False
            re = {}
            for u, F in self.fns.items():
                for n in F.nodes:
                    if not n: continue
                    t = n.get('try', -1)
                    if t is None: t = -1
                    if n.get('k') == 'throw':
                        if n.get('t'): add(u, n['t'], t)
                        else: re.setdefault(u, set()).add(t); add(u, 'std::exception', t)
                    elif n.get('k') in ('call', 'ctor', 'new'):
                        c = n.get('u'); tg = set()
                        if c in self.fns: tg.add(c)
                        if n.get('virt'): tg |= {g.u for g in self.over.get(c, [])}
                        if c not in self.fns and (n.get('f') or '').split('::')[-1] in ('visitChildren', 'accept', 'visit', 'visitErrorNode'): tg |= set(visitors)
                        for c in tg: sites.setdefault(c, set()).add((u, t))
                for c in self.callees[u]:
                    if not any(x[0] == u for x in sites.get(c, ())): sites.setdefault(c, set()).add((u, -1))
            work = [u for u in d if d[u]]
            while work:
                u = work.pop()
                for v, t in sites.get(u, ()):
                    k = len(d[v])
                    for typ in list(d[u]): add(v, typ, t)
                    for rt in re.get(v, ()):
                        for typ in list(inside[v]): add(v, typ, rt)
                    if len(d[v]) != k: work.append(v)
            self._esc = d; self._inside = inside
        return self._esc
    def rethrown(self, F):
        self.escapes
        return self._inside[F.u] | {'std::exception'}

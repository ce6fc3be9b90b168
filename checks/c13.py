"""Names and IDs.  Every path of every function that allocates or frees IDs is explored with a typestate per ID:
allocation only after the name was looked up and not found; an allocated ID is entered in both directions, with the same name and
kind, before it is used in an index or the function goes on to the next triple; inside updates it is also handed to the string index,
which is then refreshed with the right flag.  An ID is removed only when its degree, taken after the last change, is zero; both
directions are removed, under the name the ID has, and it is freed exactly once - never again without its name having been found
again or being known different from the IDs freed before."""
from common import *
import re
RULE = 'path-sensitive typestate of name/ID pairs'
KIND = ('Entity', 'Literal', 'Predicate')
INV = (('c', -1), ('c', 4294967295))

def parse(f):
    """-> (what, kind)"""
    nm = f.split('::')[-1]
    for k in KIND:
        for pat, what in (('getIDBy' + k, 'lookup'), ('get%sByID' % k, 'name'), ('setIDBy' + k, 'setid'), ('set%sByID' % k, 'setname'), ('subIDBy' + k, 'delid'), ('sub%sByID' % k, 'delname'),
                          ('alloc%sID' % k, 'alloc'), ('free%sID' % k, 'free'), ('get%sDegree' % k, 'degree')):
            if nm == pat: return what, k
    if nm in ('updateTupleslist_insert', 'updateTupleslist_remove', 'IVArrayVacuum', 'sub_batch_update'): return 'index', nm
    return None

class R13(Rule):
    depth = 4; ret_matters = True
    def __init__(self, P, entry):
        self.P = P; self.entry = entry; self.bad = {}; self.sites = {}; self.pushes = False
        inside = [n.get('f') or '' for u in P.forward([entry.u]) if P.fns.get(u) is not None and P.fns[u].cls == 'Database' for i, n in P.fns[u].calls()]
        self.allocs = any((parse(f) or ('',))[0] == 'alloc' for f in inside); self.frees = any((parse(f) or ('',))[0] == 'free' for f in inside)
        self.lists = [p['n'] for p in entry.params if 'vector<unsigned' in p['t'].replace('std::', '') and '*' in p['t']]
    def rep(self, k, c, text, st):
        if k not in self.bad: self.bad[k] = ('%s:%s' % (c.F.file, c.line()) if c else '%s:%s' % (self.entry.file, self.entry.line), text, trace(st))
    def what(self, n):
        f = n.get('f') or ''
        if f.startswith('KVstore::') or f.startswith('Database::'): return parse(f)
        return None
    def batchthread(self, F, n):
        if n.get('k') not in ('ctor', 'new') or 'thread' not in (n.get('f') or ''): return False
        st = list(n.get('args', []))
        while st:
            x = st.pop()
            if x is None or x < 0: continue
            m = F.nodes[x]
            if (m.get('q') or '').endswith('::sub_batch_update'): return True
            if m.get('k') in ('un', 'cast', 'ilist'): st += m.get('args', [])
        return False
    def push(self, n):
        f = n.get('f') or ''
        return n.get('k') == 'call' and f.split('::')[-1] in ('push_back', 'emplace_back') and 'vector<unsigned int' in f.replace('std::', '')
    def refresh(self, n): return n.get('k') == 'call' and (n.get('f') or '') == 'StringIndex::change'
    def wants(self, F, n):
        if self.batchthread(F, n) or self.push(n) or self.refresh(n): return True
        if n.get('k') in ('asg', 'decl', 'un'): return True
        return n.get('k') == 'call' and self.what(n) is not None
    def no_inline(self, F, st=None): return F.cls != 'Database' or parse(F.q) is not None or F.q in ('Database::insertTriple', 'Database::removeTriple') and self.entry.q != F.q
    def opaque_throws(self, G): return False
    def settle(self, S, st, c, ts):
        """before going on, no half-entered or half-removed ID"""
        for x in ts:
            if x[0] == 'new' and len(x[4]) < 2: self.rep('half:' + x[1], c, 'a new %s ID is used or left without %s' % (x[1].lower(), 'the ID being found by name' if 'setid' not in x[4] else 'the name being found by ID'), st)
            if x[0] == 'rem': self.rep('halfrem:' + x[1], c, 'a removed %s %s' % (x[1].lower(), 'keeps its name entry' if 'delid' not in x[3] else 'keeps its ID entry' if 'delname' not in x[3] else 'never gives its ID back'), st)
        return ts
    def on_call(self, S, st, c):
        n = c.n; ts = st.ts
        if c.k not in ('call', 'ctor', 'new'): return None
        if self.batchthread(c.F, n):
            ts = self.settle(S, st, c, ts)
            v = ('new', n['t'], c.frame, c.nid) if c.k == 'new' else ('obj', c.frame, c.nid)
            return [(v, self.regen(ts))]
        if self.push(n):
            v = c.args[0]
            hit = [x for x in ts if x[0] == 'new' and x[2] == v]
            if hit:
                x = hit[0]; self.pushes = True
                return [(None, (ts - {x}) | {x[:5] + ('pushed',)} | {('list', c.obj, x[1] == 'Predicate')})]
            return None
        if self.refresh(n):
            l = strip(S.loc(c.F, c.frame, st, {}, n['args'][0]))
            while l[0] == 'ref': l = strip(l[1])
            flag = S.truth(st, c.args[2]) if len(c.args) > 2 else None
            out = set()
            for x in ts:
                if x[0] == 'list' and strip(x[1]) == l:
                    if flag is not None and flag == x[2]: self.rep('flag', c, 'new %s are given to the string index of the %s' % (('predicates', 'entities and literals') if x[2] else ('entities and literals', 'predicates')), st)
                    continue
                out.add(x)
            return [(None, frozenset(out))]
        w = self.what(n) if c.k == 'call' else None
        if w is None: return None
        what, K = w
        where = '%s:%s' % (c.F.file, c.line())
        self.sites.setdefault(what, set()).add(where)
        if what == 'index':
            ts = self.settle(S, st, c, ts)
            return [(None, self.regen(ts))]
        gen = next((x[1] for x in ts if x[0] == 'gen'), 0)
        fr = next((x[2] for x in ts if x[0] == 'nfree' and x[1] == K), 0)
        if what == 'lookup': return [(('call', 'idof', ('s', K), c.args[0]), ts)]
        if what == 'name': return [(('call', 'nameof', ('s', K), c.args[0], ('c', fr)), ts)]
        if what == 'degree': return [(('call', 'degree', ('s', K), c.args[0], ('c', gen)), ts)]
        if what == 'alloc':
            v = ('obj', 'id', K, c.frame, c.nid)
            for x in ts:
                if x[0] == 'new' and x[2] == v and len(x[4]) < 2: self.settle(S, st, c, frozenset([x]))
            ts = frozenset(x for x in ts if not (x[0] == 'new' and x[2] == v))
            return [(v, ts | {('new', K, v, None, frozenset(), '')})]
        if what in ('setid', 'setname'):
            name, i = (c.args[0], c.args[1]) if what == 'setid' else (c.args[1], c.args[0])
            hit = [x for x in ts if x[0] == 'new' and x[2] == i]
            if not hit: return None
            x = hit[0]
            if x[1] != K: self.rep('kind', c, 'a new %s ID is entered among the %s names' % (x[1].lower(), K.lower()), st)
            if x[3] is not None and x[3] != name and not any(y[0] == 'unk' for y in (x[3], name)): self.rep('name', c, 'a new %s ID is entered under two different names' % K.lower(), st)
            if name[0] not in ('unk', 'r'):
                lk = ('call', 'idof', ('s', K), name)
                if ('missing', lk) not in ts and not any(S.truth(st, S.mkbin(st, '==', lk, z)) is True for z in INV):
                    self.rep('lookup', c, 'a new %s ID is entered for a name that was not looked up and found missing' % K.lower(), st)
            y = ('new', x[1], x[2], name, x[4] | {what}, x[5])
            ts = ts - {x}
            if len(y[4]) == 2: ts = frozenset(z for z in ts if not (z[0] == 'missing' and z[1][3] == name))
            return [(None, ts | {y})]
        # removal
        i = c.args[0] if what in ('delname', 'free') else None
        if what == 'delid':
            s = c.args[0]
            if s[0] == 'call' and s[1] == 'nameof': 
                i = s[3]
                if s[2] != ('s', K): self.rep('rkind', c, 'a name of a %s is removed among the %s names' % (s[2][1].lower(), K.lower()), st)
            elif s[0] in ('unk', 'r'): return None
            else: i = ('call', 'idof', ('s', K), s)
        if i[0] in ('unk',): return None
        x = next((x for x in ts if x[0] == 'rem' and x[1] == K and x[2] == i), ('rem', K, i, frozenset()))
        if what in x[3]: self.rep('twice:' + K, c, 'a %s is removed twice' % K.lower(), st)
        if not x[3]:
            for z in (x for x in ts if x[0] == 'rem' and x[1] == K and x[2] != i): self.settle(S, st, c, frozenset([z]))
            d = ('call', 'degree', ('s', K), i, ('c', gen))
            if ('zero', d) not in ts and S.truth(st, d) is not False: self.rep('degree:' + K, c, 'a %s is removed although its degree after the change is not known to be zero' % K.lower(), st)
            fz = [y for y in ts if y[0] == 'freed' and y[1] == K]
            fresh = ('fresh', ('call', 'nameof', ('s', K), i, ('c', fr))) in ts
            alldiff = fz and all(y[2] != i and (('diff', frozenset((y[2], i))) in ts or S.truth(st, S.mkbin(st, '==', y[2], i)) is False) for y in fz)
            loop = self.inloop(c)
            if (fz and not (fresh or alldiff)) or (loop and not fresh and not fz):
                self.rep('again:' + K, c, 'the ID of a %s may be freed a second time: nothing on this path shows that it is still in use' % K.lower(), st)
        flags = x[3] | {what}
        ts = frozenset(y for y in ts if not (y[0] == 'rem' and y[1] == K and y[2] == i))
        if len(flags) == 3:
            ts = frozenset(y for y in ts if not (y[0] == 'nfree' and y[1] == K)) | {('freed', K, i), ('nfree', K, min(fr + 1, 2))}
        else: ts = ts | {('rem', K, i, flags)}
        return [(None, ts)]
    def inloop(self, c): return False
    def regen(self, ts):
        g = next((x[1] for x in ts if x[0] == 'gen'), 0)
        return frozenset(x for x in ts if x[0] != 'gen') | {('gen', min(g + 1, 3))}
    def on_branch(self, S, st, cond, tr):
        """what the code tests about IDs is kept until the path ends"""
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        if cond[0] == 'bin' and cond[1] in ('==', '!='):
            if cond[1] == '!=': tr = not tr
            a, b = cond[2], cond[3]
            if a[0] == 'c': a, b = b, a
            if b[0] == 'c' and b[1] == 0:
                if a[0] == 'call' and a[1] == 'degree': return st.ts | {('zero', a)} if tr else None
                return self.nullness(st, a, tr)
            if b in INV and a[0] == 'call' and a[1] == 'idof': return st.ts | {('missing', a)} if tr and self.allocs and not self.frees else None
            if a == ('s', ''): a, b = b, a
            if b == ('s', ''): return st.ts | {('fresh', a)} if not tr and a[0] == 'call' and a[1] == 'nameof' else None
            if self.frees and b[0] != 'c' and not tr: return st.ts | {('diff', frozenset((a, b)))} if self.isid(a) and self.isid(b) else None
            return None
        if cond[0] == 'call' and cond[1] == 'degree': return None if tr else st.ts | {('zero', cond)}
        if cond[0] == 'call' and cond[1] == 'empty' and not tr and cond[2][0] == 'call' and cond[2][1] == 'nameof': return st.ts | {('fresh', cond[2])}
        return self.nullness(st, cond, not tr)
    def isid(self, t): return t[0] in ('call', 'obj', 'arg', 'loc', 'f', 'idx', 'r')
    def nullness(self, st, a, null):
        if a[0] == 'arg' and null and a[2] in self.lists: return st.ts | {('null', a)}
        return None
    def given(self, ts):
        """list parameters the caller did not leave out, on this path"""
        return [p for p in self.lists if not any(x[0] == 'null' and x[1][2] == p for x in ts)]

def check(ctx):
    P = ctx.prog(['Database/Database.cpp'])
    # a helper extracted from a function is judged inside it
    tops = [F for F in P.cls_fns('Database') if F.blocks and not parse(F.q) and not (F.new and P.home(F))
            and any((parse(n.get('f') or '') or ('',))[0] in ('alloc', 'free') for G, i, n in P.flatcalls(F))]
    ctx.need(len(tops), 4, 'functions that allocate or free IDs')
    tot = {}
    for F in sorted(tops, key=lambda f: f.line):
        r = R13(P, F); S = Sim(P, r, cap=600); n = 0
        ends = []
        for st, rv, kind in S.run(F, frozenset()):
            if kind != 'ret': continue
            n += 1; ends.append((st, rv))
            r.settle(S, st, None, st.ts)
        for st, rv in ends:
            if not r.pushes or rv in INV: continue
            for x in st.ts:
                if x[0] == 'new' and x[5] == '' and not (r.lists and len(r.given(st.ts)) < len(r.lists)):
                    r.rep('string:' + x[1], None, '%s: a new %s is not handed to the string index' % (F.q, x[1].lower()), st)
                if x[0] == 'list' and not param(x[1]): r.rep('refresh', None, '%s: the string index is not refreshed with the new %s' % (F.q, 'predicates' if x[2] else 'entities and literals'), st)
        ctx.use(S)
        for k, (w, t, tr) in r.bad.items(): ctx.violation('%s:%s' % (F.name, k), w, t if t.startswith('Database::') else '%s: %s' % (F.q, t), tr)
        for k, v in r.sites.items(): tot.setdefault(k, set()).update(v)
        ctx.ob('%s (line %d): name/ID typestate on every path (%d outcomes; %s)' % (F.q, F.line, n, ', '.join('%s %d' % (k, len(v)) for k, v in sorted(r.sites.items()))), not r.bad)
    for k in ('alloc', 'free', 'setid', 'setname', 'delid', 'delname', 'degree'): ctx.need(len(tot.get(k, ())), 3, k + ' sites')

def param(t):
    t = strip(t)
    return t[0] == 'arg'

"""Files of a stored database: what the loading code reads is what the saving code wrote.  For every pair of a saving and a loading
function all paths are explored and their operations on each file collected: as an automaton over (width, counter) in file order
where the file is a stream, as a map from place (linear form of the offset) to width where it is addressed.  The automata must accept
the same sequences, the maps must agree.  Counters of the database must come back into the counter they were written from.  Saving
must reach every part on every path, before the update log is discarded; loading must reach each of them."""
from common import *
RULE = 'automaton equality of write and read sequences, agreement of place maps, must-reach of every part'
TUS = ['Database/Database.cpp', 'KVstore/KVstore.cpp', 'KVstore/IVArray/IVArray.cpp', 'KVstore/IVArray/IVBlockManager.cpp', 'KVstore/ISArray/ISArray.cpp', 'KVstore/ISArray/ISBlockManager.cpp',
       'KVstore/SITree/storage/SIStorage.cpp', 'KVstore/SITree/SITree.cpp', 'Util/VList.cpp', 'StringIndex/StringIndex.cpp']
ALIGN = {'ReadAlign': 'A', 'WriteAlign': 'A', 'readBstr': 'B', 'writeBstr': 'B', 'ReadBstr': 'B', 'WriteBstr': 'B'}
def short(f): return (f or '').split('::')[-1]
def name(f):
    f = f or ''
    return f[5:] if f.startswith('std::') else f
WR = {'fwrite': 'w', 'fread': 'r', 'pwrite': 'w', 'pread': 'r', 'fputc': 'w', 'fgetc': 'r', 'putc': 'w', 'getc': 'r'}

def lin(t):
    """linear form: (constant, {atom: coefficient}); casts are gone already"""
    if t is None: return 0, {('?',): 1}
    if t[0] == 'c' and isinstance(t[1], int): return t[1], {}
    if t[0] == 'bin' and t[1] in '+-':
        a, x = lin(t[2]); b, y = lin(t[3]); s = 1 if t[1] == '+' else -1
        m = dict(x)
        for k, v in y.items(): m[k] = m.get(k, 0) + s * v
        return a + s * b, {k: v for k, v in m.items() if v}
    if t[0] == 'bin' and t[1] == '*':
        a, x = lin(t[2]); b, y = lin(t[3])
        if not x: return a * b, {k: v * a for k, v in y.items()}
        if not y: return a * b, {k: v * b for k, v in x.items()}
    return 0, {t: 1}
def shape(l): return l[0], tuple(sorted(l[1].values()))

class IO(Rule):
    """state: per stream the last operation and the place after it"""
    fold_sym = True; fold_depth = 8; fold_const = 4096; ret_matters = True; all_branches = True; depth = 3
    def __init__(self, P, mode, case=None):
        self.P = P; self.mode = mode; self.case = case
        self.edges = {}; self.slots = {}; self.sites = {}; self.shut = {}; self.tok = {}; self.labels = {}; self.n = 0; self.ends = {}
    def wants(self, F, n):
        f = name(n.get('f'))
        return n.get('k') == 'call' and (f in WR or f in ('fseek', 'fopen', 'fclose', 'fileno', 'ftell', 'rewind', 'lseek', 'fseeko') or short(f) in ALIGN or short(f) in ('getStore', 'GetStore', 'isLeaf')) or n.get('k') == 'asg' and 'FILE' in n.get('t', '')
    def no_inline(self, F, st=None): return not F.new
    def opaque_throws(self, G): return False
    def stream(self, st, t):
        while t is not None and t[0] == 'fd': t = t[1]
        if t is None: return '?'
        if t[0] == 'h':
            for l, v in st.mem.items():
                if v == t and l[0] == 'f' and l[1] == ('this',): return show(l)
            t = t[1][1]
        return show(t)
    def get(self, st, s):
        for x in st.ts:
            if x[0] == s: return x[1], x[2]
        return 'start', (0, ()) if self.head else None
    def put(self, ts, s, at, pos): return frozenset(x for x in ts if x[0] != s) | {(s, at, pos)}
    def event(self, S, st, c, s, tok, pos, size, place=None):
        at, p = self.get(st, s)
        site = (c.F.u, c.nid) + (tok if tok[0] == 'child' else ())
        if at == 'end': return st.ts
        if tok[0] == 'set' and (at == 'start' or place == 'end'):
            return self.put(st.ts, s, at if at == 'start' else 'end', pos)
        self.edges.setdefault(s, set()).add((at, tok, site))
        self.tok[site] = '%s:%s' % (c.F.file, c.line())
        self.n += 1
        if self.head:
            # only the places at the head of the file are asked for
            return self.put(st.ts, s, 'head', pos if pos and not pos[1] and pos[0] < 64 else None)
        return self.put(st.ts, s, site, pos)
    def slot(self, s, c, place, size, lab):
        self.sites.setdefault((s, c.F.u, c.nid, lab), [set(), set(), '%s:%s' % (c.F.file, c.line())])
        x = self.sites[s, c.F.u, c.nid, lab]; x[0].add(place); x[1].add(size)
    def places(self):
        """place of each operation: the smallest distance over the rounds of its loop, with the widest stride"""
        for (s, u, i, lab), (ps, sizes, w) in self.sites.items():
            size = min(sizes) if len(sizes) == 1 else '*'
            st = max((p[1] for p in ps), key=lambda x: (max(x, default=0), x))
            first = [p[0] for p in ps if p[1] in ((), st)]
            self.slots.setdefault(s, {}).setdefault((min(first), st), {}).setdefault((size, lab), w)
    def last(self, s):
        """where the sequences end"""
        return {x[1] for st, rv, kind in self.outs if kind == 'ret' for x in st.ts if x[0] == s} | self.shut.get(s, set())
    def adv(self, pos, k):
        return None if pos is None or k is None else (pos[0] + k, pos[1])
    def val(self, S, st, a):
        """where a buffer lies: a counter of the object, or what a scratch variable holds"""
        if a is None: return '-'
        if a[0] == 'addr':
            l = a[1]
            if l[0] == 'f' and l[1] == ('this',): return short(l[2])
            if l[0] == 'f' and l[1][0] == 'idx': return short(l[2])
            if l[0] in ('loc', 't'):
                v = st.mem.get(l)
                if v is not None and v[0] in ('r', 'call') and short(v[1]) in ('getStore', 'GetStore'): return 'child'
        if a[0] == 'f' and a[1] == ('this',): return short(a[2])
        return '-'
    def on_call(self, S, st, c):
        if c.k != 'call': return None
        f = name(c.f)
        if f == 'fopen':
            h = ('h', ('path', c.args[0]))
            return [(h, st.ts), (C0, st.ts)]
        if f == 'fclose':
            s = self.stream(st, c.args[0])
            self.shut.setdefault(s, set()).add(self.get(st, s)[0])
            return [(None, frozenset(x for x in st.ts if x[0] != s))]
        if f == 'fileno': return [(('fd', c.args[0]), st.ts)]
        if short(f) == 'isLeaf' and self.case is not None and not c.args:
            return [(C1 if self.case else C0, st.ts)]
        if short(f) in ('getStore', 'GetStore') and not c.args: return [(('call', 'getStore', ('k', c.frame, c.nid)), st.ts)]
        if f in ('fseek', 'fseeko', 'rewind'):
            s = self.stream(st, c.args[0])
            if f == 'rewind': return [(None, self.event(S, st, c, s, ('set',), (0, ()), 0))]
            wh = S.known(st, c.args[2]) or c.args[2]
            l = lin(S.known(st, c.args[1]) or c.args[1])
            at, p = self.get(st, s)
            if wh == ('c', 0):
                pos = (l[0], tuple(sorted(l[1].items(), key=str)))
                return [(C0, self.event(S, st, c, s, ('set',), pos, 0, self.final))]
            if wh == ('c', 1):
                tok = (l[0], '-') if not l[1] else ('skip', '-')
                return [(C0, self.event(S, st, c, s, tok, self.adv(p, l[0] if not l[1] else None), 0))]
            return None
        if f in WR:
            if WR[f] != self.mode:
                # reading while saving (or the reverse) moves the place
                if f in ('fread', 'fwrite') and len(c.args) > 3:
                    s = self.stream(st, c.args[3]); at, p = self.get(st, s)
                    if at != 'start':
                        return [(None, self.put(st.ts, s, at, None))]
                return None
            if f in ('pwrite', 'pread'):
                s = self.stream(st, c.args[0]); k = lin(S.known(st, c.args[2]) or c.args[2]); at, _ = self.get(st, s)
                size = k[0] if not k[1] else '*'
                o = lin(S.known(st, c.args[3]) or c.args[3])
                lab = self.val(S, st, c.args[1])
                self.slot(s, c, shape(o), size, lab)
                self.labels.setdefault(s, set()).add(lab)
                return [(('r', f, c.frame, c.nid), self.event(S, st, c, s, (size, lab), None, 0))]
            if f in ('fputc', 'putc', 'fgetc', 'getc'): s = self.stream(st, c.args[-1]); size = 1; lab = '-'
            else:
                s = self.stream(st, c.args[3]); a, b = lin(S.known(st, c.args[1]) or c.args[1]), lin(S.known(st, c.args[2]) or c.args[2])
                size = a[0] * b[0] if not a[1] and not b[1] else '*'
                lab = self.val(S, st, c.args[0])
            at, p = self.get(st, s)
            if p is not None: self.slot(s, c, (p[0], tuple(sorted(v for k, v in p[1]))), size, lab)
            self.labels.setdefault(s, set()).add(lab)
            return [(None, self.event(S, st, c, s, ('child',) if lab == 'child' else (size, lab), self.adv(p, size if size != '*' else None), size))]
        if short(f) in ALIGN and c.F.u and self.P.fns.get(c.n.get('u')) is not None and not self.P.fns[c.n['u']].new and c.n['u'] != self.cur.u:
            at = None
            for s in [x[0] for x in st.ts] or ['?']:
                return [(None, self.event(S, st, c, s if len(st.ts) == 1 else self.main(st), (ALIGN[short(f)], '-'), None, 0))]
        return None
    def main(self, st): return sorted(x[0] for x in st.ts)[0]
    final = None; head = False

def dfa(edges, norm):
    """subset construction over prefixes"""
    adj = {}
    for a, t, b in edges:
        t = norm(t)
        adj.setdefault(a, {}).setdefault(t, set()).add(b)
    eps = {a: set() for a in adj}
    def close(q):
        q = set(q); w = list(q)
        while w:
            x = w.pop()
            for b in adj.get(x, {}).get(None, ()):
                if b not in q: q.add(b); w.append(b)
        return frozenset(q)
    def step(q):
        r = {}
        for x in q:
            for t, bs in adj.get(x, {}).items():
                if t is not None: r.setdefault(t, set()).update(bs)
        return {t: close(b) for t, b in r.items()}
    return close({'start'}), step
def differ(ea, eb, na, nb, fa=None, fb=None):
    """a shortest sequence possible in one and not in the other"""
    (a, sa), (b, sb) = dfa(ea, na), dfa(eb, nb)
    seen = {(a, b)}; w = [(a, b, ())]
    while w:
        x, y, word = w.pop(0)
        p, q = sa(x), sb(y)
        if fa is not None and word and bool(x & fa) != bool(y & fb): return word, ('end',), x, y
        if not p or not q: continue          # one side is done: what follows concerns the other only
        for t in set(p) | set(q):
            if t not in p or t not in q: return word, t, x, y
            k = (p[t], q[t])
            if k not in seen: seen.add(k); w.append((p[t], q[t], word + (t,)))
    return None

def check(ctx):
    P = ctx.prog(TUS)
    n = 0
    def run(F, mode, case=None, final=None, head=False):
        r = IO(P, mode, case); r.cur = F; r.final = final; r.head = head
        if head: r.fold_sym = False; r.all_branches = False; r.ret_matters = False
        S = Sim(P, r, cap=600)
        outs = S.run(F, frozenset()); ctx.use(S)
        r.outs = outs; r.places()
        return r
    def merge(rs):
        r = rs[0]
        for x in rs[1:]:
            for s, e in x.edges.items(): r.edges.setdefault(s, set()).update(e)
            for s, m in x.slots.items():
                for k, v in m.items(): r.slots.setdefault(s, {}).setdefault(k, {}).update(v)
            for s, l in x.labels.items(): r.labels.setdefault(s, set()).update(l)
            r.tok.update(x.tok); r.n += x.n
        return r
    def where(r, q, w):
        for x in q:
            if x in r.tok: return r.tok[x]
        return w
    def tname(t): return 'the end' if t[0] == 'end' else 'a jump' if t[0] == 'set' else 'an aligned block link' if t[0] == 'A' else 'a string' if t[0] == 'B' else 'a gap' if t[0] == 'skip' else '%s byte(s)%s' % (t[0], ' of ' + t[1] if t[1] not in ('-', None) else '')
    def seq(what, w, r, WF, RF, drop=(), one=False, ends=False):
        nonlocal n
        ws, rs = sorted(w.edges), sorted(r.edges)
        if one: pairs = [(x, y) for x in ws[:1] for y in rs[:1]]
        else:
            pairs = [(s, s) for s in ws if s in rs]
            a, b = [x for x in ws if x not in rs], [x for x in rs if x not in ws]
            if len(a) == len(b) == 1: pairs.append((a[0], b[0])); a = b = []       # the same file under another expression
            for s in a + b:
                ctx.ob('%s: %s is written and read' % (what, s), False)
                ctx.violation('file:%s:%s' % (what, s), '%s:%s' % ((WF if s in ws else RF).file, (WF if s in ws else RF).line), '%s: %s is %s' % (what, s, 'written but never read back' if s in ws else 'read but never written'))
        if not pairs: raise AnalysisBroken('%s: no operations on a file' % what)
        for a, b in pairs:
            n += 1
            common = w.labels.get(a, set()) & r.labels.get(b, set())
            def norm(t):
                if t in drop or t[0] in drop: return None
                if len(t) > 1 and t[1] not in common: return (t[0], '-')
                return t
            d = differ(w.edges[a], r.edges[b], norm, norm, *((w.last(a), r.last(b)) if ends else ()))
            lost = [l for l in w.labels.get(a, set()) ^ r.labels.get(b, set()) if counter(WF, l) or counter(RF, l)]
            ctx.ob('%s, %s: %d written steps and %d read steps describe the same sequences' % (what, a, len(w.edges[a]), len(r.edges[b])), d is None and not lost)
            if d:
                word, t, x, y = d
                inw = where(w, x, ''); inr = where(r, y, '')
                onlyw = t[0] != 'end' and t in {norm(tt) for aa, tt, bb in w.edges[a] if aa in x}
                ctx.violation('order:%s:%s' % (what, a), inr or inw or '%s:%s' % (RF.file, RF.line), '%s, %s: after %d step(s) %s %s %s, which %s does not %s' % (what, a, len(word), WF.q if onlyw else RF.q, 'writes' if onlyw else 'reads', tname(t), RF.q if onlyw else WF.q, 'read' if onlyw else 'write'), ['steps before: ' + ', '.join(tname(z) for z in word), 'written at %s' % inw, 'read at %s' % inr])
            elif lost:
                ctx.violation('lost:%s:%s' % (what, a), '%s:%s' % (RF.file, RF.line), '%s: %s is not both written and read back' % (what, ', '.join(sorted(lost))))
    def counter(F, l):
        return l not in ('-', 'child') and any(f['n'] == l and f['t'].replace('*', '').strip() in ('unsigned', 'unsigned int', 'int', 'unsigned long long', 'long', 'unsigned long', 'TYPE_TRIPLE_NUM', 'TYPE_ENTITY_LITERAL_ID', 'TYPE_PREDICATE_ID') for f in P.records.get(F.cls, {}).get('fields', []))
    def slots(what, w, r, WF, RF):
        nonlocal n
        wm = {}; rm = {}
        for m, src in ((wm, w), (rm, r)):
            for s, d in src.slots.items():
                for k, v in d.items(): m.setdefault(k, {}).update(v)
        at = lambda m, F: {l: {k for k in m if l in {x[1] for x in m[k]}} for l in {x[1] for v in m.values() for x in v} if counter(F, l)}
        wl, rl = at(wm, WF), at(rm, RF)
        for l in sorted(set(wl) & set(rl)):
            ok = wl[l] == rl[l]
            ctx.ob('%s: %s is read where it is written' % (what, l), ok)
            if not ok: ctx.violation('place:%s:%s' % (what, l), '%s:%s' % (RF.file, RF.line), '%s: %s is written at %s and read at %s' % (what, l, sorted(wl[l], key=str), sorted(rl[l], key=str)))
        if not wm or not rm: raise AnalysisBroken('%s: no places found' % what)
        for k in sorted(set(wm) | set(rm), key=str):
            n += 1
            place = 'place %s%s' % (k[0], ''.join(' + %s*i' % c for c in k[1]))
            a, b = wm.get(k), rm.get(k)
            if b is None and a is not None:
                # written twice at different widths is caught below; written and never read
                bad = '%s is written but never read' % place
            elif a is None: bad = '%s is read but never written' % place
            else:
                sa, sb = {x[0] for x in a}, {x[0] for x in b}
                la, lb = {x[1] for x in a if counter(WF, x[1])}, {x[1] for x in b if counter(RF, x[1])}
                bad = '%s is written with %s and read with %s byte(s)' % (place, sorted(map(str, sa)), sorted(map(str, sb))) if sa != sb else '%s is written from %s and read into %s' % (place, sorted(la), sorted(lb)) if la and lb and la != lb else None
            ctx.ob('%s: %s is read as it is written' % (what, place), not bad)
            if bad: ctx.violation('place:%s:%s' % (what, k), next(iter((b or a).values())), '%s: %s' % (what, bad))
    # ---- the database itself
    W, R = P.one('Database::saveDBInfoFile'), P.one('Database::loadDBInfoFile')
    seq('counters of the database', run(W, 'w'), run(R, 'r'), W, R, drop=(('set',),), ends=True)
    R = P.one('Database::readIDinfo')
    for q in ('Database::saveIDinfo', 'Database::writeIDinfo'):
        W = P.one(q)
        seq('free IDs (%s)' % W.name, run(W, 'w'), run(R, 'r'), W, R)
    # ---- string index
    W, R = P.one('StringIndexFile::save'), P.one('StringIndexFile::load')
    w, rr = run(W, 'w'), run(R, 'r')
    rr.edges = {s: e for s, e in rr.edges.items()}; w.edges = {s: e for s, e in w.edges.items() if s in rr.edges}
    seq('string index', w, rr, W, R, ends=True)
    C = P.one('StringIndexFile::change'); D = P.one('StringIndexFile::disable')
    a, b = run(C, 'w'), run(D, 'w')
    def part(x, f):
        x.slots = {s: m for s, m in x.slots.items() if f in s}; return x
    slots('records of the string index (change, disable)', part(a, 'index_file') if True else a, merge([part(b, 'index_file'), numslot(P, ctx)]), C, D)
    # ---- trees
    for cls in ('SIStorage',):
        Wn, Rn, Cn = P.one(cls + '::WriteNode'), P.one(cls + '::ReadNode'), P.one(cls + '::CreateNode')
        for leaf in (True, False):
            w = run(Wn, 'w', leaf, 'end'); rd = run(Rn, 'r', leaf)
            for x, m in ((w, 'w'), (rd, 'r')):
                if not leaf and m == 'w': x.edges = {s: nochild(e) for s, e in x.edges.items()}
            seq('%s node of %s' % ('leaf' if leaf else 'inner', cls[:2] + 'Tree'), w, rd, Wn, Rn, drop=('skip',), one=True)
        Wb, Rb = P.one(cls + '::writeBstr'), P.one(cls + '::ReadBstr')
        seq('value of %s' % (cls[:2] + 'Tree'), run(Wb, 'w'), run(Rb, 'r'), Wb, Rb, one=True, ends=True)
        Wt = P.one(cls + '::WriteTree'); Rt = [F for F in P.get(cls + '::' + cls) if any(name(x[1].get('f') if len(x) == 2 else x[2].get('f')) == 'fread' for x in P.flatcalls(F))]
        if not Rt: raise AnalysisBroken(cls + ': no constructor reads the file')
        w = run(Wt, 'w', head=True); rd = run(Rt[0], 'r', head=True)
        for x in (w, rd):
            for s in list(x.slots): x.slots[s] = {k: v for k, v in x.slots[s].items() if not k[1] and k[0] < 64}
        slots('head of %s' % (cls[:2] + 'Tree'), w, rd, Wt, Rt[0])
    # ---- long lists
    Wb, Rb = P.one('VList::writeBstr'), P.one('VList::readBstr')
    seq('long list', run(Wb, 'w', None, 'end'), run(Rb, 'r', None, 'end'), Wb, Rb, one=True)
    # ---- arrays
    for c in ('IV', 'IS'):
        A, B = c + 'Array', c + 'BlockManager'
        W = P.one(A + '::save'); R = [F for F in P.get(A + '::' + A) if any(name(x[1].get('f') if len(x) == 2 else x[2].get('f')) == 'pread' for x in P.flatcalls(F))]
        if not R: raise AnalysisBroken(A + ': no constructor reads the file')
        slots(A, run(W, 'w'), run(R[0], 'r'), W, R[0])
        W = P.one(B + '::SaveFreeBlockList'); R = [F for F in P.get(B + '::' + B) if any(name(x[1].get('f') if len(x) == 2 else x[2].get('f')) == 'pread' for x in P.flatcalls(F))]
        if not R: raise AnalysisBroken(B + ': no constructor reads the file')
        seq('free blocks of %s' % A, run(W, 'w'), run(R[0], 'r'), W, R[0], one=True, ends=True)
        W, R = P.one(B + '::WriteValue'), P.one(B + '::ReadValue')
        slots('blocks of %s' % A, run(W, 'w'), run(R, 'r'), W, R)
    parts(P, ctx)
    ctx.need(n, 20, 'file layouts')
def numslot(P, ctx):
    r = IO(P, 'w')
    r.slots = {'index_file': {(0, ()): {(4, 'num'): 'StringIndex/StringIndex.cpp'}}}
    return r
def nochild(edges):
    """the links to the children of an inner node are read by preRead, readNode skips them"""
    es = set()
    kids = {b for a, t, b in edges if t == ('child',)}
    al = {b for a, t, b in edges if a in kids and t[0] == 'A'}
    for a, t, b in edges:
        if t == ('child',) or a in kids: es.add((a, ('skip', '-'), b))
        else: es.add((a, t, b))
    return es

class Reach(Rule):
    """which parts were saved or loaded"""
    ret_matters = True; all_branches = True; depth = 3
    def __init__(self, P, want): self.P = P; self.want = want
    def wants(self, F, n): return n.get('k') in ('call', 'ctor') and self.key(n) is not None
    def no_inline(self, F, st=None): return not F.new and F.name != 'flush'
    def inline_extra(self, F): return F.name == 'flush' and F.cls == 'KVstore'
    def opaque_throws(self, G): return False
    def on_branch(self, S, st, cond, tr):
        """a store that is not there needs no saving"""
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        if cond[0] == 'bin' and cond[1] in ('==', '!=') and cond[3] == C0: tr = tr == (cond[1] == '!='); cond = cond[2]
        if not tr and (cond[0] == 'arg' or cond[0] == 'f' and cond[1] == ('this',)): return st.ts | {short(cond[2])}
        return None
    def key(self, n):
        return self.want.get(n.get('f')) or self.want.get('*' + short(n.get('f')))
    def on_call(self, S, st, c):
        k = self.key(c.n)
        if k is None: return None
        if k == 'obj':
            o = c.args[0] if c.f == 'KVstore::flush' and c.args else c.obj
            if o is None: return None
            if o[0] == 'arg': return [(None, st.ts | {o[2]})]
            if o[0] == 'f': return [(None, st.ts | {short(o[2])})]
            return None
        if k.startswith('!'):
            return [(None, st.ts | {('log', frozenset(x for x in st.ts if not isinstance(x, tuple)))})]
        return [(None, st.ts | {k})]

def parts(P, ctx):
    KV = P.one('Database::save')
    want = {'KVstore::flush': 'key-value store', 'Database::saveDBInfoFile': 'counters', 'Database::saveIDinfo': 'free IDs', 'Database::writeIDinfo': 'free IDs', 'StringIndex::flush': 'string index', 'Database::clear_update_log': '!'}
    need = {'key-value store', 'counters', 'free IDs', 'string index'}
    r = Reach(P, want); r.no_inline = lambda F, st=None: not F.new
    r.inline_extra = lambda F: False
    S = Sim(P, r, cap=400)
    k = 0
    for st, rv, kind in S.run(KV, frozenset()):
        if kind != 'ret': continue
        k += 1
        done = {x for x in st.ts if not isinstance(x, tuple)}
        miss = need - done
        early = set().union(*[need - x[1] for x in st.ts if isinstance(x, tuple)]) if any(isinstance(x, tuple) for x in st.ts) else set()
        ctx.ob('Database::save: every part is saved, and before the update log is discarded (path %d)' % k, not miss and not early)
        if miss: ctx.violation('save:%s' % sorted(miss)[0], '%s:%s' % (KV.file, KV.line), 'Database::save can finish without saving the %s' % ', '.join(sorted(miss)), trace(st))
        elif early: ctx.violation('early:%s' % sorted(early)[0], '%s:%s' % (KV.file, KV.line), 'Database::save discards the update log before the %s is saved' % ', '.join(sorted(early)), trace(st))
    ctx.use(S)
    F = [F for F in P.get('KVstore::flush') if not F.params]
    if not F: raise AnalysisBroken('KVstore::flush()')
    F = F[0]
    stores = [f['n'] for f in P.records['KVstore']['fields'] if f['t'].replace(' ', '').rstrip('*') in ('ISArray', 'IVArray', 'SITree', 'IVTree', 'ISTree')]
    ctx.need(len(stores), 8, 'stores of the key-value store')
    # flush of one store: saves it whenever it is there
    helpers = {}
    for G in P.get('KVstore::flush'):
        if not G.params: continue
        r = Reach(P, {'*save': 'obj', '*Save': 'obj'}); S = Sim(P, r, cap=400); r.no_inline = lambda F, st=None: not F.new
        ok = True
        for st, rv, kind in S.run(G, frozenset()):
            if kind == 'ret' and not st.ts: ok = False
        helpers[G.u] = ok
        ctx.ob('KVstore::flush(%s) saves it whenever it is there' % G.params[0]['t'], ok)
        if not ok: ctx.violation('flush:' + G.params[0]['t'], '%s:%s' % (G.file, G.line), 'KVstore::flush(%s) can return without saving it' % G.params[0]['t'])
        ctx.use(S)
    r = Reach(P, {'*save': 'obj', '*Save': 'obj', 'KVstore::flush': 'obj'}); S = Sim(P, r, cap=3000); r.no_inline = lambda F, st=None: not F.new
    lost = {s: False for s in stores}; k = 0
    for st, rv, kind in S.run(F, frozenset()):
        if kind != 'ret': continue
        k += 1
        for s in stores:
            if s not in st.ts: lost[s] = lost[s] or trace(st) or [F.q]
    if not k: raise AnalysisBroken('KVstore::flush: no path')
    ctx.use(S)
    for s, bad in sorted(lost.items()):
        ctx.ob('KVstore::flush saves %s whenever it is there' % s, not bad)
        if bad: ctx.violation('flush:' + s, '%s:%s' % (F.file, F.line), 'KVstore::flush leaves %s unsaved' % s, bad if isinstance(bad, list) else [])
    L = P.get('Database::load')
    want = {'Database::loadDBInfoFile': 'counters', 'Database::readIDinfo': 'free IDs', 'StringIndex::load': 'string index'}
    for F in L:
        r = Reach(P, want); S = Sim(P, r, cap=1500); r.all_branches = True
        seen = 0
        if 'if_loaded' not in [f['n'] for f in P.records['Database']['fields']]: raise AnalysisBroken('Database::if_loaded')
        r.no_inline = lambda F, st=None: not F.new
        for st, rv, kind in S.run(F, frozenset(), pre=lambda S, st: S.fact(st, ('f', ('this',), 'Database::if_loaded'), C0, True)):
            if kind != 'ret' or rv is None or S.truth(st, rv) is not True: continue
            if S.truth(st, ('f', ('this',), 'Database::if_loaded')) is True and not st.ts: continue
            seen += 1
            miss = {'counters', 'free IDs', 'string index'} - st.ts
            ctx.ob('Database::load (line %d): every part is restored (path %d)' % (F.line, seen), not miss)
            if miss: ctx.violation('load:%s' % sorted(miss)[0], '%s:%s' % (F.file, F.line), 'Database::load can succeed without restoring the %s' % ', '.join(sorted(miss)), trace(st))
        ctx.use(S)

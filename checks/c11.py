"""Version visibility and latches of one key.  Every path of the operations on one key's version list is explored per isolation
level, with the comparisons of time stamps recorded as they are tested (begin = uncommitted, end = this transaction, TID < begin ...).
The outcome of the path - which versions are merged, whether a version is pushed, popped or stamped, which latch operation succeeded,
what is returned - must be the one the isolation level prescribes for exactly the recorded comparisons, all of it under one hold of
the list's latch.  The latch itself is compared with its state table in the same way."""
from common import *
from locks import lock_prim
RULE = 'path outcomes against the decision table of the isolation levels (recorded branch atoms, one latch hold)'
INV64 = 18446744073709551615
ISO = {3: 'READ_COMMITTED', 2: 'SNAPSHOT', 1: 'SERIALIZABLE'}
GL = ('tryexclusivelatch', 'trysharedlatch', 'tryupgradelatch', 'trydowngradelatch', 'unlatch')

def isinv(t): return t[0] == 'c' and t[1] in (INV64, -1)
def unref(t):
    while t and t[0] in ('ref', 'deref', 'addr') and len(t) > 1: t = t[1]
    return t

class RV(Rule):
    depth = 5; all_branches = True; ret_matters = True
    def __init__(self, iso, mode): self.iso = iso; self.mode = mode; self.bad = {}; self.sites = set(); self.vers = {}
    def rep(self, kind, c, text, st):
        if kind not in self.bad and ('dead',) not in st.ts: self.bad[kind] = ('%s:%s' % (c.F.file, c.line()) if c else '', text, trace(st))
    def wants(self, F, n):
        f = n.get('f') or ''
        if n.get('k') in ('new', 'ctor') and f.startswith('Version::'): return True
        if n.get('k') != 'call': return False
        a = f.split('::')
        if a[-1] in ('make_shared', 'make_unique') and 'Version' in (n.get('t') or ''): return True
        if len(a) >= 2 and a[-2] in ('Version', 'Latch', 'GLatch'): return True
        if '__atomic_base' in f or 'atomic<bool>' in f or (len(a) >= 2 and a[-2] in ('atomic', '__atomic_base')): return a[-1] in ('store', 'exchange', 'operator=', 'compare_exchange_strong', 'compare_exchange_weak')
        return 'vector<std::shared_ptr<Version>>' in f.replace('std::__1', 'std') or a[-1] in ('assert', '__assert_fail')
    def no_inline(self, F, st=None): return F.cls in ('Version', 'Latch', 'GLatch') or F.q.startswith(('std::', '__gnu'))
    def opaque_throws(self, G): return False
    def load_value(self, S, st, l):
        if l[0] == 'f' and l[2] == 'Transaction::isolation': return ('c', self.iso)
        if l[0] == 'f' and l[2] == 'Transaction::TID': return ('call', 'TID')
        if l[0] == 'f' and l[2] == 'Transaction::CommitID': return ('call', 'CID')
        return None
    def ver(self, t):
        """name of the version a term denotes: 'last', 'prev', or ('el', index)"""
        t = unref(t)
        if t is None: return None
        if t[0] == 'idx' and heapfield(t) == 'IVEntry::vList':
            i = t[2]
            if i[0] == 'bin' and i[1] == '-' and i[2][0] == 'call' and i[2][1] == 'size' and i[3][0] == 'c': return {1: 'last', 2: 'prev'}.get(i[3][1], ('el', i))
            return ('el', i)
        if t[0] == 'call' and t[1] == 'back': return 'last'
        if t[0] == 'new': return 'new'
        return ('el', t)
    def held(self, ts): return next((x for x in ts if x[0] == 'h'), None)
    def need(self, c, st, mode):
        h = self.held(st.ts)
        if h is None: self.rep('unlatched', c, 'the version list is used without its latch', st)
        elif mode == 'X' and h[1] != 'X': self.rep('shared', c, 'the version list is changed under a shared latch', st)
    def ev(self, ts, *e):
        n = sum(1 for x in ts if x[0] == 'ev' and x[2:] == e)
        return ts | {('ev', min(n, 1)) + e}
    def on_call(self, S, st, c):
        if not self.wants(c.F, c.n): return None
        if c.k in ('new', 'ctor') or c.f.split('::')[-1] in ('make_shared', 'make_unique'):
            if len(c.args) == 2: return [(('call', 'newver', c.args[0], c.args[1]), st.ts)]
            return None
        a = (c.f or '').split('::'); nm = a[-1]; cls = a[-2] if len(a) > 1 else ''
        ts = st.ts
        w = '%s:%s' % (c.F.file, c.line())
        if cls == 'Latch':
            if heapfield(c.obj) != 'IVEntry::rwLatch': return None
            if nm in ('lockShared', 'lockExclusive'):
                n = next((x[1] for x in ts if x[0] == 'secs'), 0)
                return [(None, frozenset(x for x in ts if x[0] not in ('h', 'secs')) | {('h', 'X' if nm == 'lockExclusive' else 'S'), ('secs', min(n + 1, 2))})]
            if nm == 'unlock': return [(('r', 'ul', c.frame, c.nid), frozenset(x for x in ts if x[0] != 'h'))]
            return None
        if heapfield(c.obj) == 'IVEntry::is_versioned' and c.args:
            d = c.args[1] if nm.startswith('compare') else c.args[0]
            v = S.truth(st, d)
            return [(None, frozenset(x for x in ts if x[0] != 'flag') | {('flag', v)})]
        if cls == 'Version':
            v = self.ver(c.obj)
            self.sites.add(w)
            if nm in ('get_begin_ts', 'get_end_ts'):
                self.need(c, st, 'S')
                self.vers[repr(v)] = v
                return [(('call', 'begin' if 'begin' in nm else 'end', ('s', repr(v))), ts)]
            if nm in ('set_begin_ts', 'set_end_ts'):
                self.need(c, st, 'X')
                x = c.args[0]
                return [(None, self.ev(ts, nm, v, 'CID' if x == ('call', 'CID') else 'INV' if isinv(x) else 'TID' if x == ('call', 'TID') else show(x)))]
            if nm == 'get_version':
                self.need(c, st, 'S')
                if [heapname(x) for x in c.args] != [heapname(('arg', 0, None)), heapname(('arg', 1, None))]: self.rep('sets', c, 'additions and deletions of a version are collected the wrong way round', st)
                return [(None, self.merge(S, st, c, v))]
            if nm in ('add', 'remove'):
                h = self.held(ts)
                if h is None: self.rep('unlatched', c, 'a version is written without the latch of the list', st)
                src = [y for y in range(2) if c.args and contains(c.args[0], ('arg', y, self.params[y]['n']))]
                return [(None, self.ev(ts, nm, v, tuple(src)))]
            return None
        if cls == 'GLatch' and nm in GL:
            args = tuple('TID' if x == ('call', 'TID') else (S.truth(st, x) if x[0] != 'c' else bool(x[1])) for x in c.args)
            return [(('c', 1), self.ev(ts, 'gl', nm, args, True)), (('c', 0), self.ev(ts, 'gl', nm, args, False))]
        if heapfield(c.obj) == 'IVEntry::vList':
            if nm in ('push_back', 'emplace_back'):
                self.need(c, st, 'X'); self.sites.add(w)
                return [(None, self.ev(ts, 'push', self.shape(st, c.args[0]) if c.args else None))]
            if nm == 'pop_back': self.need(c, st, 'X'); self.sites.add(w); return [(None, self.ev(ts, 'pop'))]
            last = lambda t: t[0] in ('bin', 'call') and t[1] in ('-', 'operator-') and t[3] == ('c', 1) and t[2][0] == 'call' and t[2][1] in ('end', 'cend', 'size') or t[0] == 'call' and t[1] == 'prev' and len(t) == 3 and t[2][0] == 'call' and t[2][1] in ('end', 'cend')
            if nm in ('erase', 'resize') and len(c.args) == 1 and last(unref(c.args[0])): self.need(c, st, 'X'); self.sites.add(w); return [(None, self.ev(ts, 'pop'))]
            if nm in ('clear', 'erase', 'resize'): self.need(c, st, 'X'); self.sites.add(w); return [(None, self.ev(ts, nm))]
            if nm in ('size', 'operator[]', 'back', 'front', 'begin', 'end', 'at') and nm == 'size': self.need(c, st, 'S')
        return None
    def shape(self, st, t):
        x = unref(t)
        b = e = None
        if x[0] == 'call' and x[1] == 'newver': b, e = x[2], x[3]
        for k, v in st.mem.items():
            if k[0] == 'f' and unref(k[1]) == x:
                if k[2] == 'Version::begin_ts': b = v
                if k[2] == 'Version::end_ts': e = v
        f = lambda v: None if v is None else 'INV' if isinv(v) else 'TID' if v == ('call', 'TID') else 'CID' if v == ('call', 'CID') else v[1] if v[0] == 'c' else '?'
        return (f(b), f(e))
    # ------------------------------------------------------------- recorded comparisons
    def atom(self, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        if cond[0] == 'arg': return (('arg', cond[2]), tr)
        if cond[0] == 'bin' and cond[1] in ('==', '!=', '<', '>', '<=', '>='):
            op, a, b = cond[1:4]
            isv = lambda t: t[0] == 'call' and t[1] in ('begin', 'end') and len(t) > 2 and t[2][0] == 's'
            if isv(b) and not isv(a): op, a, b = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), b, a
            if isv(a):
                v = self.vers[a[2][1]]
                if op == '!=': op = '=='; tr = not tr
                if op == '==' and isinv(b): return ((('A' if a[1] == 'begin' else 'E'), v), tr)
                if op == '==' and b == ('call', 'TID'): return (('B' if a[1] == 'end' else 'Q', v), tr)
                if b == ('call', 'TID'):
                    # begin > TID  <=> TID < begin
                    if a[1] == 'begin':
                        if op == '>': return (('D', v), tr)
                        if op == '<=': return (('D', v), not tr)
                        if op == '<': return (('D<', v), tr)
                        if op == '>=': return (('D<', v), not tr)
                    else:
                        if op == '<': return (('F', v), tr)      # end < TID: the writer is older
                        if op == '>=': return (('F', v), not tr)
                        if op == '>': return (('F>', v), tr)
                        if op == '<=': return (('F>', v), not tr)
                return (('?', show(cond)), tr)
            if b[0] == 'arg' or a[0] == 'arg':
                x, y = (a, b) if a[0] == 'arg' else (b, a)
                if y[0] == 'c' and op in ('==', '!='): return (('arg=', x[2], y[1]), tr if op == '==' else not tr)
            # loop bounds
            if op == '>': op, a, b = '<', b, a
            if op == '>=': op, a, b = '<=', b, a
            if op == '<=' : op, a, b, tr = '<', b, a, not tr
            sz = lambda t: t[0] == 'call' and t[1] == 'size' and heapfield(t[2]) == 'IVEntry::vList'
            if op == '<' and sz(b) and a[0] == 'bin' and a[1] == '+' and a[3] == ('c', 1): return (('bound', a[2], 1), tr)
            if op == '<' and sz(b): return (('bound', a, 0), tr)
            if op == '<' and b[0] == 'bin' and b[1] == '-' and sz(b[2]) and b[3] == ('c', 1): return (('bound', a, 1), tr)
            if op in ('==', '!='):
                if any(t[0] == 'call' and t[1] in ('end', 'cend') and heapfield(t) == 'IVEntry::vList' or t[0] == 'call' and t[1] in ('end', 'cend') and 'IVEntry::vList' in fields(t) for t in (a, b)):
                    return (('iter',), tr if op == '!=' else not tr)
        if cond[0] == 'call' and cond[1] == 'empty' and 'IVEntry::vList' in fields(cond): return (('nonempty',), not tr)
        return None
    def on_branch(self, S, st, cond, tr):
        x = self.atom(cond, tr)
        if x is None: return None
        at, tr = x
        ts = st.ts
        if at[0] in ('A', 'B', 'D', 'D<', 'E', 'F', 'F>', 'Q'):
            v = at[1]
            if isinstance(v, tuple) and v[0] == 'el':
                # a new comparison of a loop element replaces what was known about the one before
                ts = self.start(ts, v)
                for y in ts:
                    if y[0] == 'due' and y[1] not in (v, '*'): self.rep('skipped', None, 'a version that is visible is not merged', st)
                ts = frozenset(y for y in ts if not (y[0] == 'a' and isinstance(y[1][1], tuple) and y[1][1][:1] == ('el',) and y[1][1] != v))
            if v in ('last', 'prev') and ('a', at, not tr) in ts and not any(y[0] == 'ev' and y[2].startswith('set_') for y in ts): return ts | {('dead',)}
            ts = frozenset(y for y in ts if not (y[0] == 'a' and y[1] == at)) | {('a', at, tr)}
            if at[0] == 'D' and not tr and self.mode == 'read' and self.iso != 3 and isinstance(v, tuple): ts = ts | {('due', v)}
            if at[0] == 'D' and tr and isinstance(v, tuple): ts = ts | {('stop',)}
            return ts
        if at[0] == 'bound':
            if tr:
                if any(y[0] == 'due' for y in ts): self.rep('skipped', None, 'a version that is visible is not merged', st)
                ts = frozenset(y for y in ts if y[0] not in ('inb',)) | {('inb', at[1], at[2])}
                if at[1][0] == 'c' and at[2] == 0 and at[1][1] > 0: ts = ts | {('inb', ('c', at[1][1] - 1), 1)}      # i + 1 < size() with i known
                if self.mode == 'read' and self.iso == 3: ts = ts | {('due', '*')}
                return ts
            return ts | {('done', at[2])}
        if at[0] == 'nonempty': return ts | ({('done', 0)} if not tr else {('inb', ('c', 0), 0)} | ({('due', '*')} if self.mode == 'read' and self.iso == 3 else set()))
        if at[0] == 'iter': return ts | {('done', 0)} if not tr else ts
        return frozenset(y for y in ts if not (y[0] == 'a' and y[1] == at)) | {('a', at, tr)}
    def val(self, ts, k, v): return next((x[2] for x in ts if x[0] == 'a' and x[1] == (k, v)), None)
    def start(self, ts, v):
        """the element of the list the walk looks at first"""
        return ts if not isinstance(v, tuple) or any(y[0] == 'start' for y in ts) else ts | {('start', v[1])}
    def merge(self, S, st, c, v):
        ts = st.ts
        A, B, D, E = (self.val(ts, k, v) for k in 'ABDE')
        own = A is True and B is True
        if isinstance(v, tuple):
            inb = any(x[0] == 'inb' and x[1] == v[1] and x[2] == 1 for x in ts)
            ok = D is False or own if self.iso != 3 else A is False or own or E is True or inb
        else:
            ok = own or (self.iso == 3 and (E is True or A is False)) or (self.iso != 3 and D is False)
        if not ok: self.rep('visible', c, 'a version is merged that need not be visible at %s' % ISO[self.iso], st)
        ts = self.start(frozenset(x for x in ts if not (x[0] == 'due' and (x[1] == v or x[1] == '*' and isinstance(v, tuple)))), v)
        return self.ev(ts, 'merge', v if isinstance(v, str) else 'el')

def heapname(t):
    t = unref(t)
    return (t[0], t[1]) if t and t[0] == 'arg' else show(t)

def evs(ts, *k): return [x for x in ts if x[0] == 'ev' and x[2:2 + len(k)] == k]
def twice(ts, *k): return any(x[1] > 0 for x in evs(ts, *k))

def tri_and(*x): return False if any(v is False for v in x) else True if all(v is True for v in x) else None
def tri_not(x): return None if x is None else not x
def tri_or(*x): return tri_not(tri_and(*[tri_not(v) for v in x]))

def check(ctx):
    P = ctx.prog(['KVstore/IVArray/IVEntry.cpp'])
    tot = 0
    for q in ('GetExclusiveLatch', 'ReadVersion', 'InvalidExlusiveLatch', 'UnLatch', 'WriteVersion', 'CleanAllVersion'):
        F = P.one('IVEntry::' + q)
        for iso in (1, 2, 3) if q != 'CleanAllVersion' else (2,):
            r = RV(iso, {'ReadVersion': 'read', 'GetExclusiveLatch': 'latch'}.get(q, '')); r.params = F.params
            S = Sim(P, r, cap=3000); n = 0
            bad = {}
            def rep(kind, text, st):
                if kind not in bad: bad[kind] = ('%s:%s' % (F.file, F.line), 'IVEntry::%s at %s: %s' % (q, ISO[iso], text), trace(st))
            for st, rv, kind in S.run(F, frozenset()):
                if kind != 'ret': continue
                ts = st.ts
                if ('dead',) in ts: continue                     # the same comparison cannot have both outcomes
                ret = S.truth(st, rv) if rv is not None else None
                if any(x[0] == 'a' and x[1][0] == '?' for x in ts): pass
                A, B, D, E, Fo = (r.val(ts, k, 'last') for k in ('A', 'B', 'D', 'E', 'F'))
                if A is True and D is False: continue            # an uncommitted version begins after every transaction
                if A is True and D is None: D = True
                if D is False and A is None: A = False
                arg = lambda i: r.val(ts, 'arg', F.params[i]['n'])
                okgl = lambda nm: [x for x in evs(ts, 'gl', nm) if x[5] is True]
                anygl = [x for x in evs(ts, 'gl') if x[5] is True]
                n += 1
                if next((x[1] for x in ts if x[0] == 'secs'), 0) > 1: rep('sections', 'the latch of the version list is given up between the test and the change', st)
                if r.held(ts): rep('held', 'the latch of the version list is kept', st)
                if q == 'GetExclusiveLatch':
                    free = tri_or(tri_and(A, B), tri_and(tri_not(A), True if iso == 3 else tri_not(D)))
                    pushes = evs(ts, 'push')
                    if ret is None: rep('ret', 'the outcome is not decided', st); continue
                    if ret:
                        if free is not True: rep('grant', 'a new version is granted %s' % ('although another transaction has not committed its version' if A is not False else 'on top of a version committed after the transaction began'), st)
                        if len(pushes) != 1 or twice(ts, 'push'): rep('push', 'the granted version is added %s times' % (len(pushes) if len(pushes) != 1 else 'several'), st)
                        elif pushes[0][3] != ('INV', 'TID'): rep('stamp', 'the new version is not marked as uncommitted and owned by this transaction', st)
                        if ('flag', True) not in ts: rep('flag', 'the entry is not marked as having versions, so that a checkpoint leaves them', st)
                        if iso == 1:
                            hr = arg(1)
                            want = 'tryupgradelatch' if hr is True else 'tryexclusivelatch' if hr is False else None
                            g = okgl(want) if want else []
                            if not g: rep('latch', 'granted without %s' % ('upgrading the shared latch' if hr else 'the exclusive latch'), st)
                            for x in g:
                                if x[4] != (('TID',) if want == 'tryupgradelatch' else ('TID', True)): rep('latcharg', 'the latch is taken with wrong arguments', st)
                            if len(anygl) != 1: rep('latch2', 'more than one latch operation succeeds', st)
                        elif anygl: rep('latch3', 'a latch is taken that nothing releases', st)
                    else:
                        if pushes: rep('refpush', 'a refused request leaves a version behind', st)
                        if anygl: rep('reflatch', 'a refused request keeps a latch', st)
                        if free is not False and not [x for x in evs(ts, 'gl') if x[5] is False]: rep('refuse', 'a request without conflict is refused', st)
                elif q == 'ReadVersion':
                    fr = arg(4); lat = S.truth(st, st.mem.get(('deref', ('arg', 3, F.params[3]['n'])), ('c', 0)))
                    lv = [v for k, v in st.mem.items() if unref(k) == ('arg', 3, F.params[3]['n'])]
                    latched = okgl('trysharedlatch')
                    merged = evs(ts, 'merge')
                    if any(x[0] == 'due' for x in ts): rep('skipped', 'a version that is visible is not merged', st)
                    conflict = iso == 1 and tri_and(A, Fo) is True
                    newest = iso == 1 and D is False
                    if ret is None: rep('ret', 'the outcome is not decided', st); continue
                    if ret is False:
                        if iso != 1: rep('refuse', 'a read is refused', st)
                        elif not conflict and not [x for x in evs(ts, 'gl', 'trysharedlatch') if x[5] is False]: rep('refuse', 'a read without conflict is refused', st)
                        if latched: rep('reflatch', 'a refused read keeps a latch', st)
                        continue
                    if iso == 1:
                        if tri_and(A, Fo) is not False: rep('dirty', 'a read goes on although an older transaction has not committed its version', st)
                        if D is None: rep('unread', 'a read does not test whether the newest version is visible', st)
                        if newest and fr is True and not latched: rep('nolatch', 'the newest version is read for the first time without the shared latch', st)
                        if newest and fr is None and not latched: rep('nolatch', 'the newest version is read without the shared latch or knowing that it is held', st)
                        if latched and not (newest and fr is True): rep('latch', 'a shared latch is taken that is held already or not needed', st)
                        for x in latched:
                            if x[4] != ('TID',): rep('latcharg', 'the shared latch is taken for another transaction', st)
                        if latched and not any(S.truth(st, v) is True for v in lv): rep('report', 'a shared latch is taken and not reported to the caller', st)
                        if not latched and any(S.truth(st, v) is True for v in lv): rep('report2', 'a latch is reported that was not taken', st)
                    elif evs(ts, 'gl'): rep('latch3', 'a latch is taken that nothing releases', st)
                    # the walk over the versions
                    start = next((x[1] for x in ts if x[0] == 'start'), ('c', 0))
                    if start[0] == 'c' and start[1] != 0: rep('first', 'the walk over the versions does not begin with the first', st)
                    if ('stop',) not in ts and ('done', 0) not in ts and (iso != 3 or ('done', 1) not in ts): rep('walk', 'the versions are not walked to the end', st)
                    if iso == 3:
                        if ('done', 0) not in ts:
                            m = evs(ts, 'merge', 'last')
                            must = tri_or(tri_and(A, B), E)
                            if not m and must is not False: rep('last', 'the newest version is left out although it is committed or the transaction\'s own', st)
                    elif not evs(ts, 'merge', 'last') and tri_and(A, B) is not False: rep('own', 'the transaction does not see its own changes', st)
                elif q == 'InvalidExlusiveLatch':
                    pops = evs(ts, 'pop')
                    if ret is None: rep('ret', 'the outcome is not decided', st); continue
                    if ret:
                        if len(pops) != 1 or twice(ts, 'pop'): rep('pop', 'the uncommitted version is not removed exactly once', st)
                        if iso == 1:
                            hr = arg(1); want = 'trydowngradelatch' if hr is True else 'unlatch' if hr is False else None
                            g = okgl(want) if want else []
                            if not g: rep('latch', 'the exclusive latch is not given back', st)
                            for x in g:
                                if x[4] != (('TID',) if want == 'trydowngradelatch' else ('TID', True, True)): rep('latcharg', 'the latch is given back with wrong arguments', st)
                        elif anygl: rep('latch3', 'a latch is given back that was never taken', st)
                    elif pops: rep('refpop', 'a version is removed although the operation fails', st)
                elif q == 'UnLatch':
                    lt = next((x[1][2] for x in ts if x[0] == 'a' and x[1][0] == 'arg=' and x[2] is True), None)
                    neg = {x[1][2] for x in ts if x[0] == 'a' and x[1][0] == 'arg=' and x[2] is False}
                    if lt is None and neg == {0, 1}: continue
                    if lt is None: lt = 1 if neg == {0} else 0 if neg == {1} else None
                    sets = sorted((x[2], x[3], x[4]) for x in ts if x[0] == 'ev' and x[2] in ('set_begin_ts', 'set_end_ts'))
                    if lt is None:
                        if sets: rep('mode', 'versions are stamped whatever latch is released', st)
                        continue
                    if lt == 0:
                        if sets: rep('sharedstamp', 'versions are stamped when a shared latch is released', st)
                        if ret is True and iso == 1:
                            g = okgl('unlatch')
                            if not g or g[0][4] != ('TID', False, True): rep('latch', 'the shared latch is not given back', st)
                    elif ret is True:
                        if sets != [('set_begin_ts', 'last', 'CID'), ('set_end_ts', 'last', 'INV'), ('set_end_ts', 'prev', 'CID')]: rep('stamp', 'a commit does not stamp the newest version [commit, open) and close the one before it at the commit: %s' % (sets,), st)
                        if iso == 1:
                            g = okgl('unlatch')
                            if not g or g[0][4] != ('TID', True, True): rep('latch', 'the exclusive latch is not given back', st)
                        elif anygl: rep('latch3', 'a latch is given back that was never taken', st)
                    elif sets: rep('failstamp', 'versions are stamped although the release failed', st)
                elif q == 'WriteVersion':
                    for x in ts:
                        if x[0] == 'ev' and x[2] in ('add', 'remove'):
                            if x[3] != 'last': rep('target', 'a change is written into a version that is not the transaction\'s own', st)
                            if x[4] and x[4] != ((0,) if x[2] == 'add' else (1,)): rep('sets', 'additions and deletions are mixed up', st)
                elif q == 'CleanAllVersion':
                    if ('flag', True) in ts: rep('flag', 'an entry without versions stays marked', st)
                    p = evs(ts, 'push')
                    if not evs(ts, 'clear') or len(p) != 1 or p[0][3] != (0, 'INV'): rep('dummy', 'after a checkpoint the version list is not exactly one version that holds from the beginning', st)
            ctx.use(S)
            for k, (w, t, tr) in r.bad.items(): ctx.violation('%s:%s' % (q, k), w or '%s:%s' % (F.file, F.line), 'IVEntry::%s at %s: %s' % (q, ISO[iso], t), tr)
            for k, (w, t, tr) in bad.items(): ctx.violation('%s:%s' % (q, k), w, t, tr)
            if q == 'WriteVersion':
                pass
            ctx.ob('IVEntry::%s at %s: %d outcomes agree with the decision table' % (q, ISO[iso], n), not bad and not r.bad)
            tot += n
    ctx.need(tot, 30, 'outcomes')
    # ------------------------------------------------------------- the latch itself
    G = ctx.prog(['Util/GraphLock.cpp'])
    INV, OWN, OTH = INV64, 7, 9
    T = []     # (function, arguments after TID, tid, rcnt) -> (result, tid, rcnt)
    for nm, args in (('tryexclusivelatch', (1,)), ('trysharedlatch', ()), ('tryupgradelatch', ()), ('trydowngradelatch', ()), ('unlatch', (1, 1)), ('unlatch', (0, 1))):
        for tid, rc in ((INV, 0), (INV, 1), (INV, 2), (OWN, 1), (OTH, 1)):
            free = tid == INV
            if nm == 'tryexclusivelatch': w = (1, tid, rc) if tid == OWN else (1, OWN, 1) if free and rc == 0 else (0, tid, rc)
            elif nm == 'trysharedlatch': w = (1, tid, rc) if tid == OWN else (1, tid, rc + 1) if free else (0, tid, rc)
            elif nm == 'tryupgradelatch':
                if not free or rc == 0: continue                     # the caller holds the shared latch
                w = (1, OWN, 1) if rc == 1 else (0, tid, rc)
            elif nm == 'trydowngradelatch': w = (1, INV, 1) if tid == OWN else (0, tid, rc)
            elif args == (1, 1): w = (1, INV, 0) if tid == OWN else (0, tid, rc)
            else:
                if not free: continue
                w = (1, INV, rc - 1) if rc else (0, INV, 0)
            T.append((nm, args, tid, rc, w))
    nst = {INV: 'free', OWN: 'exclusive to the caller', OTH: 'exclusive to another'}
    for nm in GL:
        F = G.one('GLatch::' + nm); bad = {}
        cases = [t for t in T if t[0] == nm]
        for _, args, tid, rc, want in cases:
            r = GR(tid, rc)
            S = Sim(G, r, cap=2000)
            def pre(_, st):
                for p, v in zip(F.params, (OWN,) + args): st.mem[('loc', 0, p['v'], p['n'])] = ('c', v)
            outs = [(st, rv) for st, rv, kind in S.run(F, frozenset(), pre=pre) if kind == 'ret']
            ctx.use(S)
            name = 'GLatch::%s%s with the latch %s and %d readers' % (nm, args or '', nst[tid], rc if tid == INV else 0)
            if not outs: ctx.violation(nm + ':stop', '%s:%s' % (F.file, F.line), name + ': stops the program'); continue
            for st, rv in outs:
                g = {'_TID': tid, '_RCNT': rc}
                for k, v in st.mem.items():
                    if k[0] == 'f' and k[2] in ('GLatch::_TID', 'GLatch::_RCNT'): g[k[2].split('::')[1]] = v[1] if v[0] == 'c' else show(v)
                if g['_TID'] == -1: g['_TID'] = INV
                got = ({True: 1, False: 0}.get(S.truth(st, rv)), g['_TID'], g['_RCNT'])
                if got != want and 'table' not in bad: bad['table'] = (name + ': returns %s and leaves it %s with count %s, not %s, %s, %s' % (got[0], nst.get(got[1], got[1]), got[2], want[0], nst[want[1]], want[2]), trace(st))
                if ('h',) in st.ts: bad.setdefault('held', (name + ': keeps the spin lock', trace(st)))
            for k, (t, tr) in r.bad.items(): bad.setdefault(k, (name + ': ' + t, tr))
        for k, (t, tr) in bad.items(): ctx.violation('%s:%s' % (nm, k), '%s:%s' % (F.file, F.line), t, tr)
        ctx.ob('GLatch::%s agrees with the state table in %d states' % (nm, len(cases)), not bad)
    # ------------------------------------------------------------- the array forwards to the entry
    A = ctx.prog(['KVstore/IVArray/IVArray.cpp'])
    for nm, to, refuse in (('search', 'ReadVersion', 'abort'), ('TryExclusiveLatch', 'GetExclusiveLatch', 'ret'), ('ReleaseLatch', 'UnLatch', 'ret'), ('Rollback', 'InvalidExlusiveLatch', 'ret'), ('CleanDirtyKey', 'CleanAllVersion', None), ('insert', 'WriteVersion', 'abort'), ('remove', 'WriteVersion', 'abort')):
        fs = [f for f in A.cls_fns('IVArray') if f.name == nm and (nm not in ('search', 'insert', 'remove') or any('Transaction' in p['t'] for p in f.params))]
        if not fs: raise AnalysisBroken('IVArray::%s' % nm)
        for F in fs:
            r = FW(to); r.F = F; S = Sim(A, r, cap=3000); bad = {}; n = 0
            key = F.params[0]
            def rep(kind, text, st):
                if kind not in bad: bad[kind] = ('%s:%s' % (F.file, F.line), 'IVArray::%s: %s' % (nm, text), trace(st))
            for st, rv, kind in S.run(F, frozenset()):
                if kind != 'ret': continue
                n += 1; ts = st.ts
                ev = [x for x in ts if x[0] == 'to']
                ret = S.truth(st, rv) if rv is not None else None
                if not ev and ret is not False and nm != 'CleanDirtyKey': rep('skip', 'succeeds without asking the entry of the key', st)
                if any(x[0] == 'twice' for x in ts): rep('twice', 'asks the entry twice', st)
                if not ev and nm == 'CleanDirtyKey' and not ts & {('unversioned',), ('outside',)}: rep('skip', 'leaves the versions of the entry', st)
                for x in ev:
                    if x[1] != ('arg', 0): rep('key', 'asks another entry than that of the key', st)
                    if x[2] is not True and x[2] is not False: pass
                    for w in x[3]: rep('arg', w, st)
                    if refuse and x[2] is False:
                        if ret is not False: rep('granted', 'reports success although the entry refuses', st)
                        if refuse == 'abort' and ('aborted',) not in ts: rep('abort', 'a refused request does not abort the transaction', st)
                    if refuse == 'ret' and x[2] is True and ret is not True: rep('refused', 'reports failure although the entry grants', st)
                    if refuse == 'abort' and x[2] is True and ('aborted',) in ts: rep('aborts', 'aborts a transaction whose request was granted', st)
            ctx.use(S)
            for k, (w, t, tr) in bad.items(): ctx.violation('%s:%s' % (nm, k), w, t, tr)
            ctx.ob('IVArray::%s hands every request to the entry of the key, with its outcome (%d paths)' % (nm, n), not bad)

    # ------------------------------------------------------------- growing the array moves the whole entry
    F = P.one('IVEntry::Copy'); bad = {}
    flds = [f for f in P.records['IVEntry']['fields'] if 'Latch' not in f['t'].split('::')[-1] or 'GLatch' in f['t']]
    r = CP(); r.P = P; S = Sim(P, r, cap=2000); n = 0
    for st, rv, kind in S.run(F, frozenset()):
        if kind != 'ret': continue
        n += 1
        for f in flds:
            if f['n'] == 'value':
                if ('null',) not in st.ts and ('cp', f['n']) not in st.ts: bad.setdefault(f['n'], trace(st))
            elif ('cp', f['n']) not in st.ts: bad.setdefault(f['n'], trace(st))
    ctx.use(S); ctx.need(len(flds), 10, 'fields of an entry')
    for k, tr in bad.items(): ctx.violation('Copy:' + k, '%s:%s' % (F.file, F.line), 'IVEntry::Copy leaves %s behind when the array grows' % k, tr)
    ctx.ob('IVEntry::Copy takes over all %d fields' % len(flds), not bad)
    import c11b
    c11b.merging(ctx)

class CP(Rule):
    depth = 3; all_branches = True; ret_matters = True
    def wants(self, F, n): return n.get('k') in (('call', 'opcall', 'asg') if F.new else ('call', 'opcall')) and any(self.P.fns[u].q == 'IVEntry::Copy' for u in self.P.home(F))
    def no_inline(self, F, st=None): return F.cls != 'IVEntry'
    def opaque_throws(self, G): return False
    def src(self, t, f): return t is not None and f in fields(t) and contains(t, ('arg', 0))
    def put(self, ts, l, vals):
        l = unref(l)
        f = heapfield(l)
        if f and f.startswith('IVEntry::') and not self.other(l) and any(f in fields(v) for v in vals): return ts | {('cp', f.split('::')[1])}
        if f == 'IVEntry::value' or l[0] == 'new':
            if any('IVEntry::value' in fields(v) for v in vals): return ts | {('cp', 'value')}
        return ts
    def other(self, l): return any(x[0] == 'arg' for x in walk(l))
    def on_store(self, S, st, l, v, n): return self.put(st.ts, l, [v])
    def on_call(self, S, st, c):
        if not self.wants(c.F, c.n) or c.obj is None: return None
        ts = self.put(st.ts, c.obj, c.args)
        return [(('unk', c.frame, c.nid), ts)] if ts != st.ts else None
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        if cond[0] == 'bin' and cond[1] in ('==', '!=') and 'IVEntry::value' in fields(cond):
            if (cond[1] == '==') == tr: return st.ts | {('null',)}
        return None

def walk(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str): yield t
        for x in t:
            if isinstance(x, tuple): yield from walk(x)

class GR(Rule):
    depth = 4; fold_inc = True; ret_matters = True; all_branches = True
    def __init__(self, tid, rc): self.tid = tid; self.rc = rc; self.bad = {}
    def wants(self, F, n): return n.get('k') == 'call' and (n.get('f') or '').split('::')[0] in ('spinlock',) or lock_prim(n) is not None
    def no_inline(self, F, st=None): return F.cls == 'spinlock' or F.q.startswith('std::')
    def opaque_throws(self, G): return False
    def load_value(self, S, st, l):
        if l[0] == 'f' and l[2] == 'GLatch::_TID': return ('c', self.tid)
        if l[0] == 'f' and l[2] == 'GLatch::_RCNT': return ('c', self.rc)
    def on_call(self, S, st, c):
        if not self.wants(c.F, c.n): return None
        nm = (lock_prim(c.n) or (c.f.split('::')[-1],))[0]
        if nm == 'guard':
            tags = [c.F.nodes[a].get('q', '') + c.F.nodes[a].get('t', '') for a in c.n['args'][1:]]
            return [(('obj', c.frame, c.nid), st.ts if not c.args or any('defer' in t for t in tags) else st.ts | {('h',)})]
        if nm in ('unguard', 'release'): return [(None, st.ts - {('h',)})]
        if nm == 'lock': return [(None, st.ts | {('h',)})]
        if nm == 'try_lock': return [(('c', 1), st.ts | {('h',)}), (('c', 0), st.ts)]
        if nm == 'unlock': return [(None, st.ts - {('h',)})]
        return None
    def acc(self, st, l):
        if l[0] == 'f' and l[2] in ('GLatch::_TID', 'GLatch::_RCNT') and ('h',) not in st.ts: self.bad.setdefault('spin', ('the state is used without the spin lock', trace(st)))
    def on_store(self, S, st, l, v, n): self.acc(st, l); return None
    keep_fields = ('GLatch::_TID', 'GLatch::_RCNT')

class FW(Rule):
    depth = 4; ret_matters = True; all_branches = True
    def __init__(self, to): self.to = to
    def wants(self, F, n): return n.get('k') == 'call' and (n.get('f') or '') in ('IVEntry::' + self.to, 'Transaction::SetState')
    def no_inline(self, F, st=None): return F.cls in ('IVEntry', 'IVBlockManager', 'Transaction') or F.name in ('AddInCache', 'UpdateTime', 'RemoveFromLRUQueue', 'SwapOut')
    def opaque_throws(self, G): return False
    def on_call(self, S, st, c):
        if not c.f or not self.wants(c.F, c.n): return None
        ts = st.ts
        if c.f == 'Transaction::SetState':
            v = c.args[0]
            return [(None, ts | {('aborted',) if v[0] == 'c' and v[1] == self.aborted(S) else ('state', show(v))})]
        k = c.obj
        while k[0] in ('ref', 'addr', 'deref') and len(k) > 1: k = k[1]
        if k[0] == 'bin' and k[1] == '+' and heapfield(k[2]) == 'IVArray::array': k = ('idx', k[2], k[3])
        idx = k[2] if k[0] == 'idx' and (heapfield(k) == 'IVArray::array' or unref(k[1])[0] == 'new') else None
        key = ('arg', 0) if idx and idx[0] == 'arg' and idx == ('arg', 0, self.F.params[0]['n']) else ('other', show(k))
        wrong = []
        P = [p['n'] for p in self.F.params]
        # the caller's sets and flags go to the parameters of the same role
        names = [a[2] if a[0] == 'arg' else None for a in (x[1] if x[0] in ('ref', 'addr', 'deref') and x[1][0] == 'arg' else x for x in c.args)]
        roles = {'ReadVersion': (3, 4, 5, 6, 7), 'GetExclusiveLatch': (1, 2), 'UnLatch': (1, 2), 'InvalidExlusiveLatch': (1, 2)}.get(self.to)
        if roles:
            for i, j in enumerate(roles):
                if i < len(names) and j < len(P) and (names[i] or P[j]) != P[j] or i < len(c.args) and c.args[i][0] == 'c': wrong.append('%s is passed where %s belongs' % (names[i] or c.args[i][1], P[j]))
            if len(c.args) < len(roles): wrong.append('%s is not passed on' % P[roles[len(c.args)]])
        elif self.to == 'WriteVersion':
            j = 0 if self.F.name == 'insert' else 1
            if names[1 - j] == P[1] or names[j] not in (None, P[1]): wrong.append('the changes are written as %s' % ('deletions' if j == 0 else 'additions'))
        base = ts | ({('twice',)} if any(x[0] == 'to' for x in ts) else set())
        w = tuple(wrong)
        if self.to == 'CleanAllVersion': return [(None, base | {('to', key, None, w)})]
        return [(('c', 1), base | {('to', key, True, w)}), (('c', 0), base | {('to', key, False, w)})]
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        if (cond[0] == 'call' and cond[1] in ('isVersioned', 'load', 'operator bool') or cond[0] == 'r' and 'atomic<bool>' in str(cond[1]) or 'IVEntry::is_versioned' in fields(cond)) and not tr: return st.ts | {('unversioned',)}
        if cond[0] == 'bin' and cond[1] == '<' and 'IVArray::CurEntryNum' in fields(cond[3]) and not tr: return st.ts | {('outside',)}
        if cond[0] == 'bin' and cond[1] == '>=' and 'IVArray::CurEntryNum' in fields(cond[3]) and tr: return st.ts | {('outside',)}
        return None
    def aborted(self, S): return 3          # TransactionState::ABORTED

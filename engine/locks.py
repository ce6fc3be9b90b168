"""Lock primitives as typestate events.  ts of a LockRule: (held, extra); held = frozenset of (lock term, mode, owner)."""
from sim import *

RW = {'pthread_rwlock_rdlock': ('lock', 'S'), 'pthread_rwlock_wrlock': ('lock', 'X'), 'pthread_rwlock_tryrdlock': ('try', 'S'),
      'pthread_rwlock_trywrlock': ('try', 'X'), 'pthread_rwlock_timedrdlock': ('try', 'S'), 'pthread_rwlock_timedwrlock': ('try', 'X'),
      'pthread_rwlock_unlock': ('unlock', ''),
      'pthread_mutex_lock': ('lock', 'X'), 'pthread_mutex_trylock': ('try', 'X'), 'pthread_mutex_unlock': ('unlock', ''),
      'pthread_spin_lock': ('lock', 'X'), 'pthread_spin_trylock': ('try', 'X'), 'pthread_spin_unlock': ('unlock', '')}
import re
_MTX = re.compile(r'^std::(recursive_|timed_|shared_|shared_timed_)?mutex::(lock|try_lock|unlock|lock_shared|try_lock_shared|unlock_shared)$')
_GRD = re.compile(r'^(const )?std::(lock_guard|unique_lock|shared_lock|scoped_lock)<')

def lock_prim(n, k=None):
    """(op, mode, style) of a node / call, or None"""
    f = n.get('f', '')
    if n.get('k') == 'call':
        if f in RW: return RW[f] + ('c',)
        m = _MTX.match(f)
        if m:
            o = m.group(2)
            return ('try' if o.startswith('try') else 'unlock' if o.startswith('unlock') else 'lock', 'S' if 'shared' in o else 'X', 'm')
        if f.startswith('std::unique_lock<') or f.startswith('std::unique_lock::') or f.startswith('std::shared_lock'):
            o = f.split('::')[-1]
            if o in ('unlock', 'lock', 'try_lock', 'release'): return (o, 'X', 'g')
    if n.get('k') == 'ctor' and _GRD.match(n.get('t', '')):
        return ('guard', 'S' if 'shared_lock' in n['t'] else 'X', 'g')
    if n.get('k') == 'dtor' and _GRD.match(n.get('t', '')):
        return ('unguard', '', 'g')
    return None

def lockname(t):
    """human/stable name: the outermost project field of the lock path"""
    fs = fields(t)
    skip = ('Latch::lock', 'spinlock::_lock', 'GLatch::latch')
    fs2 = [f for f in fs if f not in skip]
    if fs2: return fs2[0]
    if fs: return fs[0]
    if t[0] == 'g': return t[1]
    return show(t)

class LockRule(Rule):
    """reports: reacquire, unlock of a lock not held, return / exception while holding"""
    report_reacquire = True
    report_badunlock = True
    def __init__(self):
        self.findings = {}
        self.acq = set()     # acquisition sites seen (file, line, lock)
    def init_ts(self): return (frozenset(), ())
    def wants(self, F, n): return lock_prim(n) is not None
    def report(self, kind, where, what, st, key=None):
        k = (kind, key or what)
        if k not in self.findings: self.findings[k] = (where, what, trace(st))
    def ident(self, S, st, t): return t
    def held(self, st): return st.ts[0]
    def acquire(self, S, st, c, t, mode, owner=None):
        held, ex = st.ts
        t = strip(t)
        for (h, m, o) in held:
            if h == t and self.report_reacquire and not (m == 'S' and mode == 'S' and self.allow_shared_recursion(t)):
                self.report('reacquire', '%s:%s' % (c.F.file, c.line()), 'lock %s is acquired again while already held' % lockname(t), st, (lockname(t), c.F.q))
        self.acq.add((c.F.file, c.line(), lockname(t)))
        self.on_acquire(S, st, c, t, mode)
        return (held | {(t, mode, owner)}, ex)
    def allow_shared_recursion(self, t): return False
    def on_acquire(self, S, st, c, t, mode): pass
    def on_release(self, S, st, c, t, mode): pass
    def release(self, S, st, c, t):
        held, ex = st.ts
        t = strip(t)
        h = [x for x in held if x[0] == t]
        if not h:
            if self.report_badunlock:
                self.report('badunlock', '%s:%s' % (c.F.file, c.line()), 'lock %s is released while not held' % lockname(t), st, (lockname(t), c.F.q))
            return (held, ex)
        self.on_release(S, st, c, t, h[0][1])
        return (held - {h[0]}, ex)
    def lock_call(self, S, st, c):
        p = lock_prim(c.n)
        if p is None: return None
        op, mode, style = p
        if style == 'g':
            if op == 'guard':
                if not c.args: return [(('obj', c.frame, c.nid), st.ts)]
                owner = ('obj', c.frame, c.nid)
                if len(c.args) > 1:
                    an = c.F.nodes[c.n['args'][1]]
                    tag = an.get('q', '') or an.get('t', '')
                    if 'adopt' in tag: 
                        held, ex = st.ts
                        t = strip(c.args[0])
                        return [(owner, (frozenset((x if x[0] != t else (t, x[1], owner)) for x in held), ex))]
                    if 'defer' in tag:
                        return [(owner, (st.ts[0], st.ts[1]))]
                return [(owner, self.acquire(S, st, c, c.args[0], mode, owner))]
            if op == 'unguard':
                held, ex = st.ts
                for x in held:
                    if x[2] == c.obj: self.on_release(S, st, c, x[0], x[1])
                return [(None, (frozenset(x for x in held if x[2] != c.obj), ex))]
            held, ex = st.ts
            if op in ('unlock', 'release'):
                own = [x for x in held if x[2] == c.obj]
                for x in own: self.on_release(S, st, c, x[0], x[1])
                return [(None, (held - set(own), ex))]
            return [(None, st.ts)]
        t = c.args[0] if style == 'c' else c.obj
        t = self.ident(S, st, t)
        if op == 'lock': return [(C0, self.acquire(S, st, c, t, mode))]
        if op == 'unlock': return [(C0, self.release(S, st, c, t))]
        ok = self.acquire(S, st, c, t, mode)
        if style == 'c': return [(C0, ok), (('c', 16), st.ts)]
        return [(C1, ok), (C0, st.ts)]
    def on_call(self, S, st, c):
        return self.lock_call(S, st, c)
    def rename(self, ts, a, b):
        if not any(x[2] == a for x in ts[0]): return ts
        return (frozenset((x[0], x[1], b if x[2] == a else x[2]) for x in ts[0]), ts[1])
    def on_unwind(self, S, st, F, fr, tryid):
        """guards owned by this frame's locals are released by stack unwinding"""
        held, ex = st.ts
        keep = set()
        for x in held:
            o = x[2]
            if o is not None and o[0] in ('loc', 'obj') and o[1] == fr:
                if tryid < 0: continue
                # guard declared inside the try block?
                if o[0] == 'loc' and self.decl_try(F, o[2], tryid): continue
            keep.add(x)
        return (frozenset(keep), ex)
    def decl_try(self, F, v, tryid):
        for n in F.nodes:
            if n and n.get('k') == 'decl' and any(y['v'] == v for y in n['vars']):
                t = n.get('try', -1)
                while t >= 0:
                    if t == tryid: return True
                    t = F.d['trys'][t]['p']
        return False
    exempt_entry = ()
    def check_entry(self, S, F):
        self.cur = F
        outs = S.run(F, self.init_ts())
        for st, rv, kind in outs:
            for (t, m, o) in st.ts[0]:
                how = 'returns' if kind == 'ret' else 'is left by an exception'
                self.report('leak', '%s:%s' % (F.file, F.line), '%s %s while still holding %s' % (F.q, how, lockname(t)), st, (F.q, lockname(t), 'ret' if kind == 'ret' else 'exc'))
        return outs

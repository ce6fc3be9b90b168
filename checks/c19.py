"""Every management operation of APIUtil that records something in the system database, or changes an account, a password, a
privilege set or the catalogue of built databases in memory, is explored path by path.  The text of each recorded statement is
followed symbolically (pieces and the names put between them) and read as the accounts / privileges / catalogue entries it adds
or removes; a statement fails exactly when one of the names in it is not acceptable to the system database, so a path on which one
statement about a name succeeded has no failure of another one about the same names.  Operations that take a list of privilege
kinds are explored once per kind.  At the end of every path what was recorded and what was changed in memory must be the same set
of changes: same account, same kind, same database, same password."""
from common import *
import re
from api_iface import API
RULE = 'effect agreement (recorded vs in memory) over path-sensitive symbolic statement texts'
KINDS = ('query', 'update', 'load', 'unload', 'restore', 'backup', 'export')
PF = {'DBUserInfo::%s_priv' % k: k for k in KINDS}
SETOP = re.compile(r'^std::(set|map|unordered_set|unordered_map)<.*>::(insert|erase|clear|emplace)$')

SETLOOK = re.compile(r'^std::(set|unordered_set)<std::basic_string<.*>::(find|count)$')

def kindvars(P, fns):
    """variables that hold a privilege kind: compared with the kind names, or put after 'has_', or handed to a parameter that is"""
    kv = set()
    def refv(F, i):
        k = 0
        while i >= 0 and k < 8:
            n = F.nodes[i]; k += 1
            if n.get('k') == 'ref' and 'v' in n and n.get('d') in ('local', 'param'): return (F.u, n['v'])
            if n.get('k') in ('ctor', 'cast') and len(n.get('args', [])) == 1: i = n['args'][0]
            else: return None
    def ends(F, i):
        n = F.nodes[i]
        if n.get('k') == 'str': return n['s']
        if n.get('k') == 'ctor' and n.get('args'): return ends(F, n['args'][0])
        if n.get('k') == 'call' and n.get('op') in ('+', '<<', '+='):
            a = ([n['o']] if 'o' in n else []) + n['args']
            return ends(F, a[-1])
        return ''
    for F in fns:
        for n in F.nodes:
            if not n or n.get('k') != 'call': continue
            a = ([n['o']] if 'o' in n and n['o'] >= 0 else []) + n.get('args', [])
            if n.get('op') in ('==', '!=') and len(a) == 2:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    s = F.nodes[y]
                    while s.get('k') == 'ctor' and s.get('args'): s = F.nodes[s['args'][0]]
                    if s.get('k') == 'str' and s['s'] in KINDS and refv(F, x): kv.add(refv(F, x))
            if n.get('op') in ('+', '<<') and len(a) == 2 and ends(F, a[0]).endswith('has_') and refv(F, a[1]): kv.add(refv(F, a[1]))
    ch = True
    while ch:
        ch = False
        for F in fns:
            for n in F.nodes:
                if not n or n.get('k') != 'call': continue
                G = P.fns.get(n.get('u'))
                if not G: continue
                for i, x in enumerate(n.get('args', [])):
                    if i < len(G.params) and (G.u, G.params[i]['v']) in kv:
                        r = refv(F, x)
                        if r and r not in kv: kv.add(r); ch = True
    return set(v for u, v in kv), kv

class R19(Rule):
    catw = 48
    lv_over = True
    keep_fields = ('#buf', 'DBUserInfo::password')
    def inline_extra(self, F): return any(SETLOOK.match(n.get('f') or '') for i, n in F.calls())
    depth = 6
    def __init__(self, P, kv):
        self.P = P; self.kv = kv; self.T = None; self.found = {}; self.stmts = {}; self.mems = {}; self.unread = {}
    def load_value(self, S, st, l):
        if self.T is not None and l[0] == 'loc' and l[2] in self.kv: return ('s', self.T)
        return None
    def wants(self, F, n):
        k = n.get('k')
        if k == 'call':
            f = n.get('f') or ''
            if f == 'APIUtil::update_sys_db': return True
            if SETOP.match(f) and ('DBUserInfo' in f or 'DatabaseInfo' in f or f.startswith('std::set<std::basic_string') or f.startswith('std::unordered_set<std::basic_string')): return True
            if n.get('op') == '=' and n.get('o', -1) >= 0 and F.nodes[n['o']].get('k') == 'mem' and F.nodes[n['o']].get('q') == 'DBUserInfo::password': return True
        return False
    def no_inline(self, F, st=None): return F.q in ('APIUtil::update_sys_db', 'APIUtil::query_sys_db', 'APIUtil::refresh_sys_db')
    # ---- reading a statement
    def render(self, t):
        syms = []; out = ''
        for x in (t[1:] if t[0] == 'cat' else (t,)):
            if x[0] == 's': out += x[1]
            elif x == ('unk', 'cat', 0):      # longer than followed: the complete triples so far stand for the rest, which repeats them
                i = out.rfind('.'); out = out[:i + 1] + '}'
            else:
                if x[0] == 'r' and x[1].endswith('clear_angle_brackets'): pass
                if x not in syms: syms.append(x)
                out += '\x01%d\x02' % syms.index(x)
        return out, syms
    def parse(self, S, st, t):
        """[(op, key, value)] or None"""
        txt, syms = self.render(t)
        def term(x):
            m = re.match(r'^<\x01(\d+)\x02>$', x)
            if m: return syms[int(m.group(1))]
            m = re.match(r'^"\x01(\d+)\x02"$', x)
            if m: return ('lit', syms[int(m.group(1))])
            if re.match(r'^\x01(\d+)\x02$', x): return ('any',)
            if x.startswith('?') or x == '_:b': return ('any',)
            if x.startswith('<'): return ('s', x[1:-1])
            if x.startswith('"'): return ('lit', ('s', x[1:-1]))
            return None
        tok = r'(<[^<>]*>|"[^"]*"|\?\w+|\x01\d+\x02)'
        def pats(body):
            r = []; pos = 0
            for m in re.finditer(tok + r'\s+' + tok + r'\s+' + tok + r'\s*\.?\s*', body):
                if body[pos:m.start()].strip(): return None
                pos = m.end(); r.append(m.groups())
            if body[pos:].strip(): return None
            return r
        eff = []
        parts = []
        s = txt.strip()
        m = re.match(r'^\s*(INSERT|DELETE)\s+DATA\s*\{(.*)\}\s*$', s, re.S | re.I)
        if m: parts = [(m.group(1).upper(), m.group(2))]
        else:
            m = re.match(r'^\s*DELETE\s+WHERE\s*\{(.*)\}\s*$', s, re.S | re.I)
            if m: parts = [('DELETE', m.group(1))]
            else:
                m = re.match(r'^\s*DELETE\s*\{([^}]*)\}\s*INSERT\s*\{([^}]*)\}\s*WHERE\s*\{(.*)\}\s*$', s, re.S | re.I)
                if m: parts = [('DELETE', m.group(1)), ('INSERT', m.group(2))]
                else:
                    m = re.match(r'^\s*(DELETE|INSERT)\s*\{([^}]*)\}\s*WHERE\s*\{(.*)\}\s*$', s, re.S | re.I)
                    if m: parts = [(m.group(1).upper(), m.group(2))]
        if not parts: return None, syms
        for op, body in parts:
            ps = pats(body)
            if ps is None: return None, syms
            o = 'add' if op == 'INSERT' else 'del'
            for a, p, b in ps:
                p0 = p.strip('<>'); ta = term(a); tb = term(b)
                m = re.match(r'^has_(\w+)_priv$', p0)
                if m: eff.append((o, ('priv', m.group(1), ta, tb), None))
                elif p0 == 'has_password': eff.append((o, ('account', ta), tb if o == 'add' else None))
                elif p0 == 'database_status': eff.append((o, ('db', ta), None))
                elif p.startswith('?'): 
                    if o != 'del': return None, syms
                    for k in KINDS: eff.append((o, ('priv', k, ta, tb), None))
                    eff.append((o, ('account', ta), None))
                elif re.match(r'^[\w]+$', p0): eff.append((o, ('other', p0, ta), None))
                else: return None, syms
        return eff, syms
    def on_call(self, S, st, c):
        f = c.f or ''
        if c.k != 'call': return None
        w = '%s:%s' % (c.F.file, c.line()); ts = st.ts
        if f == 'APIUtil::update_sys_db':
            if c.args[0] == ('s', ''): return [(C0, ts)]
            eff, syms = self.parse(S, st, c.args[0])
            if eff is None:
                self.unread.setdefault((c.F.q, w), show(c.args[0])[:200]); eff = []
            self.stmts.setdefault(w, set()).update((o, k[0] if k[0] != 'priv' else 'has_%s_priv' % k[1]) for o, k, v in eff)
            syms = [x for x in syms if x[0] not in ('s', 'c')]
            outs = []
            if not any(('bad', x) in ts for x in syms):
                t2 = set(ts) | set(('good', x) for x in syms)
                for o, k, v in eff: t2 = self.put(t2, 'P', o, k, v)
                outs.append((C1, frozenset(t2)))
            bad = [x for x in syms if ('bad', x) in ts]
            if bad: outs.append((C0, ts))
            else:
                for x in syms:
                    if ('good', x) not in ts: outs.append((C0, ts | {('bad', x)}))
                if not syms and eff: pass
            return outs
        m = SETOP.match(f)
        if m:
            q = heapfield(c.obj); op = m.group(2)
            if q in PF:
                owner = self.owner(c.obj)
                if owner is None: return None
                self.mems.setdefault(w, set()).add((op, PF[q]))
                d = c.args[0] if c.args and op != 'clear' else ('any',)
                return [(None, frozenset(self.put(set(ts), 'M', 'add' if op in ('insert', 'emplace') else 'del', ('priv', PF[q], owner, self.norm(d)), None)))]
            if q in ('APIUtil::users', 'APIUtil::already_build') and op != 'clear':
                self.mems.setdefault(w, set()).add((op, q.split('::')[1]))
                kind = 'account' if q.endswith('users') else 'db'
                if op == 'erase':
                    t2 = self.put(set(ts), 'M', 'del', (kind, self.norm(c.args[0])), None)
                else:
                    k = c.args[0]; v = c.args[1] if len(c.args) > 1 else None
                    if k[0] == 'pair': k, v = k[1], k[2]
                    pw = None
                    if kind == 'account':
                        pw = st.mem.get(('f', strip(v), 'DBUserInfo::password')) if v else None
                        pw = ('lit', pw) if pw else ('any',)
                    t2 = self.put(set(ts), 'M', 'add', (kind, self.norm(k)), pw)
                return [(None, frozenset(t2))]
        return None
    def norm(self, t): 
        if t[0] == 'find': return self.norm(t[2])
        return t
    def owner(self, obj):
        """the account whose record obj belongs to: the key it was looked up with, ('any',) inside an enumeration, None for a new record"""
        b = obj
        while b and b[0] in ('f', 'deref', 'addr') and b[1]:
            b = b[1]
        if b[0] == 'idx': b = ('find', b[1], b[2])
        if b[0] == 'find': return b[2] if b[2][0] in ('arg', 's', 'f', 'loc') else ('any',)
        if b[0] in ('new', 'obj'): return None
        return ('any',)
    def on_store(self, S, st, l, v, n):
        if l and l[0] == 'f' and l[2] == 'DBUserInfo::password':
            o = self.owner(l)
            if o is None: return None
            self.mems.setdefault('password', set()).add(('set', 'password'))
            return frozenset(self.put(set(st.ts), 'M', 'add', ('account', o), ('lit', v)))
        return None
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        if cond[0] == 'has' and heapfield(cond[1]) in PF and not tr:
            o = self.owner(cond[1])
            if o: return st.ts | {('lacks', ('priv', PF[heapfield(cond[1])], o, cond[2]))}
        return None
    def put(self, t2, side, o, k, v):
        t2 = set(x for x in t2 if not (x[0] == side and x[2] == k))
        t2.add((side, o, k, v))
        return t2
    def compare(self, ts):
        """list of disagreements of one path"""
        g = lambda side: {x[2]: (x[1], x[3]) for x in ts if x[0] == side and x[2][0] != 'other' and not (x[2][0] == 'priv' and x[2][1] not in KINDS)}
        Pd, M = g('P'), g('M')
        lacks = set(x[1] for x in ts if x[0] == 'lacks')
        wild = lambda k: any(x == ('any',) for x in k)
        bad = []; loose = set()
        erased = set(k[1] for k, v in M.items() if k[0] == 'account' and v[0] == 'del')
        created = set(k[1] for k, v in M.items() if k[0] == 'account' and v[0] == 'add')
        def same(a, b):
            """all of them is not the one named"""
            return a == b or a == ('any',) and b[0] not in ('arg', 's') or b == ('any',) and a[0] not in ('arg', 's')
        def match(k, D):
            if k in D: return D[k]
            if k[0] == 'priv':
                for j, v in D.items():
                    if j[0] == 'priv' and j[1] == k[1] and all(same(a, b) for a, b in zip(j[2:], k[2:])): return v
            return None
        for k, v in Pd.items():
            m = match(k, M)
            if m is None:
                if k[0] == 'priv' and (k[2] in erased and v[0] == 'del' or k in lacks and v[0] == 'del'): continue
                if k[0] == 'priv' and k[2] == ('any',): loose.add(('rec', k, v[0])); continue
                bad.append(('recorded', k, v[0]))
            elif m[0] != v[0]: bad.append(('opposite', k, v[0]))
            elif m[1] is not None and v[1] is not None and m[1] != v[1]: bad.append(('value', k, v[0]))
        for k, v in M.items():
            m = match(k, Pd)
            if m is None: 
                if k[0] == 'priv' and k[2] == ('any',) and not any(x[0] == 'bad' for x in ts): loose.add(('mem', k, v[0])); continue
                bad.append(('memory', k, v[0]))
        for u in erased:
            for kd in KINDS:
                if match(('priv', kd, u, ('any',)), Pd) is None and ('account', u) in Pd: bad.append(('leftover', ('priv', kd, u, ('any',)), 'del'))
        return bad, loose, bool(M)

def name(k):
    if k[0] == 'priv': return 'the %s privilege of account %s on %s' % (k[1], show(k[2]) if k[2] != ('any',) else '(any)', show(k[3]) if k[3] != ('any',) else '(any database)')
    if k[0] == 'account': return 'account / password of %s' % (show(k[1]) if k[1] else '?')
    return 'built database %s' % (show(k[1]) if k[1] else '?')

def check(ctx):
    P = ctx.prog(['GRPC/APIUtil.cpp'])
    fns = [F for F in P.fns.values() if F.file.startswith('GRPC/APIUtil')]
    vs, kv = kindvars(P, fns)
    r = R19(P, vs)
    S0 = Sim(P, r)
    ents = [F for F in roots(P, 'APIUtil', API) if F.u in S0.interesting and F.name not in ('initialize', 'update_sys_db', 'query_sys_db', 'refresh_sys_db', '~APIUtil') and not F.q.endswith('::APIUtil')]
    ntext = 0
    for F in ents:
        fw = P.forward([F.u])
        cases = KINDS + ('login',) if any(u in fw for u, v in kv) else (None,)
        bad = {}; loose = {}; anymem = False
        for T in cases:
            r.T = T
            S = Sim(P, r, cap=3000)
            agree = False
            for st, rv, kind in S.run(F, frozenset()):
                b, l, m = r.compare(st.ts)
                for x in b: bad.setdefault((x[0], x[1][:2] if x[1][0] == 'priv' else x[1][:1]), (x, trace(st)))
                for x in l:
                    loose.setdefault((T,) + x, trace(st))
                for x in st.ts:
                    if x[0] in 'MP' and x[2][0] == 'priv': loose.setdefault('seen', set()).add((T, x[0], x[2][1], x[1]))
            ctx.use(S)
            # enumerations of accounts: some path has to change every account the record was about
        seen = loose.pop('seen', set())
        for (T, side, k, o), tr in loose.items():
            h = 'recorded' if side == 'rec' else 'memory'
            if (T, 'M' if side == 'rec' else 'P', k[1], o) not in seen: bad.setdefault((h, k[:2]), ((h, k, o), tr))
        ctx.ob('%s: recorded and in-memory changes agree%s' % (F.q, ' (%d privilege kinds)' % len(KINDS) if cases[0] else ''), not bad)
        for key, ((how, k, o), tr) in bad.items():
            verb = {'add': 'added', 'del': 'removed'}[o]
            text = {'recorded': '%s: %s is %s in the system database but not in memory', 'memory': '%s: %s is %s in memory but not in the system database: it does not survive a restart, or takes effect although the operation failed',
                    'opposite': '%s: %s is %s in the system database and the opposite happens in memory', 'value': '%s: %s is %s with different values in the system database and in memory',
                    'leftover': '%s: the account is removed but %s is not %s from the system database'}[how] % (F.q, name(k), verb)
            ctx.violation('%s:%s:%s' % (how, F.name, '-'.join(str(x) for x in key[1])), '%s:%s' % (F.file, F.line), text, tr)
    for (q, w), t in sorted(r.unread.items()):
        if q not in ('APIUtil::abort_transactionlog',) and 'transaction' not in q.lower() and 'TID' not in t:
            ctx.notes.append('statement not read at %s in %s: %s' % (w, q, t))
    for w, s in sorted(r.stmts.items()): ctx.ob('statement at %s: %s' % (w, ', '.join('%s %s' % x for x in sorted(s))))
    for w, s in sorted(r.mems.items()): ctx.ob('memory change at %s: %s' % (w, ', '.join('%s %s' % x for x in sorted(s))))
    ctx.need(len(ents), 6, 'management operations')
    ctx.need(len(r.stmts), 6, 'recorded statements'); ctx.need(len(r.mems), 7, 'in-memory changes')
    startup(ctx, P)

class R19s(Rule):
    """reading the recorded privileges back at startup: a database goes into the K set exactly under 'the fact is has_K_priv'"""
    def __init__(self): self.seen = set(); self.bad = {}
    def wants(self, F, n):
        f = n.get('f') or ''
        if n.get('k') != 'call' or not SETOP.match(f) or not f.endswith(('::insert', '::emplace')): return False
        o = F.nodes[n['o']] if n.get('o', -1) >= 0 else {}
        return o.get('k') == 'mem' and o.get('q') in PF
    def on_call(self, S, st, c):
        m = SETOP.match(c.f or '')
        if m and heapfield(c.obj) in PF:
            k = PF[heapfield(c.obj)]; self.seen.add(k)
            cur = next((x[1] for x in st.ts if x[0] == 'fact'), None)
            if cur != k: self.bad.setdefault((k, cur), ('%s:%s' % (c.F.file, c.line()), trace(st)))
        return None
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        for x in cond[1:]:
            if isinstance(x, tuple) and x[:1] == ('s',) and len(x) == 2:
                m = re.match(r'^has_(\w+)_priv$', str(x[1])) 
                if m:
                    if cond[1] == '!=': tr = not tr
                    ts = frozenset(y for y in st.ts if y[0] != 'fact')
                    return ts | {('fact', m.group(1))} if tr else ts
        return None

def startup(ctx, P):
    F = P.get('APIUtil::initialize')
    if not F:
        ctx.notes.append('no APIUtil::initialize: reading privileges back at startup not examined'); return
    r = R19s(); S = Sim(P, r, cap=3000)
    S.run(F[0] if isinstance(F, list) else F, frozenset()); ctx.use(S)
    for k in KINDS:
        b = [x for x in r.bad if x[0] == k]
        ctx.ob('startup: recorded %s privileges are read back into the %s set' % (k, k), k in r.seen and not b)
        if k not in r.seen: ctx.violation('startup-missing:' + k, 'GRPC/APIUtil.cpp', 'recorded %s privileges are not read back at startup: they are lost by a restart' % k, [])
        for x in b:
            w, t = r.bad[x]
            ctx.violation('startup:%s:%s' % (k, x[1]), w, 'at startup a database is put into the %s privilege set of an account for the recorded fact has_%s_priv' % (k, x[1] or '?'), t)

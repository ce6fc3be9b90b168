"""Text of requests and the two interpreters behind the server: the shell (system, popen) and the system database (statements built
by concatenation).  Bottom-up over the call graph every function is analysed path-sensitively: each piece of a command or statement
is traced back to what it was built from.  Constants, configuration, registry contents and values the server generates are fine; a
parameter becomes an obligation of every caller; text taken from a request is fine only on paths where it was found free of the
characters that end a word, a name or a literal (check_param_value with a kind for which it examines the characters), found among
the registered accounts or databases, belongs to the account whose credentials were verified, or - for the shell - was quoted."""
from common import *
from c17 import entries, tasks
from gate import *
RULE = 'path-sensitive taint of shell commands and system database statements, with per-parameter obligations on callers'
TUS = ['Main/ghttp.cpp', 'GRPC/APIUtil.cpp', 'Util/Util.cpp']
KNOWN = {'APIUtil::check_db_exist': 0, 'APIUtil::check_already_build': 0, 'APIUtil::check_user_exist': 0, 'APIUtil::check_already_load': 0}
SRC = {'CutParam', 'UrlDecode', 'GetString', 'string', 'path_match', 'Parse', 'value'}
NAMESET = set('<>"\\ ;|&$`\'/\n'); LITSET = set('"\\')
def short(f): return (f or '').split('::')[-1]
def sink(n):
    f = n.get('f') or ''
    if n.get('k') != 'call': return None
    if f in ('system', 'popen', 'std::system') or f in ('execl', 'execlp', 'execvp', 'execv'): return 'shell'
    if f in ('APIUtil::update_sys_db', 'APIUtil::query_sys_db'): return 'stmt'
    return None
def strt(t): return 'basic_string<char' in t or t in ('std::string', 'string')

class Content(Rule):
    """check_param_value for one kind of parameter: which characters cannot be in a value it accepts"""
    ret_matters = True; all_branches = True
    def __init__(self, vi): self.vi = vi
    def wants(self, F, n): return n.get('k') == 'ret'
    def on_call(self, S, st, c):
        f = short(c.f)
        ops = [c.obj] + list(c.args)
        if any(o is not None and o[0] == 'arg' and o[1] == self.vi for o in ops) and f not in ('empty', 'operator==', 'operator!=', 'length', 'size', 'substr', 'find_first_of', 'find', 'operator=', 'compare', 'basic_string', 'c_str', 'operator+', 'find_last_of') and c.k == 'call':
            return [(None, st.ts | {('looked',)})]
        return None
    def on_load(self, S, st, l, n): pass
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        def walk(t):
            if isinstance(t, tuple):
                if t[:1] == ('idx',) and t[1][0] == 'arg' and t[1][1] == self.vi: return True
                return any(walk(x) for x in t)
            return False
        if walk(cond): return st.ts | {('looked',)}
        if cond[0] == 'bin' and cond[1] == '==':
            for a, b in ((cond[2], cond[3]), (cond[3], cond[2])):
                if a[0] == 'call' and a[1] in ('find_first_of', 'strfind', 'find') and a[2][0] == 'arg' and a[2][1] == self.vi and b[0] == 'c':
                    if tr and b[1] in (-1, 18446744073709551615):
                        return st.ts | {('free', c) for c in (a[3][1] if a[3][0] == 's' and a[1] == 'find_first_of' else (chr(a[3][1]) if a[3][0] == 'c' else a[3][1] if a[3][0] == 's' and len(a[3][1]) == 1 else ''))}
        return None

class R26(Rule):
    depth = 4; catw = 40
    def __init__(self, P, kinds): self.P = P; self.kinds = kinds; self.req = {}; self.found = {}; self.sites = {}
    def wants(self, F, n):
        f = n.get('f') or ''
        return n.get('k') == 'call' and (sink(n) is not None or n.get('u') in self.req or f in KNOWN or f in ('APIUtil::check_param_value', 'APIUtil::check_indentity', 'Util::shell_quote') or self.small(self.P.fns.get(n.get('u'))))
    def small(self, G):
        return G is not None and not G.new and len(G.blocks) < 12 and any(strt(q['t'].replace('&', '').replace('std::', '').strip()) and '&' in q['t'] and 'const' not in q['t'] for q in G.params)
    def no_inline(self, F, st=None): return not (F.new or self.small(F))
    def inline_extra(self, F): return self.small(F)
    def opaque_throws(self, G): return False
    def ok(self, st, t, kind):
        return any(x[0] == 'ok' and x[1] == t and (x[2] == 'name' or kind == 'stmt') for x in st.ts)
    def leaves(self, st, t, kind, d=0):
        if d > 12: return
        if self.ok(st, t, kind): return
        h = t[0]
        if h in ('s', 'c', 'num', 'unk', 'void', 'g', 'this', 'has', 'new'): return
        if h == 'cat':
            for x in t[1:]: yield from self.leaves(st, x, kind, d + 1)
        elif h == 'call':
            if t[1] == 'quoted':
                if kind != 'shell': yield from self.leaves(st, t[2], kind, d + 1)
                return
            if t[1] in ('size', 'length', 'empty', 'find', 'strfind', 'find_last_of'): return
            for x in t[2:3] if t[1] == 'substr' else t[2:]:
                if isinstance(x, tuple): yield from self.leaves(st, x, kind, d + 1)
        elif h == 'arg': yield t
        elif h == 'idx': yield from self.leaves(st, t[1], kind, d + 1)
        elif h in ('jv',): yield t
        elif h == 'r':
            if short(t[1]) in SRC: yield t
        elif h in ('f', 'deref', 'ref', 'addr', 'find'):
            b = t[1]
            if b[0] in ('r', 'call') and any(True for _ in self.leaves(st, b, kind, d + 1)): yield t
            elif h == 'ref' or h == 'addr': yield from self.leaves(st, b, kind, d + 1)
    def on_call(self, S, st, c):
        f = c.f or ''; ts = st.ts
        if c.k != 'call': return None
        # what the request says under one name is one value, however it was sent
        h = short(f)
        if h == 'CutParam' and len(c.args) > 1:
            k = S.known(st, c.args[1]) or c.args[1]
            if k[0] == 's': return [(('r', 'value', k), ts)]
        if h == 'UrlDecode' and c.args:
            k = S.known(st, c.args[0]) or c.args[0]
            if k[:2] == ('r', 'value'): return [(k, ts)]
        if h == 'GetString' and c.obj is not None:
            if c.obj[0] == 'idx' and c.obj[2][0] == 's': return [(('r', 'value', c.obj[2]), ts)]
        if f == 'APIUtil::check_param_value':
            k = S.known(st, c.args[0]) or c.args[0]
            lv = self.kinds.get(k[1]) if k[0] == 's' else None
            if lv: return [(('s', ''), ts | {('ok', c.args[1], lv)}), (('s', 'refused'), ts)]
            return [(('s', ''), ts), (('s', 'refused'), ts)]
        if f in KNOWN: return [(C1, ts | {('ok', c.args[0], 'name')}), (C0, ts)]
        if f == 'APIUtil::check_indentity': return [(('s', ''), ts | {('ok', c.args[0], 'name')}), (('s', 'refused'), ts)]
        if f == 'Util::shell_quote': return [(('call', 'quoted', c.args[0]), ts)]
        k = sink(c.n)
        if k:
            for a in c.args[:1]: self.judge(S, st, c, a, k, 'a command handed to the shell' if k == 'shell' else 'a statement on the system database')
            return None
        u = c.n.get('u')
        if u in self.req:
            for i, kinds in self.req[u].items():
                if i < len(c.args):
                    for k2 in kinds: self.judge(S, st, c, c.args[i], k2, '%s (through %s)' % ('a command handed to the shell' if k2 == 'shell' else 'a statement on the system database', self.P.fns[u].name))
        if strt(c.n.get('t', '')) and c.args and not f.startswith('std::') and not (self.P.fns.get(u) and (self.P.fns[u].new or self.small(self.P.fns[u]))):
            if any(strt(self.cty(c, i)) for i in range(len(c.args))): 
                return [(('call', 'of') + tuple(a for i, a in enumerate(c.args) if strt(self.cty(c, i))), ts)]
        return None
    def cty(self, c, i):
        G = self.P.fns.get(c.n.get('u'))
        if G is not None and i < len(G.params): return G.params[i]['t'].replace('const', '').replace('&', '').strip()
        return ''
    def judge(self, S, st, c, a, kind, what):
        F = self.cur
        w = '%s:%s' % (c.F.file, c.line())
        self.sites.setdefault((c.F.q, w, kind), True)
        a = S.known(st, a) or a
        for x in self.leaves(st, a, kind):
            if x[0] == 'arg' and x[1] < len(F.params) and not F.u in self.ents:
                self.need.setdefault(x[1], {}).setdefault(kind, (w, trace(st)))
                continue
            self.sites[(c.F.q, w, kind)] = False
            self.found.setdefault((F.name, kind, short(c.f)), (w, 'text of the request (%s) becomes part of %s without having been examined' % (x[2][1] if x[:2] == ('r', 'value') else show(x), what), trace(st)))

def check(ctx):
    P = ctx.prog(TUS)
    ents = entries(P) + tasks(P)
    reach = P.forward([F.u for F in ents])
    scope = {u for u in reach if u in P.fns and P.fns[u].file.startswith(('Main/', 'GRPC/', 'Util/'))}
    # what check_param_value examines
    CP = P.one('APIUtil::check_param_value')
    used = set()
    for u in scope:
        for i, n in P.fns[u].calls():
            if n.get('f') == 'APIUtil::check_param_value':
                a = n['args'][0]
                def lit(F, x, d=0):
                    m = F.nodes[x]
                    if m.get('k') == 'str': return m['s']
                    for y in list(m.get('args', [])) + [m.get('o', -1)]:
                        if y >= 0 and d < 5:
                            r = lit(F, y, d + 1)
                            if r is not None: return r
                used.add(lit(P.fns[u], a))
    kinds = {}
    for K in sorted(x for x in used if x):
        r = Content(1); S = Sim(P, r, cap=2000)
        free = None; looked = True
        for st, rv, kind in S.run(CP, frozenset(), pre=lambda S, st: st.mem.__setitem__(('loc', 0, CP.params[0]['v'], CP.params[0]['n']), ('s', K))):
            if rv is None or rv[0] == 's' and rv[1] != '': continue
            if S.truth(st, ('call', 'empty', rv)) is False: continue
            fr = set(x[1] for x in st.ts if x[0] == 'free')
            if ('looked',) in st.ts: fr |= NAMESET
            free = fr if free is None else free & fr
        free = free or set()
        kinds[K] = 'name' if NAMESET <= free else 'lit' if LITSET <= free else None
        ctx.use(S)
        ctx.ob('check_param_value(%s): %s' % (K, {'name': 'refuses every character that ends a name or a shell word', 'lit': 'refuses every character that ends a literal', None: 'says nothing about the characters'}[kinds[K]]))
    r = R26(P, kinds); r.ents = {F.u for F in ents}
    todo = [u for u in sorted(scope, key=lambda u: (P.fns[u].q, u)) if any(sink(n) for i, n in P.fns[u].calls())]
    # the function operations compile and load client code by design
    excl = lambda F: F.name.startswith('fun_') or F.name in ('update_sys_db', 'query_sys_db')
    done = {}; rounds = 0
    work = [u for u in todo if not excl(P.fns[u])]
    n = 0
    while work and rounds < 400:
        rounds += 1
        u = work.pop(0); F = P.fns[u]
        if F.new or excl(F): continue
        r.cur = F; r.need = {}
        S = Sim(P, r, cap=3000)
        S.run(F, frozenset()); n += 1
        ctx.use(S)
        if {i: set(k) for i, k in r.need.items()} != {i: set(k) for i, k in r.req.get(u, {}).items()}:
            r.req[u] = r.need
            for v in sorted(P.callers.get(u, ()), key=lambda v: (P.fns[v].q, v)):
                if v in scope and v not in work: work.append(v)
    for (q, w, k), ok in sorted(r.sites.items()): ctx.ob('%s at %s: every piece of the %s is accounted for' % (q, w, 'command' if k == 'shell' else 'statement'), ok)
    for (fn, k, via), (w, t, tr) in r.found.items(): ctx.violation('%s:%s:%s' % (k, fn, via), w, t, tr)
    for u, q in sorted(r.req.items(), key=lambda x: P.fns[x[0]].q):
        if q: ctx.notes.append('%s passes its duty on: %s' % (P.fns[u].q, ', '.join('%s (%s)' % (P.fns[u].params[i]['n'], '/'.join(sorted(k))) for i, k in sorted(q.items()))))
    ctx.need(len(r.sites), 20, 'commands and statements')

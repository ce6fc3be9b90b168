"""File transfer.  All paths of the entry points of the HTTP server that open a file themselves (upload, download) carry the
gate typestate plus: which path value was proved to lie under the home directory, which suffix was found on the allow list,
whether the announced size was compared with the limit.  A file opened for writing must be opened on every path after address,
failure count, credentials, suffix and size were checked, at a path that starts with the configured upload folder and otherwise
consists of constants, the server's time stamp and base-name / suffix extractions of the client's name; the functions that
extract them are shown, per return path, to answer only what follows the last separator.  A file opened for
reading must be opened after address, failure count and credentials were checked and must be the very path value whose
containment in the home directory (resolved path, separator included) was established."""
from gate import *
from c17 import entries
RULE = 'typestate of the transfer gate; provenance of the opened path'
PURE_NAME = {'fileName', 'fileSuffix'}
SERVER = {'Util::getTimeString2', 'Util::getTimeString', 'Util::int2string', 'Util::getRandNum', 'Util::get_timestamp', 'Util::getThreadID', 'Util::get_date_time'}

def opens(n):
    f = n.get('f', '') or ''; t = n.get('t', '')
    m = f.split('::')[-1]
    if n.get('k') == 'ctor' and n.get('args'):
        if 'basic_ofstream' in t: return 'w'
        if 'basic_ifstream' in t: return 'r'
        if 'basic_fstream' in t: return 'w'
    if n.get('k') == 'call' and m == 'open' and n.get('args'):
        if 'basic_ofstream' in f or 'basic_fstream' in f: return 'w'
        if 'basic_ifstream' in f: return 'r'
        if f == 'open': return 'w'
    if n.get('k') == 'call' and f in ('fopen', 'fopen64'): return 'w'
    return None

def leaves(t):
    if t[0] == 'cat':
        for x in t[1:]:
            yield from leaves(x)
    else: yield t

class R24(GateRule):
    def wants(self, F, n):
        if F.u not in self.rel: return False
        if n.get('k') not in ('call', 'ctor'): return False
        f = n.get('f', '') or ''
        return f in GATES or opens(n) or f.startswith('APIUtil::check_upload_allow') or f in ('start_with', 'Util::get_cur_path', 'APIUtil::get_system_username')
    def no_inline(self, F, st=None): return F.u not in self.rel or F.name in ('start_with', 'fileName', 'fileSuffix')
    def target(self, n): return None
    def has(self, t, name):
        if isinstance(t, tuple) and t:
            if t[0] == 'r' and t[1].split('::')[-1] == name or t[0] == 'g' and t[1] == name: return True
            return any(self.has(x, name) for x in t if isinstance(x, tuple))
        return False
    def inside(self, a, b):
        """flags established by 'a lies under b'"""
        lv = list(leaves(b))
        if not (lv and lv[0][0] == 'r' and lv[0][1].split('::')[-1] == 'get_cur_path'): return None
        sep = len(lv) > 1 and lv[-1][0] == 's' and lv[-1][1].endswith('/')
        return ('inside' if sep else 'like', a)
    def on_call(self, S, st, c):
        ts = st.ts; f = c.f
        where = '%s:%s' % (c.F.file, c.line())
        if c.k == 'throw': return None
        if f.startswith('APIUtil::check_upload_allow'):
            return [(C1, ts | {('ext', c.args[0])}), (C0, ts)]
        if f.split('::')[-1] == 'compare' and len(c.args) >= 3:
            x = self.inside(c.obj, c.args[-1]) if c.obj else None
            if x: return [(C0, ts | {x}), (C1, ts)]
        if c.n.get('t') == 'bool' and len(c.args) == 2 and self.P.fns.get(c.n.get('u')) is not None and f not in GATES:
            x = self.inside(c.args[0], c.args[1])
            if x: return [(C1, ts | {x}), (C0, ts)]
        k = opens(c.n)
        if k:
            self.fileevent(S, st, c, k, where)
            return None
        return GateRule.on_call(self, S, st, c)
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        if cond[0] == 'bin' and cond[1] == '==' and cond[3] == C0 and cond[2][0] == 'call' and cond[2][1] == 'strfind' and tr:
            x = self.inside(cond[2][2], cond[2][3])
            if x: return st.ts | {x}
        if cond[0] == 'bin' and cond[1] == '<' and self.has(cond, 'get_upload_max_body_size'):
            small = (not tr) if self.has(cond[2], 'get_upload_max_body_size') else tr
            return st.ts | {('size', small)}
        if tr and cond[0] == 'bin' and cond[1] == '==' and cond[3] in NPOS and isfind(cond[2]): return st.ts | {('nosep', cond[2][2])}
        if cond[0] == 'has' and cond[2] == ('s', 'Content-Length'): return st.ts | {('length', tr)}
        return None
    def fileevent(self, S, st, c, k, where):
        ts = st.ts
        self.seen.setdefault(k, set()).add(where)
        ok = lambda cond, kind, text: None if cond else self.report(kind, (c.F.name, k), where, text, st)
        what = 'a file is written' if k == 'w' else 'a file is handed out'
        ips = [x for x in ts if x[0] == 'ip']
        ok(any(x[1] in (0, 1) for x in ips), 'address', what + ' without the address list having been consulted')
        ok(any(x[1] in (0, 2) for x in ips), 'lockout', what + ' without the failure count of the address having been checked')
        srv = ('srv',) in ts
        ok(any(x[0] == 'auth' for x in ts) or srv, 'credentials', what + ' without the credentials having been verified')
        path = c.args[0]
        if k == 'w':
            ext = [x[1] for x in ts if x[0] == 'ext']
            lv = list(leaves(path))
            ok(bool(ext), 'suffix', 'a file is written although its suffix was not found on the allow list')
            if ext: ok(lv and lv[-1] in ext, 'suffixof', 'the file written does not end in the suffix that was checked')
            ok(('size', False) not in ts, 'size', 'a file is written although the announced size exceeds the limit')
            ok(('length', False) in ts or ('size', True) in ts or ('size', False) in ts, 'nosize', 'a file is written without the announced size having been compared with the limit')
            ok(lv and lv[0][0] == 'r' and lv[0][1] == 'APIUtil::get_upload_path', 'folder', 'the file written does not lie under the configured upload folder')
            for x in lv[1:]:
                ok(self.clean(S, st, x), 'name', 'the path written contains %s, which is not reduced to a base name' % show(x))
        else:
            ins = [x[1] for x in ts if x[0] == 'inside']; like = [x[1] for x in ts if x[0] == 'like']
            ok(path in ins or path in like, 'containment', 'the file handed out (%s) was not shown to lie in the home directory' % show(path))
            if path in like and path not in ins: ok(False, 'separator', 'the home directory test on %s does not include the separator' % show(path))
            ok(path[0] == 'r' and path[1].split('::')[-1] in ('getExactPath', 'realpath') or not path[0] == 'r', 'resolved', 'the file handed out (%s) is not the resolved path' % show(path))
    def clean(self, S, st, x):
        v = clean(S, st, x, [])
        return v is not False

def isfind(t): return t[0] == 'call' and t[1] in ('find_last_of', 'rfind') and len(t) > 3 and t[3] in (('s', '/'), ('c', 47))
NPOS = (('c', 18446744073709551615), ('c', -1))
def linear(t, sign=1, out=None):
    out = {} if out is None else out
    if t[0] == 'bin' and t[1] in ('+', '-'):
        linear(t[2], sign, out); linear(t[3], sign if t[1] == '+' else -sign, out)
    elif t[0] == 'c' and isinstance(t[1], int): out[1] = out.get(1, 0) + sign * t[1]
    else: out[t] = out.get(t, 0) + sign
    return {k: v for k, v in out.items() if v}
def sub(a, b):
    o = dict(a)
    for k, v in b.items(): o[k] = o.get(k, 0) - v
    return {k: v for k, v in o.items() if v}
def clean(S, st, x, why):
    """True: no separator can reach the value from outside; False: one can; None: not decided here"""
    if x[0] in ('s', 'c', 'num') or S.known(st, x) is not None: return True
    if any(y[0] == 'nosep' and y[1] == x for y in st.ts if isinstance(y, tuple)): return True
    if x[0] == 'cat':
        vs = [clean(S, st, y, why) for y in x[1:]]
        return False if False in vs else None if None in vs else True
    if x[0] == 'call' and x[1] == 'to_string': return True
    if x[0] == 'call' and x[1] == 'substr':
        v = clean(S, st, x[2], why)
        if v or len(x) < 4: return v
        s, start = x[2], x[3]; ln = x[4] if len(x) > 4 else NPOS[0]
        ls = linear(start)
        for p in [t for t in ls if t != 1 and isfind(t) and t[2] == s]:
            if sub(ls, {p: 1}) != {1: 1}: continue
            if len(p) < 5 or p[4] in NPOS: return True
            k = p[4]
            if k[0] == 'call' and k[1] == 'find_last_not_of' and k[2] == s and k[3] in (('s', '/'), ('c', 47)):
                rest = sub(sub(linear(ln), linear(k)), {kk: -vv for kk, vv in ls.items()})
                return True if rest == {1: 1} else False
            return None
        if start == C0 or start in NPOS:
            if any(y[0] == 'nosep' and y[1] == s for y in st.ts if isinstance(y, tuple)): return True
            return v if start == C0 else None
        if any(t != 1 and t[0] == 'call' and t[1] in ('find_first_of', 'find', 'strfind', 'find_first_not_of') for t in ls): return False
        return v if set(ls) <= {1} else None
    if x[0] == 'r':
        m = x[1].split('::')[-1]
        if m in ('substr', 'c_str', 'str', 'append', 'assign'): return None
        return True if x[1] in PURE_NAME or x[1] in SERVER or m in ('to_string', 'filename', 'stem', 'basename') else False
    if x[0] in ('unk', 'upd', 'cond', 'bin', 'un'): return None
    return False

class Name(Rule):
    """a function that reduces a client's path to a name"""
    ret_matters = True; all_branches = True; fold_sym = True
    def wants(self, F, n): return n.get('k') == 'ret'
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        if tr and cond[0] == 'bin' and cond[1] == '==' and cond[3] in NPOS and isfind(cond[2]): return st.ts | {('nosep', cond[2][2])}
        if tr and cond[0] == 'bin' and cond[1] == '==' and cond[2] in NPOS and isfind(cond[3]): return st.ts | {('nosep', cond[3][2])}
        return None

class Prefix(Rule):
    """start_with(str, prefix): true only if the lengths allow it and no character differed"""
    ret_matters = True; all_branches = True
    def wants(self, F, n): return n.get('k') == 'ret'
    def on_branch(self, S, st, cond, tr):
        while cond[0] == 'un' and cond[1] == '!': cond = cond[2]; tr = not tr
        if cond[0] == 'bin' and cond[1] == '<' and cond[2][0] == 'call' and cond[2][1] in ('size', 'length') and cond[3][0] == 'call' and cond[3][1] in ('size', 'length'):
            return st.ts | {('short', cond[2][2], tr)}
        if cond[0] == 'bin' and cond[1] == '==' and cond[2][0] == 'idx' and cond[3][0] == 'idx':
            return st.ts | {('same' if tr else 'differ')}
        return None

def check(ctx):
    P = ctx.prog(['Main/ghttp.cpp'])
    ents = entries(P)
    r = R24(P, ents)
    files = P.reach(lambda F: any(opens(n) for i, n in F.calls()) and not F.cls)
    # entry functions that open files in code that is not behind the operation dispatch
    r.rel = set()
    n = 0
    for F in ents:
        fw = P.forward([F.u]) & files
        gate = [u for u in fw if u in r.gated]
        if F.u not in r.ent or not fw: continue
        if any(P.fns[u].name == 'request_thread' for u in P.forward([F.u])): continue
        r.rel |= fw | (P.forward([F.u]) & r.gated)
    todo = [F for F in ents if F.u in r.rel]
    S = Sim(P, r, cap=2000)
    for F in todo:
        before = len(r.found)
        S.run(F, frozenset()); n += 1
        ctx.ob('%s (line %d): every file it opens is opened behind the transfer gate' % (F.q, F.line), len(r.found) == before)
    ctx.use(S)
    for k in ('r', 'w'): ctx.ob('files opened for %s at %s' % ('writing' if k == 'w' else 'reading', ', '.join(sorted(r.seen.get(k, ())))))
    for (kind, key), (w, text, tr) in r.found.items():
        ctx.violation('%s:%s:%s' % (kind, key[0], key[1]), w, text, tr)
    ctx.need(len(r.seen.get('w', ())), 1, 'files opened for writing'); ctx.need(len(r.seen.get('r', ())), 1, 'files opened for reading')
    for nm in sorted(PURE_NAME):
        for F in P.get(nm, required=False):
            S = Sim(P, Name()); bad = False; np = 0
            for st, rv, kind in S.run(F, frozenset()):
                if rv is None or kind != 'ret': continue
                np += 1
                if clean(S, st, rv, []) is False:
                    bad = True; ctx.violation('name:' + nm, '%s:%s' % (F.file, F.line), '%s answers %s, in which a separator of the client can remain' % (nm, show(rv)), trace(st))
            ctx.ob('%s: nothing before the last separator remains in the name it answers (%d paths)' % (nm, np), not bad); ctx.use(S)
    for F in P.get('start_with', required=False):
        p = Prefix(); S = Sim(P, p); bad = False
        if not any(n and n.get('k') == 'idx' or n and n.get('op') == '[]' for n in F.nodes): continue
        for st, rv, kind in S.run(F, frozenset()):
            if rv is None or S.truth(st, rv) is False: continue
            if 'differ' in st.ts or not any(x[0] == 'short' and x[2] is False and x[1] == ('arg', 0, F.params[0]['n']) for x in st.ts if isinstance(x, tuple)):
                bad = True; ctx.violation('prefix', '%s:%s' % (F.file, F.line), 'start_with answers true for a text that does not start with the prefix', trace(st))
        ctx.ob('start_with: true only without a differing character and with a long enough text', not bad); ctx.use(S)

"""SPARQL update requests.  (1) Parser: the collector of template triples is explored once per update type to learn which template
(delete / insert) a triple goes to under that type; every visitor that starts an update form is explored, for modify with every
combination of present clauses, recording under which update type each clause is visited and the type finally set.  (2) Engine:
Database::query is explored once per update type with that type assumed, recording the templates it instantiates and which of the
two mutations (insert / remove) they are handed to, in which order, with which transaction, and under which value of the permission
flag.  The composition must be: every form removes exactly its DELETE template and adds exactly its INSERT template, removal first,
inside the transaction of the request, and only with update permission; a query form does neither."""
from common import *
RULE = 'case enumeration over update forms: composition of parser collection and engine application'
M = {x: ('obj', 'pattern', x) for x in ('I', 'D', 'W')}
GET = {'QueryTree::getInsertPatterns': 'I', 'QueryTree::getDeletePatterns': 'D', 'QueryTree::getGroupPattern': 'W'}
SETT = 'QueryTree::setUpdateType'; GETT = 'QueryTree::getUpdateType'
CL = {'deleteClause': 'D', 'insertClause': 'I', 'quadData': 'Q', 'quadPattern': 'Q', 'groupGraphPattern': 'W'}
def marks(t): return [x for x in M if t is not None and contains(t, M[x])]

class RParse(Rule):
    lv_over = False
    def __init__(self, T=None, present=None): self.T = T; self.present = present
    def clause(self, f):
        p = (f or '').split('::')
        return CL.get(p[-1]) if len(p) > 2 and p[0] == 'SPARQLParser' else None
    def wants(self, F, n):
        if n.get('k') != 'call': return False
        f = n.get('f') or ''
        if any('GroupPattern' in (F.nodes[a].get('t') or '') for a in n.get('args', []) if a >= 0) and f.split('::')[-1].startswith(('add', 'push', 'emplace', 'insert')): return True
        return f in GET or f in (SETT, GETT) or self.clause(f) is not None and not n.get('args')
    def no_inline(self, F, st=None): return F.q.startswith('QueryTree::') or F.name.startswith('visit') and F.name not in ('visitModify',)
    def on_call(self, S, st, c):
        f = c.f or ''
        if c.k != 'call': return None
        if f in GET: return [(M[GET[f]], st.ts)]
        if f == SETT: return [(None, frozenset(x for x in st.ts if x[0] != 'T') | {('T', c.args[0])})]
        if f == GETT: 
            t = next((x[1] for x in st.ts if x[0] == 'T'), None)
            return [(t if t is not None else ('c', self.T) if self.T is not None else ('unk', c.nid, 0), st.ts)]
        cl = self.clause(f)
        if cl and not c.args:
            if self.present is not None and cl in 'DI': return [(('addr', ('obj', 'clause', cl)) if cl in self.present else C0, st.ts)]
            return [(('addr', ('obj', 'clause', cl)), st.ts)]
        al = [x for x in [c.obj] + list(c.args) if x is not None]
        for x in al:
            y = strip(x)
            if y[:2] == ('obj', 'clause'):
                t = next((x[1] for x in st.ts if x[0] == 'T'), None)
                return [(None, st.ts | {('visit', y[2], t, marks(c.args[-1])[0] if len(c.args) > 1 and marks(c.args[-1]) else None)})]
        if c.n.get('op') == '=' and c.obj is not None and marks(c.obj) == ['W'] and marks(c.args[0]) == ['D']: return [(None, st.ts | {('where',)})]
        short = f.split('::')[-1]
        if short.startswith(('add', 'push', 'emplace', 'insert')):
            for x in al:
                for m in marks(x):
                    return [(None, st.ts | {('put', m)})]
        return None

class RApply(Rule):
    exc = True
    depth = 5
    def __init__(self, T, P): self.T = T; self.P = P; self.bad = {}
    def eff(self, n):
        f = n.get('f') or ''
        return f.split('::')[-1] if f in ('Database::insert', 'Database::remove') and len(n.get('args', [])) >= 3 else None
    def wants(self, F, n):
        if n.get('k') not in ('call', 'ctor'): return False
        f = n.get('f') or ''
        return f in GET or f in (GETT, 'GeneralEvaluation::prepareUpdateTriple') or f.startswith('TripleWithObjType::TripleWithObjType') or self.eff(n) is not None
    def no_inline(self, F, st=None): return F.q in ('Database::insert', 'Database::remove', 'Database::insertTriple', 'Database::removeTriple') or F.cls != 'Database' and F.cls != ''
    def opaque_throws(self, G): return False
    def on_call(self, S, st, c):
        f = c.f or ''
        if f in GET: return [(M[GET[f]], st.ts)]
        if f == GETT: return [(('c', self.T), st.ts)]
        if f == 'GeneralEvaluation::prepareUpdateTriple':
            m = marks(c.args[0])
            arr = S.loc(c.F, c.frame, st, {}, c.n['args'][1])
            if m and m[0] in 'ID': return [(None, frozenset(x for x in st.ts if x[0] != 'prep') | {('prep', m[0])}, [('set', (arr, ('obj', 'triples', m[0])))])]
            return None
        if f.startswith('TripleWithObjType::TripleWithObjType') and len(c.args) >= 3:
            ms = set(y for x in c.args[:3] for y in marks(x))
            if len(ms) == 1 and ms <= set('ID'): return [(None, frozenset(x for x in st.ts if x[0] != 'prep') | {('prep', ms.pop())})]
            return None
        e = self.eff(c.n)
        if e:
            w = '%s:%s' % (c.F.file, c.line())
            a = strip(c.args[0])
            while a[0] in ('f', 'idx', 'bin', 'addr', 'deref') and isinstance(a[1], tuple): a = a[1]
            src = a[2] if a[:2] == ('obj', 'triples') else next((x[1] for x in st.ts if x[0] == 'prep'), None)
            n = sum(1 for x in st.ts if x[0] == 'eff')
            fl = [('arg', i, p['n']) for i, p in enumerate(self.entry.params) if p['t'] == 'bool']
            allowed = any(S.truth(st, x) is True for x in fl[:1])
            tx = [('arg', i, p['n']) for i, p in enumerate(self.entry.params) if 'Transaction' in p['t']]
            intx = not tx or any(contains(y, tx[0]) for y in c.args)
            return [(('obj', 'count', e), st.ts | {('eff', n, e, src, allowed, intx, w)})]
        return None

def check(ctx):
    P = ctx.prog(['Parser/QueryParser.cpp', 'Database/Database.cpp', 'Query/QueryTree.cpp'])
    types = None
    for q, e in P.enums.items():
        if q.endswith('UpdateType') and 'QueryTree' in q: types = e['vals']
    if not types: raise AnalysisBroken('no QueryTree::UpdateType')
    names = {v: k for k, v in types.items()}
    none = [v for v, k in names.items() if k == 'Not_Update'][0]
    # the collector: who adds template triples
    target = {}; where_eq = {}
    coll = [F for F in P.cls_fns('QueryParser') if F.blocks and F.name == 'visitTriplesSameSubject']
    ctx.need(len(coll), 1, 'template triple collector')
    for v, nm in names.items():
        if v == none: continue
        r = RParse(T=v); S = Sim(P, r, cap=2000); puts = set(); wh = set()
        for st, rv, kind in S.run(coll[0], frozenset()):
            if kind != 'ret': continue
            puts |= set(x[1] for x in st.ts if x[0] == 'put'); wh.add(('where',) in st.ts)
        ctx.use(S)
        target[v] = puts; where_eq[v] = wh
        ctx.ob('template triples read under update type %s go to one template (%s)' % (nm, ','.join(sorted(puts)) or 'none'), len(puts) == 1)
        if len(puts) != 1:
            ctx.violation('collect:' + nm, '%s:%s' % (coll[0].file, coll[0].line), 'under update type %s a template triple goes to %s' % (nm, ' and '.join({'I': 'the INSERT template', 'D': 'the DELETE template', 'W': 'the WHERE pattern'}[x] for x in sorted(puts)) or 'no template'))
    # the engine
    Q = [F for F in P.cls_fns('Database') if F.blocks and F.name == 'query']
    ctx.need(len(Q), 1, 'Database::query')
    applied = {}
    for v, nm in names.items():
        r = RApply(v, P); r.entry = Q[0]; S = Sim(P, r, cap=3000); outs = set(); ok = True
        for st, rv, kind in S.run(Q[0], frozenset()):
            ef = sorted((x[1:] for x in st.ts if x[0] == 'eff'))
            for n, e, src, al, tx, w in ef:
                if not al:
                    ok = False
                    ctx.violation('permission:%s:%s' % (nm, e), w, '%s: triples are %s although the caller did not permit updates' % (nm, {'insert': 'inserted', 'remove': 'removed'}[e]), trace(st))
                if not tx:
                    ok = False
                    ctx.violation('transaction:%s:%s' % (nm, e), w, '%s: the change is not made inside the transaction of the request' % nm, trace(st))
                if src is not None and {'I': 'insert', 'D': 'remove'}[src] != e:
                    ok = False
                    ctx.violation('swap:%s:%s' % (nm, e), w, '%s: the triples of the %s template are handed to %s' % (nm, {'I': 'INSERT', 'D': 'DELETE'}[src], e), trace(st))
            if kind != 'ret': continue
            eff = tuple(x[1] for x in ef)
            outs.add(eff)
            neg = rv is not None and rv[0] == 'c' and rv[1] < 0
            if v != none and not eff and not neg:
                ok = False
                ctx.violation('silent:' + nm, '%s:%s' % (Q[0].file, Q[0].line), '%s: the update reports success without changing anything' % nm, trace(st))
            for e in eff:
                if rv is not None and rv[0] != 'c' and not contains(rv, ('obj', 'count', e)) and rv[0] not in ('unk',):
                    ok = False
                    ctx.violation('count:%s:%s' % (nm, e), '%s:%s' % (Q[0].file, Q[0].line), '%s: the number reported does not include what %s changed' % (nm, e), trace(st))
        ctx.use(S)
        outs.discard(())
        applied[v] = outs
        ctx.ob('engine, update type %s: %s; permitted, in the transaction, counted' % (nm, ' or '.join('+'.join(o) for o in outs) or 'no change'), ok)
    if applied[none]:
        ctx.violation('query-changes', '%s:%s' % (Q[0].file, Q[0].line), 'a query form changes triples')
    ctx.ob('a query form changes nothing', not applied[none])
    # the forms
    forms = []
    for F in P.cls_fns('QueryParser'):
        if F.blocks and F.name in ('visitInsertData', 'visitDeleteData', 'visitDeleteWhere'):
            w = {'visitInsertData': 'I', 'visitDeleteData': 'D', 'visitDeleteWhere': 'D'}[F.name]
            forms.append((F, F.name[5:], {'Q': w}, w, None))
        if F.blocks and F.name == 'visitModify':
            for pr in ('DI', 'D', 'I'): forms.append((F, 'Modify with %s' % ' and '.join({'D': 'DELETE', 'I': 'INSERT'}[x] for x in pr), {x: x for x in pr}, pr, pr))
    ctx.need(len(forms), 6, 'update forms')
    for F, nm, want, effs, pr in forms:
        r = RParse(present=pr); S = Sim(P, r, cap=2000); probs = []
        for st, rv, kind in S.run(F, frozenset()):
            if kind != 'ret': continue
            fin = next((x[1] for x in st.ts if x[0] == 'T'), None)
            seen = {}
            for x in st.ts:
                if x[0] == 'visit': seen[x[1]] = (x[2], x[3])
            for cl, tgt in want.items():
                if cl not in seen: probs.append(('unvisited:' + cl, 'its %s is never read' % {'D': 'DELETE template', 'I': 'INSERT template', 'Q': 'data block'}[cl], st)); continue
                t = seen[cl][0]
                tv = t[1] if t is not None and t[0] == 'c' else none
                tg = target.get(tv, {'I'})
                if tg != {tgt}: probs.append(('template:' + cl, 'the triples of its %s are collected as %s' % ({'D': 'DELETE template', 'I': 'INSERT template', 'Q': 'data block'}[cl], ' and '.join({'I': 'triples to insert', 'D': 'triples to delete', 'W': 'conditions'}[x] for x in tg) or 'nothing'), st))
            fv = fin[1] if fin is not None and fin[0] == 'c' else None
            need = tuple({'D': 'remove', 'I': 'insert'}[x] for x in effs)
            if fv is None: probs.append(('type', 'its update type is not set', st))
            elif applied[fv] != {need}: probs.append(('effect', 'as update type %s the engine does %s instead of %s' % (names[fv], ' or '.join('+'.join(o) for o in applied[fv]) or 'nothing', '+'.join(need)), st))
            if nm == 'DeleteWhere' and fv is not None and where_eq.get(fv) != {True}: probs.append(('where', 'its pattern is not also the condition', st))
            if pr and ('W' not in seen or seen['W'][1] != 'W'): probs.append(('condition', 'its WHERE pattern is not read into the condition', st))
        ctx.use(S)
        ctx.ob('form %s: removes exactly its DELETE template, adds exactly its INSERT template' % nm, not probs)
        for k, t, st in probs:
            ctx.violation('form:%s:%s' % (nm, k), '%s:%s' % (F.file, F.line), '%s: %s' % (nm, t), trace(st))

"""Path-sensitive, context-sensitive forward dataflow over clang CFGs (property simulation).

A state is (memory: location term -> value term, facts: term -> known (in)equality with a constant, ts: the rule's
typestate).  Terms are uninterpreted and bounded, branch conditions refine facts, states that become equal after dropping
facts no later condition depends on are merged, and calls that can reach a rule event are followed into their callee
(bounded depth); every other call is havocked.  Nothing is executed and no solver is involved."""
import sys
from prog import STD_THROW
sys.setrecursionlimit(20000)
C0 = ('c', 0); C1 = ('c', 1)
MAXD = 13

def depth(t):
    if not isinstance(t, tuple): return 0
    m = 0
    for x in t:
        if isinstance(x, tuple):
            d = depth(x)
            if d > m: m = d
    return m + 1

def strip(t):
    while isinstance(t, tuple) and t and t[0] in ('addr', 'deref'):
        t = t[1]
    return t

def subterms(t, acc):
    if isinstance(t, tuple):
        acc.add(t)
        for x in t:
            if isinstance(x, tuple): subterms(x, acc)
    return acc

def contains(t, x):
    if t == x: return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and contains(y, x): return True
    return False

def fields(t, acc=None):
    if acc is None: acc = []
    if isinstance(t, tuple) and t:
        if t[0] == 'f': acc.append(t[2])
        for x in t:
            if isinstance(x, tuple): fields(x, acc)
    return acc

def nonempty(t):
    return t[0] == 's' and t[1] != '' or t[0] == 'cat' and any(nonempty(x) for x in t[1:] if isinstance(x, tuple))

def show(t):
    if not isinstance(t, tuple) or not t: return str(t)
    k = t[0]
    if k == 'c': return str(t[1])
    if k == 's': return '"%s"' % t[1][:40]
    if k == 'loc': return t[3]
    if k == 'arg': return t[2]
    if k == 'this': return 'this'
    if k == 'f': return (show(t[1]) + '.' if t[1] != ('this',) else '') + t[2].split('::')[-1]
    if k == 'g': return t[1]
    if k == 'idx': return '%s[%s]' % (show(t[1]), show(t[2]))
    if k in ('addr',): return '&' + show(t[1])
    if k in ('deref',): return '*' + show(t[1])
    if k == 'r': return t[1].split('::')[-1] + '()'
    if k == 'call': return '%s(%s)' % (t[1], ','.join(show(x) for x in t[2:]))
    if k == 'bin': return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'un': return t[1] + show(t[2])
    if k in ('find', 'has'): return '%s(%s,%s)' % (k, show(t[1]), show(t[2]))
    if k == 'pair': return '{%s,%s}' % (show(t[1]), show(t[2]))
    if k == 'unk': return '?'
    return k

class State:
    __slots__ = ('mem', 'facts', 'ts', 'tr')
    def __init__(self, mem, facts, ts, tr=None):
        self.mem = mem; self.facts = facts; self.ts = ts; self.tr = tr
    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.ts, self.tr)
    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.ts)

class _AllV:
    def __contains__(self, x): return not isinstance(x, str)
ALLV = _AllV()

class Rule:
    """Subclass hooks. A handler returns None (not mine) or a list of outcomes (value-or-None, ts, [assume pairs])."""
    exc = False           # follow exceptional edges
    depth = 8
    def wants(self, F, n): return False            # node may be an event (static pre-filter)
    def on_call(self, S, st, c): return None
    def on_store(self, S, st, loc, val, n): return None   # may return new ts
    def on_load(self, S, st, loc, n): pass
    def load_value(self, S, st, loc): return None      # a value the rule supposes for a location (case enumeration)
    def on_ret(self, S, st, F, val, kind): return None
    keep_fields = ()
    catw = 0              # follow string building (+=, append, <<) up to this many pieces
    lv_over = False       # load_value overrides what was stored
    ret_matters = False   # the entry function's result is observed by the rule
    all_branches = False
    fold_inc = False      # ++ / -- of a known number is that number plus one (loop-free code only)
    fold_depth = 5
    fold_const = 8        # sums of known numbers beyond this are not known
    fold_sym = False      # the same for unknown numbers: x + 1
    keep_end = False
    def inline_extra(self, F): return False
    def summarise(self, F): return False           # what F learned about memory is dropped when it returns
    def opaque_throws(self, G): return True
    def no_inline(self, F, st=None): return False
    def on_branch(self, S, st, cond, truth): return None
    def prune_ts(self, F, bid, ts): return ts        # drop typestate no construct reachable from this block asks for

class Call:
    __slots__ = ('H', 'F', 'n', 'nid', 'f', 'obj', 'args', 'frame', 'k', 'type')
    def line(self): return self.n.get('l', 0)

class TooBig(Exception): pass

def heapfield(t):
    while t and t[0] in ('idx', 'deref', 'addr'):
        t = t[1]
    return t[2] if t and t[0] == 'f' else None


import re
_STR = ('std::basic_string', 'basic_string<', 'std::__cxx11::basic_string')
def is_str(t):
    t = t.replace('const ', '').replace('&', '').strip()
    return t.startswith('std::basic_string<') or t.startswith('std::__cxx11::basic_string<') or t.startswith('basic_string<')
def is_sptr(t):
    t = t.replace('const ', '').strip()
    return t.startswith('std::shared_ptr<') or t.startswith('std::unique_ptr<')
CONTAINER_PURE = {'size', 'empty', 'length', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'c_str', 'data', 'back', 'front', 'substr', 'get', 'rfind', 'find_last_of', 'find_first_of'}
CMP = {'==', '!=', '<', '>', '<=', '>='}

class Sim:
    def __init__(self, prog, rule, cap=400):
        self.P = prog; self.rule = rule; self.cap = cap
        self.lv = type(rule).load_value is not Rule.load_value
        self.frames = {}     # (parent, callsite) -> id
        self.finfo = {0: None}
        self.lamframe = {}
        self._capt = {}
        self.memo = {}
        self.rel = {}
        self.stat = dict(functions=set(), states=0, blocks=0, events=0, exits=0, calls=0)
        ev = set()
        for u, F in prog.fns.items():
            for n in F.nodes:
                if n and rule.wants(F, n):
                    ev.add(u); break
            else:
                if any(isinstance(e, dict) and rule.wants(F, dict(e, k='asg') if e.get('k') == 'init' else e) for b in F.blocks.values() for e in b['e']):
                    ev.add(u)
                elif rule.inline_extra(F): ev.add(u)
        self.evfns = ev
        self.interesting = prog.reach(lambda F: F.u in ev)
        self.interesting |= {u for u, F in prog.fns.items() if F.new and (prog.noreturn(F) or any(n and n.get('k') == 'throw' for n in F.nodes) or any(b.get('nr') for b in F.blocks.values()))}
        self._xb = {}
        self._triv = {}
        self.curstack = []
    # ---------- static info per function
    def info(self, F):
        entry = len(self.curstack) <= 1
        i = self._xb.get((F.u, entry))
        if i is not None: return i
        where = {}
        elemset = {}
        for bid, b in F.blocks.items():
            for e in b['e']:
                if isinstance(e, int):
                    where[e] = bid
                elif e['k'] == 'init' and e['x'] >= 0: pass
        cross = set()
        def kids(n):
            r = list(n.get('args', []))
            for k in ('o', 'b', 'fn', 'sz'):
                if k in n and n[k] >= 0: r.append(n[k])
            for v in n.get('vars', []):
                if v['e'] >= 0: r.append(v['e'])
            return r
        self.kids = kids
        for bid, b in F.blocks.items():
            roots = []
            for e in b['e']:
                roots += kids(F.nodes[e]) if isinstance(e, int) else ([e['x']] if e['k'] == 'init' and e['x'] >= 0 else [])
            if 'tc' in b: roots.append(b['tc'])
            seen = set(); st = roots
            while st:
                x = st.pop()
                if x < 0 or x in seen: continue
                seen.add(x)
                if x in where and where[x] != bid: cross.add(x)
                elif x in where: continue
                else: st += kids(F.nodes[x])
        # a terminator condition evaluated for && || ?: must stay known in the join block
        for bid, b in F.blocks.items():
            if b.get('tk') in ('BinaryOperator', 'ConditionalOperator') and 'tc' in b: cross.add(b['tc'])
        locs = set(p['v'] for p in F.params)
        reft = {}
        for p in F.params:
            if p.get('ref'): reft[p['v']] = p
        for n in F.nodes:
            if n and n.get('k') == 'decl':
                for v in n['vars']:
                    locs.add(v['v'])
                    if v.get('ref'): reft[v['v']] = v
        for b in F.blocks.values():
            if 'cv' in b: locs.add(b['cv'])
        # slice of variables / fields that events, results and the conditions deciding them depend on
        def roots_of(x, acc, seen):
            if x < 0 or x in seen: return
            seen.add(x)
            n = F.nodes[x]
            if n.get('k') == 'ref' and 'v' in n: acc.add(n['v'] if n.get('d') not in ('global', 'slocal') else 'g:' + n.get('q', n['n']))
            elif n.get('k') == 'mem': acc.add(n['q'])
            elif n.get('k') == 'call' and n.get('u') in self.P.fns and self.P.fns[n['u']].new:
                acc.add(('C', x))
                for G in self.P.flat(self.P.fns[n['u']]):
                    for m in G.nodes:
                        if m and m.get('k') == 'mem': acc.add(m['q'])
                acc |= self.captured(self.P.fns[n['u']])
            elif n.get('k') == 'lambda' and n.get('u') in self.P.fns and self.P.fns[n['u']].new:
                acc |= self.captured(self.P.fns[n['u']])
            elif n.get('k') == 'call' and n.get('u') in self.P.fns and self.trivial(self.P.fns[n['u']]):
                for m in self.P.fns[n['u']].nodes:
                    if m and m.get('k') == 'mem': acc.add(m['q'])
            for y in kids(n): roots_of(y, acc, seen)
        ids = sorted(F.blocks)
        bit = {b: 1 << i for i, b in enumerate(ids)}
        hands = [h[1] for t in F.d.get('trys', []) for h in t['h'] if h[1] >= 0]
        def succs(bid):
            b = F.blocks[bid]
            r = [y for y in b['s'] if y >= 0]
            if any(isinstance(e, int) and F.nodes[e].get('k') == 'throw' for e in b['e']): r = r + hands
            return r
        # postdominators
        full = (1 << len(ids)) - 1
        pd = {b: full for b in ids}
        ex = F.exit
        for b in ids:
            if b == ex or not succs(b): pd[b] = bit[b]
        ch = True
        while ch:
            ch = False
            for b in ids:
                ss = succs(b)
                if b == ex or not ss: continue
                m = full
                for y in ss: m &= pd[y]
                m |= bit[b]
                if m != pd[b]: pd[b] = m; ch = True
        cdep = {}    # branch block -> set of blocks control dependent on it
        for b in ids:
            ss = set(succs(b))
            if len(ss) < 2: continue
            m = 0
            for y in ss: m |= pd[y]
            sd = pd[b] & ~bit[b]
            cdep[b] = m & ~sd
        relb = 0
        sl = set()
        asgs = []    # (block, targets, sources, joins)
        # blocks whose branch decides the value of a && || ?: that is used elsewhere
        tcb = {b['tc']: bid for bid, b in F.blocks.items() if b.get('tk') in ('BinaryOperator', 'ConditionalOperator') and 'tc' in b}
        def joins(x):
            acc = set(); st = [x]; seen = set()
            while st:
                y = st.pop()
                if y < 0 or y in seen: continue
                seen.add(y)
                if y in tcb: acc.add(tcb[y])
                st += kids(F.nodes[y])
            return acc
        need = set()
        if F.new:
            # results of a helper: what it stores through its parameters and in members
            for p in F.params:
                if (p.get('ref') or p['t'].endswith('*')) and not p['t'].startswith('const '): sl.add(p['v'])
            sl |= {n['q'] for n in F.nodes if n and n.get('k') == 'mem' and n['q'] in self.P.modsets[F.u]}
            sl |= self.captured(F)
        for bid, b in F.blocks.items():
            seen = set()
            for e in b['e']:
                if not isinstance(e, int):
                    if e['k'] == 'dtor' and (e.get('u') in self.interesting or self.rule.wants(F, e)): relb |= bit[bid]
                    if e['k'] == 'init' and self.rule.wants(F, dict(e, k='asg')):
                        relb |= bit[bid]
                        if e['x'] >= 0: roots_of(e['x'], sl, seen)
                    continue
                n = F.nodes[e]; k = n.get('k')
                if k in ('call', 'ctor', 'new') and (n.get('u') in self.interesting or self.rule.wants(F, n) or any(o.u in self.interesting for o in (self.P.over.get(n.get('u'), ()) if n.get('virt') else ())) or (k == 'call' and not n.get('u'))):
                    relb |= bit[bid]
                    for y in kids(n): need |= joins(y)
                    for y in kids(n): roots_of(y, sl, seen)
                elif k in ('asg', 'delete', 'decl', 'un', 'throw', 'ref', 'mem', 'idx') and self.rule.wants(F, n):
                    relb |= bit[bid]
                    for y in kids(n): roots_of(y, sl, seen)
                elif k == 'ret':
                    if n['args'] and (not entry or self.rule.ret_matters):
                        relb |= bit[bid]
                        need |= joins(n['args'][0])
                        for y in n['args']: roots_of(y, sl, seen)
                    elif self.rule.ret_matters: relb |= bit[bid]
                elif k == 'throw' and (self.rule.exc or F.new): relb |= bit[bid]
                if k == 'decl':
                    for v in n['vars']:
                        acc = set()
                        if v['e'] >= 0: roots_of(v['e'], acc, set())
                        asgs.append((bid, {v['v']}, acc, joins(v['e'])))
                elif k == 'asg' or (k == 'call' and (n.get('op') in ('=', '+=') or self.rule.catw and (n.get('op') == '<<' or (n.get('f') or '').endswith('::append')))):
                    a_ = set(); r_ = set()
                    if k == 'asg': roots_of(n['args'][0], a_, set()); roots_of(n['args'][1], r_, set())
                    else:
                        if 'o' in n: roots_of(n['o'], a_, set())
                        for y in n['args']: roots_of(y, r_, set())
                    asgs.append((bid, a_, r_, joins(n['args'][-1]) if n['args'] else set()))
                elif k == 'call' and n.get('u') in self.P.fns and self.P.fns[n['u']].new:
                    a_ = set(self.P.modsets[n['u']]) | self.captured(self.P.fns[n['u']]); r_ = set(); pm = n.get('pm', '')[-len(n['args']):] if n['args'] else ''
                    if 'o' in n: roots_of(n['o'], r_, set())
                    for ch_, y in zip(pm, n['args']):
                        roots_of(y, r_, set())
                        if ch_ in 'rp': roots_of(y, a_, set())
                    r_.add(('C', e)); asgs.append((bid, a_, r_, set()))
                elif k == 'un' and n['op'] in ('++', '--', 'p++', 'p--'):
                    a_ = set(); roots_of(n['args'][0], a_, set()); asgs.append((bid, a_, set(), set()))
            if b.get('nr'): relb |= bit[bid] if self.rule.ret_matters or F.new else 0
        if self.rule.all_branches:
            relb = full
        relterm = set()
        ch = True
        while ch:
            ch = False
            for b, m in cdep.items():
                if b not in relterm and (m & relb):
                    relterm.add(b); ch = True
                    relb |= bit[b]
                    if 'tc' in F.blocks[b]: roots_of(F.blocks[b]['tc'], sl, set())
            for b in need:
                if b not in relterm:
                    relterm.add(b); ch = True
                    relb |= bit[b]
                    roots_of(F.blocks[b]['tc'], sl, set())
            for bid, a_, r_, jn in asgs:
                if a_ & sl:
                    need |= jn
                    if not r_ <= sl: sl |= r_; ch = True
                    if not (relb & bit[bid]): relb |= bit[bid]; ch = True
        # per-block: slice vars used anywhere in reachable blocks
        use = {}
        for bid, b in F.blocks.items():
            acc = set(); seen = set()
            if 'tc' in b: roots_of(b['tc'], acc, seen)
            for e in b['e']:
                if isinstance(e, int): roots_of(e, acc, seen)
                elif e['k'] == 'init': roots_of(e['x'], acc, seen)
                elif e['k'] == 'dtor': acc.add(e['v'])
            use[bid] = acc & sl | set(e['v'] for e in b['e'] if isinstance(e, dict) and e['k'] == 'dtor')
        hand = [h[1] for t in F.d.get('trys', []) for h in t['h'] if h[1] >= 0]
        rel = {b: set(use[b]) for b in F.blocks}
        ch = True
        while ch:
            ch = False
            for bid, b in F.blocks.items():
                for s in b['s']:
                    if s >= 0 and not rel[s] <= rel[bid]:
                        rel[bid] |= rel[s]; ch = True
                if hand and bid not in hand:
                    for s in hand:
                        if not rel[s] <= rel[bid]: rel[bid] |= rel[s]; ch = True
        # cross-block temps still needed
        trel = {b: set() for b in F.blocks}
        tuse = {}
        for bid, b in F.blocks.items():
            acc = set(); seen = set()
            st = [b['tc']] if 'tc' in b else []
            for e in b['e']:
                st += kids(F.nodes[e]) if isinstance(e, int) else ([e['x']] if e['k'] == 'init' else [])
            while st:
                x = st.pop()
                if x < 0 or x in seen: continue
                seen.add(x)
                if x in cross and where.get(x) != bid: acc.add(x)
                if x in cross or where.get(x) != bid: st += kids(F.nodes[x])
            tuse[bid] = acc
            trel[bid] |= acc
        ch = True
        while ch:
            ch = False
            for bid, b in F.blocks.items():
                for s in b['s']:
                    if s >= 0 and not trel[s] <= trel[bid]:
                        trel[bid] |= trel[s]; ch = True
        i = dict(cross=cross, locs=locs, reft=reft, rel=rel, trel=trel, where=where, relterm=relterm, vinl={x[1] for x in sl if isinstance(x, tuple) and x[0] == 'C'})
        self._xb[(F.u, entry)] = i
        return i
    # ---------- frames
    def frame(self, parent, site):
        k = (parent, site)
        if k not in self.frames:
            self.frames[k] = len(self.frames) + 1
            self.finfo[self.frames[k]] = k
        return self.frames[k]
    # ---------- locations and values
    def lvar(self, F, fr, n):
        if n.get('d') in ('global', 'slocal'):
            return ('g', n.get('q', n['n']))
        v = n['v']
        i = self.info(F)
        if v in i['locs']: return ('loc', fr, v, n['n'])
        # captured variable
        f2 = fr
        while f2 is not None:
            lf = self.lamframe.get(f2)
            if lf is not None:
                return ('loc', lf, v, n['n'])
            inf = self.finfo.get(f2)
            f2 = inf[0] if inf else None
        return ('loc', 'free', v, n['n'])
    def cut(self, t, fr, nid):
        if depth(t) > MAXD: return ('unk', fr, nid)
        if t[0] == 'f':
            c = 0; b = t
            while isinstance(b, tuple) and len(b) > 1 and isinstance(b[1], tuple):
                if b[0] == 'f' and b[2] == t[2]: c += 1
                b = b[1]
            if c > 2: return ('unk', fr, nid)
        return t
    def mkcat(self, xs, fr, nid):
        w = self.rule.catw or 16
        r = []
        for x in xs:
            for y in (x[1:] if x[0] == 'cat' else (x,)):
                if y[0] == 's' and r and r[-1][0] == 's': r[-1] = ('s', r[-1][1] + y[1])
                elif y != ('s', ''): r.append(y)
        if not r: return ('s', '')
        if len(r) == 1: return r[0]
        if len(r) > w: r = r[:w] + [('unk', 'cat', 0)]
        t = ('cat',) + tuple(r)
        return self.cut(t, fr, nid)
    def loc(self, F, fr, st, tmp, x):
        n = F.nodes[x]; k = n.get('k')
        if k == 'ref' and 'v' in n:
            l = self.lvar(F, fr, n)
            b = st.mem.get(l)
            if b is not None and b[0] == 'ref': return b[1]
            return l
        if k == 'mem':
            return self.cut(('f', strip(self.base(F, fr, st, tmp, n['b'])), n['q']), fr, x)
        if k == 'un' and n['op'] == '*':
            v = self.val(F, fr, st, tmp, n['args'][0])
            return v[1] if v[0] == 'addr' else ('deref', v)
        if k == 'idx':
            return self.cut(('idx', strip(self.val(F, fr, st, tmp, n['args'][0])), self.val(F, fr, st, tmp, n['args'][1])), fr, x)
        if k == 'un' and n['op'] in ('++', '--'):
            return self.loc(F, fr, st, tmp, n['args'][0])
        if k == 'asg': return self.loc(F, fr, st, tmp, n['args'][0])
        if k == 'cond':
            return self.val(F, fr, st, tmp, x)
        return self.val(F, fr, st, tmp, x)
    def base(self, F, fr, st, tmp, x):
        n = F.nodes[x]
        if n.get('k') in ('ref', 'mem', 'idx') or (n.get('k') == 'un' and n['op'] == '*'):
            l = self.loc(F, fr, st, tmp, x)
            return st.mem.get(l, l)
        return self.val(F, fr, st, tmp, x)
    def rd(self, st, l):
        if self.lv and self.rule.lv_over:
            v = self.rule.load_value(self, st, l)
            if v is not None: return v
        v = st.mem.get(l)
        if v is None:
            if self.lv:
                v = self.rule.load_value(self, st, l)
                if v is not None: return v
            return l
        if v[0] == 'ref': return self.rd(st, v[1])
        return v
    def val(self, F, fr, st, tmp, x):
        if x in tmp: return tmp[x]
        pt = st.mem.get(('t', fr, x))
        if pt is not None: return pt
        n = F.nodes[x]
        if 'c' in n:
            return ('c', n['c'])
        k = n.get('k')
        if k == 'ref':
            if 'v' in n: 
                l = self.lvar(F, fr, n)
                if n.get('d') == 'global':
                    g = self.P.globals.get(n['q'])
                    if g and 'const' in g['t']:
                        if 's' in g: return ('s', g['s'])
                        if 'c' in g: return ('c', g['c'])
                self.rule.on_load(self, st, l, n)
                return self.rd(st, l)
            if n.get('d') == 'func': return ('fn', n.get('u'), n.get('q'))
            return ('unk', fr, x)
        if k == 'mem':
            l = self.loc(F, fr, st, tmp, x)
            self.rule.on_load(self, st, l, n)
            return self.rd(st, l)
        if k == 'idx':
            l = self.loc(F, fr, st, tmp, x)
            self.rule.on_load(self, st, l, n)
            return self.rd(st, l)
        if k == 'this':
            return st.mem.get(('this', fr), ('this',))
        if k == 'str': return ('s', n['s'])
        if k == 'null': return C0
        if k == 'un':
            op = n['op']
            if op == '&':
                l = self.loc(F, fr, st, tmp, n['args'][0])
                return l[1] if l[0] == 'deref' else ('addr', l)
            if op == '*':
                l = self.loc(F, fr, st, tmp, x)
                return self.rd(st, l)
            a = self.val(F, fr, st, tmp, n['args'][0])
            if op == '!':
                return self.neg(st, a)
            if op in ('++', '--', 'p++', 'p--'): return a
            if op == '-' and a[0] == 'c': return ('c', -a[1])
            return self.cut(('un', op, a), fr, x)
        if k == 'bin':
            op = n['op']
            if op in ('&&', '||'):
                a = self.val(F, fr, st, tmp, n['args'][0])
                t = self.truth(st, a)
                if t is not None:
                    if (op == '&&') != t: return C1 if t else C0
                    return self.val(F, fr, st, tmp, n['args'][1])
                b = self.val(F, fr, st, tmp, n['args'][1])
                tb = self.truth(st, b)
                if tb is not None and (op == '&&') == tb: return a
                return self.cut(('bin', op, a, b), fr, x)
            if op == ',': return self.val(F, fr, st, tmp, n['args'][1])
            an, bn = (F.nodes[y] for y in n['args'])
            a = self.val(F, fr, st, tmp, n['args'][0]); b = self.val(F, fr, st, tmp, n['args'][1])
            if op in ('==', '!='):
                for p, q, qn in ((a, b, bn), (b, a, an)):
                    if qn.get('bl'):
                        return p if (q == C1) == (op == '==') else self.neg(st, p)
            return self.mkbin(st, op, a, b, fr, x)
        if k == 'cond':
            c_ = self.val(F, fr, st, tmp, n['args'][0])
            t = self.truth(st, c_)
            if t is None:
                a1, a2 = (self.val(F, fr, st, tmp, y) for y in n['args'][1:3])
                if (a1, a2) == (C1, C0) and F.nodes[n['args'][1]].get('bl'): return c_
                if (a1, a2) == (C0, C1) and F.nodes[n['args'][1]].get('bl'): return self.neg(st, c_)
                return ('unk', fr, x)
            return self.val(F, fr, st, tmp, n['args'][1 if t else 2])
        if k in ('ctor', 'ilist') and len(n['args']) == 1:
            return self.val(F, fr, st, tmp, n['args'][0])
        if k == 'ilist': return self.cut(('il',) + tuple(self.val(F, fr, st, tmp, y) for y in n['args']), fr, x)
        if k == 'sizeof': return ('unk', fr, x)
        if k == 'lambda':
            self.lam = getattr(self, 'lam', {})
            return ('lambda', n['u'], fr)
        if k == 'asg': return self.val(F, fr, st, tmp, n['args'][0])
        if k == 'call': return ('r', n.get('f', ''), fr, x)
        if k == 'new': return ('new', n['t'], fr, x)
        return ('unk', fr, x)
    def mkbin(self, st, op, a, b, fr=0, x=0):
        if op in ('==', '!='):
            if op == '!=':
                return self.neg(st, self.mkbin(st, '==', a, b, fr, x))
            for p, q in ((a, b), (b, a)):
                # map.find(k) == map.end()
                if p[0] == 'find' and q[0] == 'call' and q[1] in ('end', 'cend') and q[2] == p[1]:
                    return ('un', '!', ('has', p[1], p[2]))
                # compare()/strcmp() results
                if q == C0 and p[0] == 'cmp3': return self.mkbin(st, '==', p[1], p[2], fr, x)
                if q == C0 and p[0] == 'call' and p[1] in ('size', 'length') and len(p) == 3: return ('call', 'empty', p[2])
                if q == C0 and p[0] in ('has',): return ('un', '!', p)
                if q == C0 and ((p[0] == 'bin' and p[1] in ('==', '<', '&&', '||')) or (p[0] == 'un' and p[1] == '!')): return self.neg(st, p)
            if a[0] in 'cs' and len(a) == 2 and b[0] in 'cs' and len(b) == 2:
                return C1 if a == b else C0
                if p[0] == 'has' and q == C1: return p
            if a == b and a[0] not in ('unk',): return C1
            if self.const(a) or (not self.const(b) and repr(a) > repr(b)): a, b = b, a
            return self.cut(('bin', '==', a, b), fr, x)
        if op == '>': op, a, b = '<', b, a
        elif op == '>=': return self.neg(st, self.mkbin(st, '<', a, b, fr, x))
        elif op == '<=': return self.neg(st, self.mkbin(st, '<', b, a, fr, x))
        if a[0] == 'c' and b[0] == 'c':
            if op == '<': return C1 if a[1] < b[1] else C0
            if op == '+': return ('unk', fr, x) if abs(a[1] + b[1]) > self.rule.fold_const else ('c', a[1] + b[1])
        if op == '<' and a == C0 and b[0] == 'has': return b
        if op == '<' and a[0] == 'has' and b == C1: return ('un', '!', a)
        if op == '<' and a == C0 and b[0] == 'call' and b[1] in ('size', 'length') and len(b) == 3: return ('un', '!', ('call', 'empty', b[2]))
        if op == '<' and a[0] == 'call' and a[1] in ('size', 'length') and len(a) == 3 and b == C1: return ('call', 'empty', a[2])
        return self.cut(('bin', op, a, b), fr, x)
    def const(self, t): return t[0] in ('c', 's') and len(t) == 2
    def neg(self, st, a):
        if a[0] == 'c': return C0 if a[1] else C1
        if a[0] == 'un' and a[1] == '!': return a[2]
        return ('un', '!', a)
    # ---------- facts
    def truth(self, st, t):
        k = t[0]
        if k == 'c': return bool(t[1])
        if k == 's': return True
        if k in ('addr', 'new', 'fn', 'lambda'): return True
        if k == 'un' and t[1] == '!':
            r = self.truth(st, t[2]); return None if r is None else not r
        f = st.facts.get(t)
        if f is not None:
            if f[0] == 'eq': return bool(f[1]) if not isinstance(f[1], tuple) else (bool(f[1][1]) if f[1][0] == 'c' else True)
            if C0 in f[1]: return True
        if k == 'bin':
            if t[1] == '==':
                a, b = t[2], t[3]
                if self.const(b):
                    if self.const(a): return a == b
                    fa = st.facts.get(a)
                    if fa is not None:
                        if fa[0] == 'eq': return fa[1] == b
                        if b in fa[1]: return False
                    if b == C0:
                        r = self.truth(st, a)
                        if r is not None: return not r
                if a[0] in ('addr', 'new') and b == C0: return False
                if b[0] in ('addr', 'new') and a == C0: return False
                fa = st.facts.get(a); fb = st.facts.get(b)
                if fa and fb and fa[0] == 'eq' and fb[0] == 'eq': return fa[1] == fb[1]
            elif t[1] == '<':
                a = self.num(st, t[2]); b = self.num(st, t[3])
                if a is not None and b is not None: return a < b
            elif t[1] in ('&&', '||'):
                a = self.truth(st, t[2]); b = self.truth(st, t[3])
                if t[1] == '&&':
                    if a is False or b is False: return False
                    if a and b: return True
                else:
                    if a or b: return True
                    if a is False and b is False: return False
        if k == 'has' and t[1][0] == 'il' and all(x[0] in 'cs' for x in t[1][1:]):
            v = self.known(st, t[2])
            if v is not None: return v in t[1][1:]
            f = st.facts.get(t[2])
            if f and f[0] == 'ne' and all(x in f[1] for x in t[1][1:]): return False
        if k == 'call' and t[1] == 'empty':
            f = st.facts.get(t[2])
            if t[2][0] == 's': return t[2][1] == ''
            if t[2][0] == 'cat' and nonempty(t[2]): return False
            if f:
                if f[0] == 'eq' and f[1][0] == 's': return f[1][1] == ''
                if f[0] == 'ne' and ('s', '') in f[1]: return False
        return None
    def num(self, st, t):
        if t[0] == 'c': return t[1]
        f = st.facts.get(t)
        if f and f[0] == 'eq' and f[1][0] == 'c': return f[1][1]
        return None
    def assume(self, st, t, truth):
        """refines st in place; False when the assumption contradicts what is known"""
        cur = self.truth(st, t)
        if cur is not None: 
            if cur != truth: return False
            if t[0] != 'bin': return True
        if t[0] == 'un' and t[1] == '!': return self.assume(st, t[2], not truth)
        if t[0] == 'bin':
            if t[1] == '==':
                a, b = t[2], t[3]
                if self.const(b): return self.fact(st, a, b, truth)
            elif t[1] == '&&' and truth: return self.assume(st, t[2], True) and self.assume(st, t[3], True)
            elif t[1] == '||' and not truth: return self.assume(st, t[2], False) and self.assume(st, t[3], False)
        if t[0] == 'call' and t[1] == 'empty':
            self.fact(st, t[2], ('s', ''), truth)
        if t[0] in ('c', 's'): return bool(cur) == truth
        if truth: return self.fact(st, t, C0, False)
        return self.fact(st, t, C0, True)
    def fact(self, st, t, c, eq):
        f = st.facts.get(t)
        if self.const(t): return (t == c) == eq
        if t[0] in ('addr', 'new') and c == C0: return not eq
        if f is not None:
            if f[0] == 'eq':
                return (f[1] == c) == eq
            if eq:
                if c in f[1]: return False
            else:
                st.facts[t] = ('ne', f[1] | {c}); return True
        st.facts[t] = ('eq', c) if eq else ('ne', frozenset([c]))
        if t[0] == 'bin' and c == C0:
            if t[1] in ('<', '&&', '||', '=='): 
                pass
        return True
    def known(self, st, t):
        """('eq', const) when the value of t is known"""
        if self.const(t): return t
        f = st.facts.get(t)
        if f and f[0] == 'eq': return f[1]
        return None
    # ---------- memory writes
    def kill(self, st, l):
        """facts and memory below l are stale"""
        for k in [k for k in st.facts if contains(k, l)]: del st.facts[k]
        for k in [k for k in st.mem if k != l and k[0] in ('f', 'idx', 'deref') and contains(k, l)]: del st.mem[k]
    def store(self, F, fr, st, l, v, n=None):
        if l[0] in ('loc',) and st.mem.get(l) is None and not st.facts:
            pass
        else:
            vv = st.mem.get(l)
            if vv != v: 
                # facts are about value terms: only those naming this location as a value become stale
                self.kill(st, l)
        if l[0] == 'idx' and l[2][0] != 'c':
            # the element at an unknown place: what is known of the others may have changed
            for k in [k for k in st.mem if k[0] == 'idx' and k[1] == l[1] and k != l]: del st.mem[k]
        st.mem[l] = self.cut(v, fr, 0) if v != l else v
        if v == l: st.mem.pop(l, None)
    def havoc_fields(self, st, qs, site):
        if not qs: return
        for k in [k for k in st.facts if any(f in qs for f in fields(k)) or any(self.hasg(k, q) for q in qs)]: del st.facts[k]
        for k in [k for k in st.mem if (k[0] == 'f' and k[2] in qs) or (k[0] == 'g' and k[1] in qs)]: st.mem[k] = ('unk',) + site
    def hasg(self, t, q):
        if isinstance(t, tuple) and t:
            if t[0] == 'g' and t[1] == q: return True
            return any(isinstance(x, tuple) and self.hasg(x, q) for x in t)
        return False
    # ---------- element transfer
    def out(self, F, fr, st, tmp, x, v):
        tmp = dict(tmp); tmp[x] = v
        if x in self.info(F)['cross']: st.mem[('t', fr, x)] = v
        return st, tmp
    def trivial(self, F):
        """(node, ...) when F is `return <pure expression>`"""
        r = self._triv.get(F.u)
        if r is None:
            r = False
            rets = [i for i, n in enumerate(F.nodes) if n and n.get('k') == 'ret' and n['args']]
            if len(rets) == 1 and not any(n and n.get('k') in ('asg', 'decl', 'new', 'delete', 'throw', 'lambda', 'other') for n in F.nodes) and len(F.blocks) == 3:
                if not any(n and n.get('k') == 'call' and n.get('u') in self.P.fns for n in F.nodes) and not any(n and n.get('k') == 'un' and '++' in n['op'] or n and n.get('k') == 'un' and '--' in n['op'] for n in F.nodes):
                    r = F.nodes[rets[0]]['args'][0]
                    r = (r,)
            self._triv[F.u] = r
        return r
    def elem(self, F, fr, st, tmp, e):
        """-> list of (state, tmp); exceptional outcomes are appended to self.thrown"""
        R = self.rule
        if isinstance(e, dict):
            if e['k'] == 'init':
                if e['x'] < 0: return [(st, tmp)]
                v = self.val(F, fr, st, tmp, e['x'])
                st = st.copy()
                l = ('f', strip(st.mem.get(('this', fr), ('this',))), e['q'])
                if e['q']:
                    ts = R.on_store(self, st, l, v, dict(e, l=F.line, k='asg'))
                    if ts is not None: st.ts = ts
                    st.mem[l] = v
                return [(st, tmp)]
            return self.dtor(F, fr, st, tmp, e)
        n = F.nodes[e]; k = n.get('k')
        if k in ('call', 'ctor', 'new'):
            if e in tmp: return [(st, tmp)]
            return self.call(F, fr, st, tmp, e, n)
        if k == 'decl':
            st = st.copy()
            for v in n['vars']:
                l = ('loc', fr, v['v'], v['n'])
                if v.get('st'): l = ('g', v['n'])
                if v['e'] < 0:
                    st.mem.pop(l, None); self.kill(st, l)
                    continue
                if v.get('ref'):
                    t = self.loc(F, fr, st, tmp, v['e'])
                    st.mem[l] = ('ref', t)
                    continue
                en = F.nodes[v['e']]
                if en.get('k') == 'ctor' and v['e'] not in tmp: val = l
                else: val = self.val(F, fr, st, tmp, v['e'])
                if en.get('k') == 'ctor' and val == ('obj', fr, v['e']):
                    # the constructor ran on a placeholder: rename it to the variable
                    o = ('obj', fr, v['e'])
                    if any(contains(m, o) for m in st.mem) or any(contains(m, o) for m in st.mem.values()) or any(contains(m, o) for m in st.facts):
                        st.mem = {self.sub(a, o, l): self.sub(b, o, l) for a, b in st.mem.items()}
                        st.facts = {self.sub(a, o, l): b for a, b in st.facts.items()}
                    st.ts = R.rename(st.ts, o, l) if hasattr(R, 'rename') else st.ts
                    self.kill(st, l) if False else None
                    st.mem.pop(l, None)
                    continue
                if v.get('st'): 
                    st.mem.pop(l, None)
                    if val[0] == 'il' and all(y[0] in 'cs' for y in val[1:]) and 'const' in v.get('t', ''): st.mem[l] = val
                    continue
                if R.wants(F, n):
                    ts = R.on_store(self, st, l, val, n)
                    if ts is not None: st.ts = ts
                self.store(F, fr, st, l, val)
            return [(st, tmp)]
        if k == 'asg':
            l = self.loc(F, fr, st, tmp, n['args'][0])
            v = self.val(F, fr, st, tmp, n['args'][1])
            st = st.copy()
            if n['op'] != '=':
                cur = self.rd(st, l)
                op = n['op'][:-1]
                if self.rule.fold_inc and op in ('+', '-') and cur[0] == 'c' and v[0] == 'c': v = ('c', cur[1] + v[1] if op == '+' else cur[1] - v[1])
                elif self.rule.fold_sym and op in ('+', '-') and depth(cur) < self.rule.fold_depth and not (cur[0] == 'c' and isinstance(cur[1], int) and abs(cur[1]) >= 8): v = self.mkbin(st, op, cur, v, fr, e)
                elif op in ('|', '&') and self.truth(st, v) is not None and n['t'] == 'bool':
                    v = v if (op == '|') == self.truth(st, v) else cur
                else:
                    v = ('upd', op, v) if depth(v) < 3 else ('unk', fr, e)
            ts = R.on_store(self, st, l, v, n)
            if ts is not None: st.ts = ts
            if v[0] == 'upd': v = ('unk', fr, e)
            self.store(F, fr, st, l, v)
            if l[0] == 'idx' and F.nodes[n['args'][0]].get('t') in ('char', 'unsigned char'): st.mem.pop(l, None)     # bytes of a buffer decide nothing
            return [self.out(F, fr, st, tmp, e, v)] if e in self.info(F)['cross'] else [(st, tmp)]
        if k == 'un' and n['op'] in ('++', '--', 'p++', 'p--'):
            l = self.loc(F, fr, st, tmp, n['args'][0])
            old = self.rd(st, l)
            st = st.copy()
            ts = R.on_store(self, st, l, ('upd', n['op'], C1), n)
            if ts is not None: st.ts = ts
            v = ('unk', fr, e)
            if self.rule.fold_inc and old[0] == 'c' and isinstance(old[1], int): v = ('c', old[1] + (1 if '+' in n['op'] else -1))
            elif self.rule.fold_sym and depth(old) < self.rule.fold_depth and not (old[0] == 'c' and isinstance(old[1], int) and abs(old[1]) >= 8): v = self.mkbin(st, '+' if '+' in n['op'] else '-', old, C1, fr, e)
            if v[0] == 'unk': self.kill(st, v)
            self.store(F, fr, st, l, v)
            return [self.out(F, fr, st, tmp, e, old if n['op'][0] == 'p' else v)]
        if k == 'ret':
            st = st.copy()
            st.mem[('ret', fr)] = self.val(F, fr, st, tmp, n['args'][0]) if n['args'] else ('void',)
            if n['args']:
                an = F.nodes[n['args'][0]]
                if F.rt.endswith('&'):
                    st.mem[('ret', fr)] = self.loc(F, fr, st, tmp, n['args'][0])
            return [(st, tmp)]
        if k == 'throw':
            ty = sorted(self.P.rethrown(F)) if not n.get('t') and self.rule.exc else [n.get('t', '')]
            for y in ty: self.thrown.append((st if len(ty) == 1 else st.copy(), y, n.get('try', -1), n.get('l')))
            if R.wants(F, n):
                R.on_call(self, st, self.mkcall(F, fr, st, tmp, e, n))
            return []
        if k == 'delete':
            c = self.mkcall(F, fr, st, tmp, e, n)
            r = R.on_call(self, st, c)
            if r is not None: return self.apply(F, fr, st, tmp, e, r)
            return [(st, tmp)]
        if e in self.info(F)['cross']:
            st = st.copy()
            if e not in tmp: st.mem.pop(('t', fr, e), None)      # the value of an earlier iteration is not the value of this one
            st.mem[('t', fr, e)] = self.val(F, fr, st, tmp, e)
            return [(st, tmp)]
        if k in ('ref', 'mem', 'idx') and R.wants(F, n):
            self.val(F, fr, st, tmp, e)
        return [(st, tmp)]
    def sub(self, t, a, b):
        if t == a: return b
        if isinstance(t, tuple): return tuple(self.sub(x, a, b) if isinstance(x, tuple) else x for x in t)
        return t
    def home(self, F):
        """the function of the original program being worked on: the nearest caller that is not a helper extracted since"""
        if not F.new: return F
        for u in reversed(self.curstack):
            if not self.P.fns[u].new: return self.P.fns[u]
        return F
    def mkcall(self, F, fr, st, tmp, x, n):
        c = Call(); c.F = F; c.H = self.home(F); c.n = n; c.nid = x; c.frame = fr; c.k = n['k']; c.f = n.get('f', ''); c.type = n.get('t', '')
        if 'o' in n:
            o = self.loc(F, fr, st, tmp, n['o']) if F.nodes[n['o']].get('k') in ('ref', 'mem', 'idx', 'un') else self.val(F, fr, st, tmp, n['o'])
            o = st.mem.get(o, o) if o[0] != 't' else o
            c.obj = strip(o)
        else: c.obj = None
        c.args = [self.argval(F, fr, st, tmp, a) for a in n.get('args', [])]
        return c
    def argval(self, F, fr, st, tmp, a):
        return self.val(F, fr, st, tmp, a)
    def apply(self, F, fr, st, tmp, x, outs):
        res = []
        for o in outs:
            v, ts = o[0], o[1]
            s = st.copy(); s.ts = ts
            if v is None: v = ('r', F.nodes[x].get('f', ''), fr, x)
            self.kill(s, ('r', F.nodes[x].get('f', ''), fr, x))
            ok = True
            if len(o) > 2:
                for t, tr in o[2]:
                    if t == 'set': s.mem[tr[0]] = tr[1]
                    elif not self.assume(s, t, tr): ok = False; break
            if ok: res.append(self.out(F, fr, s, tmp, x, v))
        self.stat['events'] += 1
        return res
    def lval_arg(self, F, a):
        n = F.nodes[a]
        return n.get('k') in ('ref', 'mem', 'idx') or (n.get('k') == 'un' and n['op'] == '*') or (n.get('k') == 'call' and n.get('lv'))
    def call(self, F, fr, st, tmp, x, n):
        R = self.rule
        self.stat['calls'] += 1
        c = self.mkcall(F, fr, st, tmp, x, n)
        r = R.on_call(self, st, c)
        if r is not None: return self.apply(F, fr, st, tmp, x, r)
        u = n.get('u')
        name = c.f.split('::')[-1] if c.f else ''
        # calls through a lambda / function value
        if n['k'] == 'call' and not u and 'fn' in n:
            fv = self.val(F, fr, st, tmp, n['fn'])
            if fv[0] == 'fn': u = fv[1]
        G = self.P.fns.get(u)
        targets = [G] if G else []
        if n.get('virt'): targets += [o for o in self.P.over.get(u, [])]
        targets = [g for g in targets if g and (g.u in self.interesting and (g.new or not R.no_inline(g, st)) or g.new and x in self.info(F)['vinl'])]
        if targets and (self.curdepth < R.depth or all(g.new for g in targets)) and not any(g.u in self.curstack for g in targets):
            res = []
            for g in targets: res += self.inline(F, fr, st, tmp, x, n, c, g)
            if G and G not in targets: 
                res += self.opaque(F, fr, st, tmp, x, n, c, G, name)
            return res
        if G:
            t = self.trivial(G)
            if t:
                nf = self.frame(fr, (F.u, x))
                s2 = State(dict(st.mem), st.facts, st.ts)
                self.bind(F, fr, st, tmp, n, c, G, nf, s2)
                v = self.loc(G, nf, s2, {}, t[0]) if G.rt.endswith('&') else self.val(G, nf, s2, {}, t[0])
                if not any(isinstance(y, tuple) and y[:2] == ('loc', nf) for y in subterms(v, set())):
                    st = st.copy()
                    return [self.out(F, fr, st, tmp, x, v)]
        return self.opaque(F, fr, st, tmp, x, n, c, G, name)
    def captured(self, G):
        """the variables of the enclosing functions a new lambda works on"""
        if not G.q.endswith('(anonymous class)::operator()'): return set()
        r = self._capt.get(G.u)
        if r is None:
            r = self._capt[G.u] = set()
            for H in self.P.flat(G):
                own = set(p['v'] for p in H.params)
                for n in H.nodes:
                    if n and n.get('k') == 'decl': own |= set(v['v'] for v in n['vars'])
                r |= {n['v'] for n in H.nodes if n and n.get('k') == 'ref' and 'v' in n and n.get('d') not in ('global', 'slocal')} - own
        return r
    def bind(self, F, fr, st, tmp, n, c, G, nf, s2):
        args = n.get('args', [])
        if c.obj is not None:
            s2.mem[('this', nf)] = c.obj
            if G.q.endswith('(anonymous class)::operator()'):
                # inside a lambda: captured variables, and the object captured as this, are those of the frame it was made in
                lf = c.obj[2] if c.obj[0] == 'lambda' else fr
                self.lamframe[nf] = lf
                s2.mem[('this', nf)] = st.mem.get(('this', lf), ('this',))
        if n['k'] in ('ctor', 'new'):
            s2.mem[('this', nf)] = ('obj', fr, c.nid) if n['k'] == 'ctor' else ('new', n['t'], fr, c.nid)
        for i, p in enumerate(G.params):
            l = ('loc', nf, p['v'], p['n'])
            if i >= len(args):
                s2.mem.pop(l, None); continue
            if p.get('ref') and self.lval_arg(F, args[i]):
                s2.mem[l] = ('ref', self.loc(F, fr, st, tmp, args[i]))
            else:
                s2.mem[l] = c.args[i]
    def inline(self, F, fr, st, tmp, x, n, c, G):
        nf = self.frame(fr, (F.u, x, G.u))
        s2 = st.copy()
        # values from an earlier execution of this call site are stale
        self.bind(F, fr, st, tmp, n, c, G, nf, s2)
        key = (G.u, nf, s2.key(), self.curdepth, self.outer)
        if key in self.memo:
            outs = self.memo[key]
        else:
            saved = self.thrown, self.curdepth, self.outer
            self.thrown = []
            if not G.new: self.curdepth += 1
            self.curstack.append(G.u)
            outs = self.explore(G, nf, s2)
            self.curstack.pop()
            self.thrown, self.curdepth, self.outer = saved
            self.memo[key] = outs
        res = []
        for (s3, rv, kind) in outs:
            s3 = s3.copy()
            s3.tr = (s3.tr, None) if False else s3.tr
            for k in [k for k in s3.mem if len(k) > 1 and k[1] == nf and k[0] in ('loc', 'this', 't', 'ret', 'raii')]: del s3.mem[k]
            s3 = self.prune_ret(s3, fr, rv)
            if self.rule.summarise(G):
                s3.facts = {k: v for k, v in s3.facts.items() if k in st.facts or (isinstance(rv, tuple) and contains(k, rv))}
                s3.mem = {k: v for k, v in s3.mem.items() if k in st.mem or k[0] in ('t', 'loc')}
            if kind != 'ret':
                if R_exc(self.rule): self.thrown.append((s3, kind, n.get('try', -1), n.get('l')))
                continue
            v = rv
            if n['k'] == 'ctor': v = ('obj', fr, x)
            elif n['k'] == 'new': v = ('new', n['t'], fr, x)
            elif v is None or v == ('void',): v = ('r', c.f, fr, x) if v is None else ('void',)
            res.append(self.out(F, fr, s3, tmp, x, v))
        # dedupe
        seen = {}; 
        for s, t in res:
            k = (s.key(), t.get(x))
            if k not in seen: seen[k] = (s, t)
        return list(seen.values())
    def opaque(self, F, fr, st, tmp, x, n, c, G, name):
        """std models, then havoc"""
        st = st.copy()
        a = c.args; o = c.obj; f = c.f
        rterm = ('r', f or 'indirect', fr, x)
        if n['k'] == 'new':
            v = ('new', n['t'], fr, x); self.kill(st, v)
            return [self.out(F, fr, st, tmp, x, v)]
        op = n.get('op')
        std = f.startswith('std::') or f.startswith('__gnu_cxx::') or not f or G is None
        if f in STD_THROW and R_exc(self.rule):
            self.thrown.append((st.copy(), 'std::exception', n.get('try', -1), n.get('l')))
        t = n.get('t', '')
        if n['k'] == 'ctor':
            if is_str(t):
                na = [y for y in n['args'] if not F.nodes[y].get('t', '').startswith('std::allocator') and 'allocator' not in F.nodes[y].get('f', '')]
                if len(na) == 0: return [self.out(F, fr, st, tmp, x, ('s', ''))]
                if len(na) == 1: return [self.out(F, fr, st, tmp, x, self.val(F, fr, st, tmp, na[0]))]
                return [self.out(F, fr, st, tmp, x, ('unk', fr, x))]
            if t.startswith('std::pair<') and len(a) == 2: return [self.out(F, fr, st, tmp, x, self.cut(('pair', a[0], a[1]), fr, x))]
            if len(a) >= 1 and a[0][0] == 'il' and std and re.match(r'(const )?std::(unordered_set|set|vector|unordered_multiset|multiset|list)<', t):
                return [self.out(F, fr, st, tmp, x, a[0])]
            if is_sptr(t):
                if not a: return [self.out(F, fr, st, tmp, x, C0)]
                return [self.out(F, fr, st, tmp, x, a[0])]
            if len(a) == 1 and ('iterator' in t): return [self.out(F, fr, st, tmp, x, a[0])]
            v = ('obj', fr, x); self.kill(st, v)
            self.havoc_args(F, fr, st, tmp, n, x)
            if G: self.havoc_fields(st, self.P.modsets[G.u], (fr, x))
            return [self.out(F, fr, st, tmp, x, v)]
        if std and op:
            if op in ('==', '!=', '<', '>', '<=', '>='):
                xs = ([o] if 'o' in n else []) + a
                if len(xs) == 2: return [self.out(F, fr, st, tmp, x, self.mkbin(st, op, xs[0], xs[1], fr, x))]
            if op == '[]' and o is not None:
                return [self.out(F, fr, st, tmp, x, self.cut(('idx', o, a[0]), fr, x))]
            if op == '->' and o is not None: return [self.out(F, fr, st, tmp, x, o)]
            if op == '*' and o is not None and not a: return [self.out(F, fr, st, tmp, x, ('deref', o))]
            if op == '=' and 'o' in n:
                l = self.loc(F, fr, st, tmp, n['o'])
                ts = self.rule.on_store(self, st, l, a[0], n)
                if ts is not None: st.ts = ts
                v = a[0]
                if not (is_str(t) or is_sptr(t) or 'iterator' in t or 'pair<' in t):
                    v = a[0] if a[0][0] in ('c', 's') else ('unk', fr, x)
                self.store(F, fr, st, l, v)
                return [self.out(F, fr, st, tmp, x, v)]
            if op == '<<' and self.rule.catw and 'basic_ostream' in F.nodes[x].get('t', ''):
                xs = ([o] if 'o' in n else []) + a
                if len(xs) == 2:
                    b = strip(xs[0]); l = ('f', b, '#buf')
                    st.mem[l] = self.mkcat([st.mem.get(l, ('s', '')), xs[1]], fr, x)
                    return [self.out(F, fr, st, tmp, x, b)]
            if op in ('+=', '++', '--'):
                if 'o' in n and op == '+=' and self.rule.catw and is_str(t):
                    l = self.loc(F, fr, st, tmp, n['o'])
                    v = self.mkcat([self.rd(st, l), a[0]], fr, x)
                    ts = self.rule.on_store(self, st, l, v, n)
                    if ts is not None: st.ts = ts
                    self.store(F, fr, st, l, v)
                    return [self.out(F, fr, st, tmp, x, v)]
                if 'o' in n:
                    l = self.loc(F, fr, st, tmp, n['o'])
                    ts = self.rule.on_store(self, st, l, ('upd', op, a[0] if a else C1), n)
                    if ts is not None: st.ts = ts
                    self.store(F, fr, st, l, ('unk', fr, x))
                return [self.out(F, fr, st, tmp, x, ('unk', fr, x))]
            if op == '+':
                xs = ([o] if 'o' in n else []) + a
                if is_str(t): return [self.out(F, fr, st, tmp, x, self.mkcat(xs, fr, x))]
        if std and o is not None:
            if name == 'empty' and not a: return [self.out(F, fr, st, tmp, x, (C1 if o[1] == '' else C0) if o[0] == 's' else ('call', 'empty', o))]
            if name == 'compare' and len(a) == 1: return [self.out(F, fr, st, tmp, x, self.cut(('cmp3', o, a[0]), fr, x))]
            if name == 'find' and len(a) == 1 and not is_str(F.nodes[n['o']].get('t', '')): return [self.out(F, fr, st, tmp, x, self.cut(('find', o, a[0]), fr, x))]
            if name == 'find' and is_str(F.nodes[n['o']].get('t', '')): return [self.out(F, fr, st, tmp, x, self.cut(('call', 'strfind', o) + tuple(a), fr, x))]
            if name == 'count' and len(a) == 1: return [self.out(F, fr, st, tmp, x, self.cut(('has', o, a[0]), fr, x))]
            if name == 'at' and len(a) == 1: return [self.out(F, fr, st, tmp, x, self.cut(('idx', o, a[0]), fr, x))]
            if name == 'c_str' or name == 'get' and not a: return [self.out(F, fr, st, tmp, x, o)]
            if name == 'append' and len(a) == 1 and self.rule.catw and is_str(t):
                l = self.loc(F, fr, st, tmp, n['o']); v = self.mkcat([self.rd(st, l), a[0]], fr, x)
                self.store(F, fr, st, l, v)
                return [self.out(F, fr, st, tmp, x, v)]
            if name == 'str' and not a and self.rule.catw:
                l = ('f', strip(o), '#buf')
                if l in st.mem: return [self.out(F, fr, st, tmp, x, st.mem[l])]
            if name == 'load' and 'atomic' in f: return [self.out(F, fr, st, tmp, x, o)]
            if name.startswith('operator ') and not a: return [self.out(F, fr, st, tmp, x, o)]
            if name in CONTAINER_PURE or n.get('cm'):
                return [self.out(F, fr, st, tmp, x, self.cut(('call', name, o) + tuple(a), fr, x))]
        if std:
            if name in ('move', 'forward', 'ref', 'cref', 'addressof', '__addressof') and len(a) == 1: return [self.out(F, fr, st, tmp, x, a[0])]
            if name == 'make_pair' and len(a) == 2: return [self.out(F, fr, st, tmp, x, self.cut(('pair', a[0], a[1]), fr, x))]
            if name == 'make_shared': 
                v = ('new', t, fr, x); self.kill(st, v)
                return [self.out(F, fr, st, tmp, x, v)]
            if name in ('strcmp', 'strcasecmp') and len(a) == 2: return [self.out(F, fr, st, tmp, x, self.cut(('cmp3', a[0], a[1]), fr, x))]
            if name == 'find' and len(a) == 3 and a[0][0] == 'call' and a[0][1] == 'begin': return [self.out(F, fr, st, tmp, x, self.cut(('find', a[0][2], a[2]), fr, x))]
            if name == 'to_string' and len(a) == 1: return [self.out(F, fr, st, tmp, x, self.cut(('call', 'to_string', a[0]), fr, x))]
        # havoc
        self.kill(st, rterm)
        if o is not None and not n.get('cm') and 'o' in n:
            on = F.nodes[n['o']]
            if on.get('k') in ('ref', 'mem', 'idx') or (on.get('k') == 'un' and on['op'] == '*'):
                l = self.loc(F, fr, st, tmp, n['o'])
                if G is None:
                    if is_str(on.get('t', '')): self.store(F, fr, st, l, ('unk', fr, x))
                    elif l[0] != 'g' or True:
                        if not on.get('t', '').endswith('*'): self.kill(st, l)
            elif G is None: self.kill(st, o)
        self.havoc_args(F, fr, st, tmp, n, x)
        if G is not None:
            m = self.P.modsets[G.u]
            if n.get('virt'):
                m = set(m)
                for g in self.P.over.get(G.u, []): m |= self.P.modsets[g.u]
            self.havoc_fields(st, m, (fr, x))
            if R_exc(self.rule) and G.u in self.P.throwers and self.rule.opaque_throws(G):
                ty = set(self.P.escapes[G.u])
                if n.get('virt'):
                    for g in self.P.over.get(G.u, []): ty |= self.P.escapes[g.u]
                for y in sorted(ty): self.thrown.append((st.copy(), y, n.get('try', -1), n.get('l')))
        v = rterm
        return [self.out(F, fr, st, tmp, x, v)]
    def havoc_args(self, F, fr, st, tmp, n, x):
        args = n.get('args', [])
        pm = n.get('pm', '')
        if 'o' in n and n.get('op') and len(pm) == len(args) + 1: pm = pm[1:]
        for i, a in enumerate(args):
            an = F.nodes[a]
            if i < len(pm) and pm[i] == 'r' and self.lval_arg(F, a):
                l = self.loc(F, fr, st, tmp, a)
                if l[0] in ('loc', 'f', 'g', 'idx', 'deref'):
                    if is_objtype(an.get('t', '')): self.kill(st, l); st.mem.pop(l, None) if is_str(an.get('t', '')) else None; 
                    if not is_objtype(an.get('t', '')) or is_str(an.get('t', '')): self.store(F, fr, st, l, ('out', fr, x, i)); self.kill(st, ('out', fr, x, i))
            elif i < len(pm) and pm[i] == 'p' and an.get('k') == 'un' and an['op'] == '&':
                l = self.loc(F, fr, st, tmp, an['args'][0])
                bn = F.nodes[an['args'][0]]
                self.kill(st, l)
                if not is_objtype(bn.get('t', '')) and l[0] in ('loc', 'f', 'g', 'idx', 'deref'):
                    self.store(F, fr, st, l, ('out', fr, x, i)); self.kill(st, ('out', fr, x, i))
    def dtor(self, F, fr, st, tmp, e):
        R = self.rule
        l = ('loc', fr, e['v'], e['n'])
        v = self.rd(st, l)
        c = Call(); c.F = F; c.H = self.home(F); c.n = e; c.nid = -1; c.frame = fr; c.k = 'dtor'; c.f = e['t']; c.obj = l; c.args = [v]; c.type = e['t']
        r = R.on_call(self, st, c)
        if r is not None:
            res = []
            for o in r:
                s = st.copy(); s.ts = o[1]; res.append((s, tmp))
            self.stat['events'] += 1
            return res
        G = self.P.fns.get(e.get('u'))
        if G and G.u in self.interesting and self.curdepth < R.depth and G.u not in self.curstack:
            n = dict(k='call', args=[], l=e['l'], f=G.q, u=G.u)
            cc = Call(); cc.F = F; cc.n = n; cc.nid = -e['v']; cc.frame = fr; cc.k = 'call'; cc.f = G.q; cc.obj = v; cc.args = []; cc.type = ''
            return [(s, tmp) for s, _ in self.inline(F, fr, st, tmp, -1000000 - e['v'], n, cc, G)]
        return [(st, tmp)]
    # ---------- exploration
    def prune(self, F, fr, bid, st, outer):
        i = self.info(F)
        rel = i['rel'][bid]; trel = i['trel'][bid]
        mem = {}
        orel = outer
        for k, v in st.mem.items():
            if k[0] == 'loc':
                if k[1] == fr and k[2] not in rel and not (self.lamcap(F, fr)): continue
            elif k[0] == 't':
                if k[1] == fr and k[2] not in trel: continue
            elif k[0] in ('f', 'idx', 'deref'):
                q = heapfield(k)
                if q is not None and q not in rel and q not in orel: continue
            elif k[0] == 'g':
                if 'g:' + k[1] not in rel and 'g:' + k[1] not in orel: continue
            mem[k] = v
        if st.facts:
            live = set()
            for k, v in mem.items():
                if k[0] in ('loc', 't', 'ret', 'this', 'g', 'f', 'idx', 'deref'):
                    subterms(v, live); live.add(k)
            facts = {}
            for t, f in st.facts.items():
                if self.livefact(t, live, rel, orel, fr): facts[t] = f
        else: facts = {}
        return State(mem, facts, self.rule.prune_ts(F, bid, st.ts), st.tr)
    def prune_ret(self, st, fr, rv):
        orel = self.outer
        mem = {}
        for k, v in st.mem.items():
            if k[0] in ('f', 'idx', 'deref'):
                q = heapfield(k)
                if q is not None and q not in orel: continue
            elif k[0] == 'g' and 'g:' + k[1] not in orel: continue
            mem[k] = v
        facts = st.facts
        if facts:
            live = set()
            for k, v in mem.items():
                subterms(v, live); live.add(k)
            if rv: subterms(rv, live)
            facts = {t: f for t, f in facts.items() if self.livefact(t, live, ALLV, orel, None)}
        return State(mem, facts, st.ts, st.tr)
    def lamcap(self, F, fr): return False
    def livefact(self, t, live, rel, orel, fr):
        k = t[0]
        if k in ('c', 's', 'void', 'fn', 'this'): return True
        if k == 'loc':
            if t[1] == fr: return t[2] in rel or t in live
            return True
        if k in ('r', 'unk', 'out', 'arg', 'new', 'obj', 'gone'): return t in live
        if k == 'g': return 'g:' + t[1] in rel or 'g:' + t[1] in orel
        if k == 'f':
            if not (t[2] in rel or t[2] in orel or t in live): return False
            return self.livefact(t[1], live, rel, orel, fr)
        if k == 'call' and t[1] in ('begin', 'end', 'cbegin', 'cend') and not self.rule.keep_end: return t in live
        if k == 'cat': return t in live
        if k in ('find', 'has', 'call', 'bin', 'un', 'idx', 'deref', 'addr', 'pair', 'cmp3', 'il'):
            return all(self.livefact(x, live, rel, orel, fr) for x in t if isinstance(x, tuple))
        return t in live
    def explore(self, F, fr, st0, outer=None):
        """-> list of (state, retval, 'ret' | thrown type)"""
        R = self.rule
        self.stat['functions'].add(F.u)
        i = self.info(F)
        outer = self.outer
        self_rel = i['rel']
        visited = {}
        capd = {}
        work = []
        exits = {}
        def push(bid, st):
            st = self.prune(F, fr, bid, st, outer)
            k = st.key()
            vs = visited.setdefault(bid, {})
            if k in vs: return
            if len(vs) > self.cap:
                if getattr(self, 'debugcap', False):
                    self.debugcap = False; dump_states(F, bid, [k for k in vs][:400])
                # join with the states that share the typestate
                j = capd.setdefault(bid, {})
                old = j.get(st.ts)
                if old is not None:
                    m = {a: (b if old.mem.get(a) == b else (b if a[0] == 'this' or b[0] == 'ref' else ('unk', fr, 'join'))) for a, b in st.mem.items() if a in old.mem}
                    fa = {a: b for a, b in st.facts.items() if old.facts.get(a) == b}
                    st = State(m, fa, st.ts, st.tr)
                    if st.key() == old.key(): return
                else:
                    st = State({a: b for a, b in st.mem.items()}, dict(st.facts), st.ts, st.tr)
                j[st.ts] = st
                self.stat['joined'] = self.stat.get('joined', 0) + 1
                if self.stat['joined'] > 200000: raise TooBig('%s: state space' % F.q)
            vs[k] = 1
            self.stat['states'] += 1
            work.append((bid, st))
        def finish(st, kind):
            if kind == 'ret':
                rv = st.mem.get(('ret', fr))
                st = st.copy(); st.mem.pop(('ret', fr), None)
            else: rv = None
            ts = R.on_ret(self, st, F, rv, kind)
            if ts is not None:
                st = st.copy(); st.ts = ts
            for k in [k for k in st.mem if k[0] in ('loc', 't') and k[1] == fr]: 
                if k[0] == 't' : del st.mem[k]
            # forget facts on this frame's results unless they escape
            k = (st.key(), rv, kind)
            if k not in exits: exits[k] = (st, rv, kind); self.stat['exits'] += 1
        def throw(st, typ, tryid, line):
            """route an exception to the handlers around it"""
            t = tryid
            while t >= 0:
                T = F.d['trys'][t]
                caught = False
                for (ht, hb) in T['h']:
                    if hb < 0: continue
                    if ht == '...' or typ == '?' or self.match(ht, typ):
                        s = self.unwind(F, fr, st, t)
                        s.tr = (s.tr, 'exception caught, line %s' % line)
                        push(hb, s)
                        if ht == '...' or typ != '?': caught = True; break
                if caught: return
                t = T['p']
            finish(self.unwind(F, fr, st, -1), ('throw', typ))
        push(F.entry, st0)
        nsteps = 0
        while work:
            bid, st = work.pop()
            b = F.blocks[bid]
            self.stat['blocks'] += 1
            nsteps += 1
            if nsteps > 400000: raise TooBig('%s: too many abstract steps' % F.q)
            cur = [(st, {})]
            self.outer = outer | frozenset(x for x in self_rel[bid] if isinstance(x, str))
            for e in b['e']:
                nxt = []
                for s, tmp in cur:
                    sv = self.thrown; self.thrown = []
                    nxt += self.elem(F, fr, s, tmp, e)
                    th = self.thrown; self.thrown = sv
                    for (s2, typ, tr, ln) in th:
                        if isinstance(typ, tuple): typ = typ[1]
                        throw(s2, typ, tr, ln)
                if len(nxt) > 1:
                    d = {}
                    for s, tmp in nxt:
                        k = (s.key(), frozenset(tmp.items()))
                        if k not in d: d[k] = (s, tmp)
                    nxt = list(d.values())
                cur = nxt
                if not cur: break
            self.outer = outer
            if not cur: continue
            if bid == F.exit:
                for s, tmp in cur: finish(s, 'ret')
                continue
            if b.get('nr'):
                for s, tmp in cur:
                    R.on_ret(self, s, F, None, 'noreturn')
                continue
            succ = b['s']
            for s, tmp in cur:
                if b.get('tk') == 'SwitchStmt' and 'tc' in b:
                    v = self.val(F, fr, s, tmp, b['tc'])
                    if bid not in i['relterm'] and self.known(s, v) is None:
                        for y in succ:
                            if y >= 0: push(y, s)
                        continue
                    vals = []
                    for y in succ:
                        if y >= 0 and 'case' in F.blocks[y] and F.blocks[y]['case']: vals.append(F.blocks[y]['case'][0])
                    for y in succ:
                        if y < 0: continue
                        s2 = s.copy()
                        if 'case' in F.blocks[y] and F.blocks[y]['case']:
                            if not self.assume(s2, self.mkbin(s2, '==', v, ('c', F.blocks[y]['case'][0])), True): continue
                            s2.tr = (s2.tr, 'case %s (line %s)' % (F.blocks[y]['case'][0], b.get('tl')))
                        else:
                            if not all(self.assume(s2, self.mkbin(s2, '==', v, ('c', z)), False) for z in vals): continue
                        push(y, s2)
                    continue
                if b.get('tk') == 'CXXTryStmt': continue
                if 'tc' in b and len(succ) == 2:
                    cv = self.val(F, fr, s, tmp, b['tc'])
                    if bid not in i['relterm']:
                        t = self.truth(s, cv)
                        for y, tr in ((succ[0], True), (succ[1], False)):
                            if y >= 0 and t in (None, tr):
                                s2 = s
                                if b['tc'] in i['cross'] and b.get('tk') in ('BinaryOperator', 'ConditionalOperator'):
                                    s2 = s.copy(); s2.mem[('t', fr, b['tc'])] = C1 if tr else C0
                                push(y, s2)
                        continue
                    for y, tr in ((succ[0], True), (succ[1], False)):
                        if y < 0: continue
                        s2 = s.copy()
                        if not self.assume(s2, cv, tr): continue
                        if b['tc'] in i['cross']:
                            s2.mem[('t', fr, b['tc'])] = C1 if tr else C0
                        s2.tr = (s2.tr, '%s:%s %s is %s' % (F.file.split('/')[-1], b.get('tl'), show(cv), 'true' if tr else 'false'))
                        ts = R.on_branch(self, s2, cv, tr)
                        if ts is not None: s2.ts = ts
                        push(y, s2)
                    continue
                for y in succ:
                    if y >= 0: push(y, s)
        return list(exits.values())
    def match(self, ht, typ):
        h = ht.replace('const ', '').replace('&', '').strip(); t = typ.replace('const ', '').replace('&', '').strip()
        if h == t: return True
        if h == 'std::exception' and (t.startswith('std::') and not is_str(t) and not t.endswith('*')): return True
        return h in self.bases(t)
    def bases(self, t, seen=None):
        r = self.P.records.get(t)
        out = set()
        for b in (r or {}).get('bases', []): out.add(b); out |= self.bases(b)
        return out
    def unwind(self, F, fr, st, tryid):
        """run RAII destructors of this frame's live guard objects when an exception leaves their scope"""
        s = st.copy()
        s.mem = {k: v for k, v in s.mem.items() if not (k[0] == 't' and k[1] == fr)}
        if hasattr(self.rule, 'on_unwind'):
            s.ts = self.rule.on_unwind(self, s, F, fr, tryid)
        return s
    def run(self, F, ts0, pre=None):
        """analyse F as an entry point; parameters are symbolic"""
        self.memo = {}
        self.thrown = []; self.curdepth = 0; self.curstack = [F.u]
        self.outer = frozenset(self.rule.keep_fields)
        st = State({}, {}, ts0)
        for i, p in enumerate(F.params):
            st.mem[('loc', 0, p['v'], p['n'])] = ('arg', i, p['n']) if not p.get('ref') else ('ref', ('arg', i, p['n']))
        if pre: pre(self, st)
        return self.explore(F, 0, st)
    def allrel(self):
        """fields that decide something in any analysed function: facts on them outlive a call"""
        if getattr(self, '_allrel', None) is None:
            s = set()
            for u in self.interesting:
                F = self.P.fns[u]
                i = self.info(F)
                for b, r in i['rel'].items():
                    s |= set(x for x in r if isinstance(x, str))
            self._allrel = s
        return self._allrel

def R_exc(r): return r.exc
def is_objtype(t):
    t = t.replace('const ', '').strip()
    if t.endswith('*') or t.endswith('*&'): return False
    return not re.match(r'^(unsigned |signed )?(bool|char|short|int|long|float|double|size_t|unsigned)( long| int| long long|long)*\s*&?$', t)
def trace(st, limit=14):
    r = []; t = st.tr
    while t is not None:
        if t[1]: r.append(t[1])
        t = t[0]
    r.reverse()
    return r[-limit:]

def dump_states(F, bid, keys):
    print('CAP at', F.q, 'block', bid, [F.nodes[e].get('l') for e in F.blocks[bid]['e'] if isinstance(e, int)][:2])
    from collections import Counter
    cm = Counter(); cf = Counter(); ct = Counter()
    for m, f, t in keys:
        for kv in m: cm[kv] += 1
        for kv in f: cf[kv] += 1
        ct[t] += 1
    n = len(keys)
    for k, v in cm.most_common(60):
        if v < n: print('  mem', v, show(k[0]) if k[0][0] not in ('t', 'this') else k[0], '=', show(k[1]), k[1] if k[1][0]=='unk' else '')
    for k, v in cf.most_common(60):
        if v < n: print('  fact', v, show(k[0]), k[1])
    for k, v in ct.most_common(20):
        print('  ts', v, k)

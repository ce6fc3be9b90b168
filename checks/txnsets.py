"""Model of the read and write set of a transaction (Transaction::ReadSet / WriteSet, one set per kind of ID) for the rules that
follow what a transaction holds.  Membership tests fork, insertions are recorded, a loop over a set visits one element that stands
for all of them: when the loop moves on or ends, the rule is told, so it can require that the element was dealt with."""
from common import *
SETS = {'Transaction::WriteSet': 'W', 'Transaction::ReadSet': 'R'}
ARR = {'KVstore::subID2values': 9001, 'KVstore::objID2values': 9002, 'KVstore::preID2values': 9003, 'KVstore::objID2values_literal': 9004}
ANAME = {9001: 'S', 9002: 'O', 9003: 'P', 9004: 'L'}
TYPES = {0: 'S', 1: 'P', 2: 'O'}
TXT = {'S': 'subject', 'P': 'predicate', 'O': 'object', 'L': 'literal object'}
LIT0 = 2000000000
SETT = ('set<unsigned', 'unordered_set<unsigned')

def setof(t):
    """('W'|'R', 'S'|'P'|'O') of a term that denotes one of the sets"""
    if t and t[0] == 'idx' and t[1][0] == 'f' and t[1][2] in SETS and t[2][0] == 'c': return (SETS[t[1][2]], TYPES.get(t[2][1]))
    return None

class SetRule(Rule):
    ret_matters = True; depth = 6; lv_over = True; all_branches = True
    def load_value(self, S, st, l):
        if l[0] == 'f' and l[2] in ARR: return ('c', ARR[l[2]])
        return None
    def arr(self, c):
        if not c.obj: return None
        return ANAME.get(c.obj[1]) if c.obj[0] == 'c' else ANAME.get(ARR.get(c.obj[2])) if c.obj[0] == 'f' else None
    def akey(self, a, k):
        """(kind of ID, ID) for an array and the key used on it"""
        if a == 'L': return ('O', k[2]) if k[0] == 'bin' and k[1] == '-' and k[3] == ('c', LIT0) else ('L', k)
        return (a, k)
    def coll(self, t): return setof(t)
    def set_call(self, S, st, c):
        """calls on the sets; None if it is not one"""
        f = c.f or ''; nm = f.split('::')[-1]
        if c.k != 'call': return None
        sx = self.coll(strip(c.obj)) if c.obj else None
        if sx is not None:
            if nm in ('count', 'contains') and c.args: return self.member(S, st, sx, c.args[0])
            if nm == 'find': return [(('call', 'fnd', c.obj, c.args[0]), st.ts)]
            if nm in ('end', 'cend'): return [(('call', 'endit', c.obj), st.ts)]
            if nm in ('begin', 'cbegin'): return [(('call', 'it', c.obj), self.visit(S, st, sx))]
            if nm in ('empty', 'size'): return [(('call', nm, c.obj), st.ts)]
            if nm in ('insert', 'emplace'): return [(None, self.inserted(S, st, c, sx, c.args[-1] if len(c.args) < 3 else None))]
            if nm in ('erase', 'clear', 'swap'): return [(None, self.erased(S, st, c, sx))]
        a = [x for x in ([c.obj] if c.obj else []) + list(c.args)]
        a = [strip(x) for x in a]
        it = next((x for x in a if x[0] == 'call' and x[1] in ('it', 'fnd')), None)
        if it is not None and nm in ('operator!=', 'operator=='):
            oth = next((x for x in a if x is not it), None)
            if oth and oth[0] == 'call' and oth[1] == 'endit' and oth[2] == it[2]:
                sx = self.coll(strip(it[2]))
                if it[1] == 'fnd':
                    r = self.member(S, st, sx, it[3])
                    return r if nm == 'operator!=' else [(C0 if v == C1 else C1, t) for v, t in r]
                more = (C1, self.element(S, st, sx, ('call', 'el', it[2])))
                done = (C0, self.finished(S, st, c, sx))
                return [more, done] if nm == 'operator!=' else [(C0, more[1]), (C1, done[1])]
        if it is not None and it[1] == 'it':
            if nm == 'operator*': return [(('call', 'el', it[2]), st.ts)]
            if nm == 'operator++': return [(it, self.ended(S, st, c, self.coll(strip(it[2])), ('call', 'el', it[2])))]
        return None
    def member(self, S, st, sx, key):
        """fork on membership, consistently with what the path has seen"""
        for x in st.ts:
            if x[0] == 'in' and x[1] == sx and x[2] == key: return [(('c', x[3]), st.ts)]
        return [(C1, st.ts | {('in', sx, key, 1)}), (C0, st.ts | {('in', sx, key, 0)})]
    def isin(self, ts, sx, key):
        for x in ts:
            if x[0] == 'in' and x[1] == sx and x[2] == key: return x[3]
        return None
    def wset(self, n):
        f = n.get('f') or ''; nm = f.split('::')[-1]
        return n.get('k') == 'call' and nm in ('count', 'contains', 'find', 'insert', 'emplace', 'erase', 'begin', 'end', 'operator*', 'operator++', 'operator!=', 'operator==') and any(x in f for x in SETT + ('_Rb_tree_const_iterator<unsigned', '_Rb_tree_iterator<unsigned', '_Node_const_iterator<unsigned', '_Node_iterator<unsigned', '__detail', '__normal_iterator<', '_Rb_tree', 'set<std::pair<', 'vector<unsigned'))
    def visit(self, S, st, sx): return st.ts
    def element(self, S, st, sx, el): return st.ts
    def ended(self, S, st, c, sx, el): return st.ts
    def finished(self, S, st, c, sx): return st.ts
    def inserted(self, S, st, c, sx, key): return st.ts
    def erased(self, S, st, c, sx): return st.ts

"""
C10: what constructors and converters do with arguments that describe no object.

The operations are interpreted abstractly.  A value is a class of values: numbers are intervals with a type, collections are classes of
elements (each "present" or "possible") with a range of lengths and facts such as "has a repeated entry", everything else is unknown.  Loops
are iterated to a fixpoint over the classes of elements, branches are joined, library functions are followed, and what is not
understood gives the unknown value.  The set of exceptions that can be raised is over-approximated, so if the documented exception is not in it,
the argument is certainly not rejected.
"""
import ast
import builtins
import sys

from . import program
from .model import Program, FuncInfo, ClassInfo
from .program import AnalysisError
from .report import Finding

TOP = ('top',)
NONE = ('none',)
LIMIT = 8
BUDGET = 100000        # steps for one case
ALL_CASES = 3000000    # steps for all cases; from then on:
SHORT = 4000
INF = float('inf')
PLAIN = {'num', 'none', 'str', 'type', 'coll', 'map'}


def num(kind, lo, hi, tag=None):
    return ('num', kind, lo, hi, tag)


def const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return num('bool', int(v), int(v))
    if isinstance(v, int):
        return num('int', v, v)
    if isinstance(v, float):
        return num('float', v, v)
    if isinstance(v, str):
        return ('str', v)
    return TOP


TRUE, FALSE = const(True), const(False)
BOOL = num('bool', 0, 1)
INT = num('int', -INF, INF)


def truth(t):
    return TRUE if t is True else FALSE if t is False else BOOL


def coll(kind, elems, lo=None, hi=None, origin=None, items=None):
    """elems: (value, present) pairs; everything in the collection belongs to one of them"""
    if items is not None:
        elems = [(v, True) for v in items]
        lo = hi = len(items)
        if kind in ('set', 'frozenset'):
            items = tuple(dict.fromkeys(items))
            lo = 1 if items else 0
            if all(is_const(v) for v in items):
                lo = hi = len(items)
    d = {}
    for v, m in elems:
        d[v] = d.get(v, False) or m
    if len(d) > LIMIT and not (items is not None and len(d) <= 40):
        d, items = {TOP: False}, None
    if lo is None:
        lo = 1 if any(d.values()) else 0
    if hi is None:
        hi = INF if d else 0
    return ('coll', kind, frozenset(d.items()), lo, hi, origin, items)


def is_const(v):
    return v == NONE or v[0] == 'str' and v[1] is not None or v[0] == 'num' and v[2] == v[3] and v[1] != 'float' or v[0] == 'type'


def alts(v):
    return v[1] if v[0] == 'alt' else (v,)


def join(a, b):
    if a == b:
        return a
    if a == TOP or b == TOP:
        return TOP
    vals = list(dict.fromkeys(tuple(alts(a)) + tuple(alts(b))))
    out = []
    for v in vals:
        for i, w in enumerate(out):
            if v[0] == w[0] == 'num' and v[1] == w[1]:
                out[i] = num(v[1], min(v[2], w[2]), max(v[3], w[3]), v[4] if v[4] == w[4] else None)
                break
            if v[0] == w[0] == 'coll' and v[1] == w[1]:
                out[i] = join_coll(v, w)
                break
            if v[0] == w[0] == 'map' and v[1] == w[1]:
                rec = None
                if v[4] is not None and w[4] is not None and [k for k, _ in v[4]] == [k for k, _ in w[4]]:
                    rec = tuple((k, join(x, dict(w[4])[k])) for k, x in v[4])
                out[i] = ('map', v[1], join_coll(v[2], w[2]), join_coll(v[3], w[3]), rec, v[5] if v[5] == w[5] else None)
                break
            if v[0] == w[0] == 'str':
                out[i] = ('str', v[1] if v[1] == w[1] else None)
                break
        else:
            out.append(v)
    if len(out) == 1:
        return out[0]
    if len(out) > 6:
        return TOP
    return ('alt', tuple(out))


def is_container(v):
    return v[0] == 'map' or v[0] == 'coll' and v[1] not in ('tuple', 'frozenset', 'range')


def join_coll(v, w):
    if v[1] != w[1]:
        return coll('list', [(TOP, False)], 0, INF)
    dv, dw = dict(v[2]), dict(w[2])
    elems = [(x, dv.get(x, False) and dw.get(x, False)) for x in list(dv) + [y for y in dw if y not in dv]]
    return coll(v[1], elems, min(v[3], w[3]), max(v[4], w[4]), v[5] if v[5] == w[5] else None)


class Boom(Exception):
    """The evaluation ends here for every value of the class."""


class GiveUp(Exception):
    pass


class Closure:
    def __init__(self, node, env, fr, fi=None):
        self.node, self.env, self.fr, self.fi = node, env, fr, fi


class State:
    __slots__ = ('env', 'heap')

    def __init__(self, env=None, heap=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}

    def copy(self):
        return State(dict(self.env), {k: dict(v) for k, v in self.heap.items()})

    def take(self, other):
        self.env = other.env
        self.heap = other.heap


def join_dict(a, b, missing):
    out = {}
    for k in list(a) + [k for k in b if k not in a]:
        if k in a and k in b:
            out[k] = join(a[k], b[k])
        else:
            out[k] = missing(a.get(k, b.get(k)))
    return out


def join_states(states):
    states = [s for s in states if s is not None]
    if not states:
        return None
    out = states[0].copy()
    for s in states[1:]:
        out.env = join_dict(out.env, s.env, lambda v: v)
        heap = {}
        for k in list(out.heap) + [k for k in s.heap if k not in out.heap]:
            if k in out.heap and k in s.heap:
                heap[k] = join_dict(out.heap[k], s.heap[k], lambda v: TOP)
            else:
                heap[k] = dict(out.heap.get(k, s.heap.get(k)))
        out.heap = heap
    return out


class Frame:
    def __init__(self, fi, module):
        self.fi = fi
        self.module = module
        self.returns = []       # (value, state)
        self.raises = []        # (exception, state, where, explicit)
        self.breaks = []
        self.continues = []
        self.opaque = 0         # operations that may raise anything of the standard library
        self.handling = []


ELEMENT_COPY = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter'}


class Interp:
    def __init__(self, prog, facts=None, budget=BUDGET):
        self.prog = prog
        self.facts = facts or {}
        self.steps = 0
        self.budget = budget
        self.assigned = {}
        self.names = {}
        self.changed = {}
        self.stack = []
        self.unknown_raise = False

    # -- exceptions -------------------------------------------------------------------------------------------------
    def boom(self, fr, st, exc, node, explicit=False):
        fr.raises.append((exc, st.copy(), fr.fi.where(node) if fr.fi else '', explicit))
        raise Boom

    # -- statements -------------------------------------------------------------------------------------------------
    def block(self, fr, stmts, st):
        for s in stmts:
            if st is None:
                return None
            self.steps += 1
            if self.steps > self.budget:
                raise GiveUp('too long')
            try:
                st = self.stmt(fr, s, st)
            except Boom:
                return None
        return st

    def stmt(self, fr, s, st):
        k = type(s)
        if k is ast.Expr:
            self.ev(fr, s.value, st)
        elif k is ast.Assign:
            v = self.ev(fr, s.value, st)
            for t in s.targets:
                self.assign(fr, t, v, st)
        elif k is ast.AnnAssign:
            if s.value is not None:
                self.assign(fr, s.target, self.ev(fr, s.value, st), st)
        elif k is ast.AugAssign:
            load = ast.copy_location(ast.parse(ast.unparse(s.target), mode='eval').body, s)
            v = self.binop(fr, s, type(s.op), self.ev(fr, load, st), self.ev(fr, s.value, st), st)
            self.assign(fr, s.target, v, st)
            if not isinstance(s.target, ast.Subscript) and is_container(v):
                self.other_names(fr, s.target, v, st)
        elif k is ast.Return:
            v = self.ev(fr, s.value, st) if s.value is not None else NONE
            fr.returns.append((v, st))
            return None
        elif k is ast.If:
            yes, no = self.branch(fr, s.test, st)
            return join_states([self.block(fr, s.body, yes), self.block(fr, s.orelse, no)])
        elif k is ast.Raise:
            return self.do_raise(fr, s, st)
        elif k is ast.Assert:
            yes, no = self.branch(fr, s.test, st)
            if no is not None:
                fr.raises.append(('builtins.AssertionError', no, fr.fi.where(s), True))
            return yes
        elif k is ast.For:
            return self.loop(fr, s, st)
        elif k is ast.While:
            return self.while_(fr, s, st)
        elif k is ast.Try:
            return self.try_(fr, s, st)
        elif k is ast.Break:
            fr.breaks.append(st)
            return None
        elif k is ast.Continue:
            fr.continues.append(st)
            return None
        elif k in (ast.Import, ast.ImportFrom):
            self.import_(fr, s, st)
        elif k is ast.FunctionDef:
            st.env[s.name] = ('fn', Closure(s, st.env, fr, FuncInfo(fr.module, s, f'{fr.fi.qual}.{s.name}')), None)
        elif k is ast.Delete:
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.forget(fr, t.value, st)
        elif k is ast.With:
            raise GiveUp('context manager')    # it may swallow exceptions
        elif k in (ast.Pass, ast.Global, ast.Nonlocal):
            pass
        else:
            raise GiveUp(f'statement {k.__name__}')
        return st

    def do_raise(self, fr, s, st):
        if s.exc is None:
            if fr.handling:
                for x, e, w in fr.handling[-1]:
                    fr.raises.append((x, st, w, e))
            else:
                self.unknown_raise = fr.fi.where(s)
            return None
        v = self.ev(fr, s.exc, st)
        for x in alts(v):
            if x[0] in ('type', 'exc'):
                fr.raises.append((x[1], st.copy(), fr.fi.where(s), True))
            else:
                self.unknown_raise = fr.fi.where(s)
        return None

    def import_(self, fr, s, st):
        ns = self.prog.ns
        if isinstance(s, ast.ImportFrom):
            target = program.resolve_relative(fr.module, s.level, s.module)
            for al in s.names:
                if al.name == '*':
                    for n in ns.get(target, {}):
                        st.env[n] = self.binding(ns[target][n])
                elif target in ns and al.name in ns[target]:
                    st.env[al.asname or al.name] = self.binding(ns[target][al.name])
                elif f'{target}.{al.name}' in ns:
                    st.env[al.asname or al.name] = ('mod', f'{target}.{al.name}')
                else:
                    st.env[al.asname or al.name] = ('ext', f'{target}.{al.name}')
        else:
            for al in s.names:
                n = al.name if al.asname else al.name.split('.')[0]
                st.env[al.asname or n] = ('mod', n) if n in ns else ('ext', n)

    def branch(self, fr, test, st):
        """States in which the test holds and does not hold (None: impossible)."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            yes, no = self.branch(fr, test.operand, st)
            return no, yes
        if isinstance(test, ast.BoolOp):
            outs, rest = [], st
            for e in test.values:
                if rest is None:
                    break
                yes, no = self.branch(fr, e, rest)
                if isinstance(test.op, ast.And):
                    outs.append(no)
                    rest = yes
                else:
                    outs.append(yes)
                    rest = no
            done = join_states(outs)
            return (rest, done) if isinstance(test.op, ast.And) else (done, rest)
        t = self.bool(self.ev(fr, test, st))
        if t is True:
            return st, None
        if t is False:
            return None, st
        yes, no = st.copy(), st.copy()
        for place in self.places(test):
            self.narrow(fr, test, place, yes, True)
            self.narrow(fr, test, place, no, False)
        return yes, no

    def places(self, test):
        out = []
        for n in ast.walk(test):
            if isinstance(n, ast.Name) and n.id not in out:
                out.append(n.id)
        return out

    def narrow(self, fr, test, name, st, want):
        v = st.env.get(name)
        if v is None or v[0] != 'alt':
            return
        keep = []
        for x in v[1]:
            s = st.copy()
            s.env[name] = x
            f = Frame(fr.fi, fr.module)
            try:
                t = self.bool(self.ev(f, test, s))
            except Boom:
                continue
            if t is None or t is want:
                keep.append(x)
        if keep:
            st.env[name] = keep[0] if len(keep) == 1 else ('alt', tuple(keep))

    def elements(self, fr, v, st):
        """Classes of elements [(value, present)], may be empty, may be non-empty"""
        out, empty, full = {}, False, False
        for x in alts(v):
            if x[0] == 'coll':
                for e, m in x[2]:
                    out[e] = out.get(e, False) or (m and len(alts(v)) == 1)
                empty |= x[3] == 0
                full |= x[4] > 0
            elif x[0] == 'map':
                for e, m in x[2][2]:
                    out[e] = out.get(e, False) or (m and len(alts(v)) == 1)
                empty |= x[2][3] == 0
                full |= x[2][4] > 0
            elif x[0] == 'str' and x[1] is not None:
                for c in x[1]:
                    out[('str', c)] = len(alts(v)) == 1
                empty |= not x[1]
                full |= bool(x[1])
            elif x[0] in ('num', 'none'):
                continue          # raises
            elif x[0] == 'obj' and self.binv_vector(x, st) is not None:
                e2, em, fu = self.elements(fr, self.binv_vector(x, st), st)
                for e, m in e2:
                    out[e] = out.get(e, False)
                empty |= em
                full |= fu
            else:
                fr.opaque += 1
                out[TOP] = False
                empty = full = True
        if all(x[0] in ('num', 'none') for x in alts(v)):
            fr.raises.append(('builtins.TypeError', st.copy(), '', False))
            raise Boom
        return list(out.items()), empty, full

    def binv_vector(self, x, st):
        h = st.heap.get(x[2], {})
        if x[1].endswith('.Binv') and h.get('vector', TOP)[0] == 'coll':
            return h['vector']
        return None

    def loop(self, fr, s, st):
        it = self.ev(fr, s.iter, st)
        elems, empty, full = self.elements(fr, it, st)
        outer_b, outer_c = fr.breaks, fr.continues
        n_raises = len(fr.raises)
        acc = st
        stuck = False
        ends = []
        for rnd in range(12):
            fr.breaks, outs, stuck = [], [], False
            for e, must in elems:
                fr.continues = []
                cur = acc.copy()
                before = len(fr.returns), len(fr.breaks)
                try:
                    self.assign(fr, s.target, e, cur)
                    out = self.block(fr, s.body, cur)
                except Boom:
                    out = None
                out = join_states([out] + fr.continues)
                if out is None and must and not len(fr.breaks) > before[1]:
                    stuck = True
                outs.append(out)
            ends = [o for o in outs if o is not None]
            new = join_states([acc] + ends)
            if same(new, acc):
                break
            if rnd >= 4:
                widen(acc, new)
            acc = new
        breaks = fr.breaks
        fr.breaks, fr.continues = outer_b, outer_c
        normal = None
        if not stuck:
            normal = join_states(([st] if empty or not elems else []) + ends)
            if normal is None and empty:
                normal = st
        if s.orelse:
            normal = self.block(fr, s.orelse, normal) if normal is not None else None
        return join_states([normal] + breaks)

    def while_(self, fr, s, st):
        outer_b, outer_c = fr.breaks, fr.continues
        acc, exits = st, []
        for rnd in range(12):
            fr.breaks, fr.continues = [], []
            yes, no = self.branch(fr, s.test, acc.copy())
            out = self.block(fr, s.body, yes) if yes is not None else None
            out = join_states([out] + fr.continues)
            exits = [no]
            if out is None:
                break
            new = join_states([acc, out])
            if same(new, acc):
                break
            if rnd >= 4:
                widen(acc, new)
            acc = new
        breaks = fr.breaks
        fr.breaks, fr.continues = outer_b, outer_c
        normal = join_states(exits)
        if s.orelse and normal is not None:
            normal = self.block(fr, s.orelse, normal)
        return join_states([normal] + breaks)

    def try_(self, fr, s, st):
        pre = st.copy()
        n = len(fr.raises)
        opaque = fr.opaque
        unknown = self.unknown_raise
        out = self.block(fr, s.body, st)
        raised = fr.raises[n:]
        del fr.raises[n:]
        vague = fr.opaque > opaque or self.unknown_raise != unknown
        if out is not None and s.orelse:
            out = self.block(fr, s.orelse, out)
        ends = [out]
        for h in s.handlers:
            names = self.handler_names(fr, h, pre)
            states, caught, rest = [], [], []
            for r in raised:
                if names is None or any(x in self.prog.exc_ancestors(r[0]) for x in names):
                    states.append(r[1])
                    caught.append((r[0], r[3], r[2]))
                else:
                    if any(r[0] in self.prog.exc_ancestors(x) for x in names):
                        states.append(r[1])       # might be the more special one
                    rest.append(r)
            raised = rest
            std = names is None or any(x.startswith('builtins.') for x in names)
            if vague and std or names == ['?']:
                states += [pre.copy()] + ([out.copy()] if out is not None else [])
            state = join_states(states)
            if state is not None:
                state = state.copy()
                if h.name:
                    state.env[h.name] = TOP
                fr.handling.append(caught)
                ends.append(self.block(fr, h.body, state))
                fr.handling.pop()
        fr.raises += raised
        end = join_states(ends)
        if s.finalbody:
            end = self.block(fr, s.finalbody, end if end is not None else pre) if end is not None else (self.block(fr, s.finalbody, pre), None)[1]
        return end

    def handler_names(self, fr, h, st):
        if h.type is None:
            return None
        v = self.ev(fr, h.type, st.copy())
        out = []
        for x in alts(v):
            if x[0] == 'type':
                out.append(x[1])
            elif x[0] == 'coll' and x[6] is not None and all(y[0] == 'type' for y in x[6]):
                out += [y[1] for y in x[6]]
            else:
                return ['?']
        return out

    # -- assignment -------------------------------------------------------------------------------------------------
    def assign(self, fr, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Starred):
            self.assign(fr, t.value, TOP, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v[0] == 'coll' and v[6] is not None and v[1] not in ('set', 'frozenset') and not any(isinstance(x, ast.Starred) for x in t.elts):
                if len(v[6]) == len(t.elts):
                    for x, y in zip(t.elts, v[6]):
                        self.assign(fr, x, y, st)
                    return
                self.boom(fr, st, 'builtins.ValueError', t)
            if v[0] in ('num', 'none'):
                self.boom(fr, st, 'builtins.TypeError', t)
            fr.opaque += 1
            e = TOP
            if v[0] == 'coll' and v[2]:
                e = None
                for x, m in v[2]:
                    e = x if e is None else join(e, x)
            for x in t.elts:
                self.assign(fr, x, e, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(fr, t.value, st)
            for x in alts(o):
                if x[0] == 'obj':
                    if t.attr == '__dict__':
                        st.heap[x[2]] = {'?': TOP}
                        continue
                    d = st.heap.setdefault(x[2], {})
                    d[t.attr] = v if len(alts(o)) == 1 else join(d.get(t.attr, TOP), v)
        elif isinstance(t, ast.Subscript):
            c = self.ev(fr, t.value, st)
            key = self.ev(fr, t.slice, st)
            new = None
            for x in alts(c):
                y = self.store_item(x, key, v)
                new = y if new is None else join(new, y)
            self.store_back(fr, t.value, new, st)

    def store_item(self, c, key, v):
        if c[0] == 'map':
            rec = c[4]
            if rec is not None and is_const(key):
                d = dict(rec)
                d[key] = v
                return ('map', c[1], coll('list', [(k, True) for k in d]), coll('list', [(x, True) for x in d.values()]), tuple(d.items()), None)
            ks, vs = dict(c[2][2]), dict(c[3][2])
            ks[key] = True
            vs.setdefault(v, False)
            return ('map', c[1], coll('list', ks.items(), max(1, c[2][3]), INF), coll('list', vs.items(), 0, INF), None, None)
        if c[0] == 'coll':
            es = dict(c[2])
            es = {e: False for e in es}
            es[v] = True
            return coll(c[1], es.items(), c[3], c[4])
        return c

    def store_back(self, fr, place, v, st):
        """the container at this place has changed its content"""
        if isinstance(place, (ast.Name, ast.Attribute)):
            self.assign(fr, place, v, st)
            self.other_names(fr, place, v, st)
        elif isinstance(place, ast.Subscript):
            self.forget(fr, place.value, st)
        elif isinstance(place, ast.IfExp):
            self.forget(fr, place.body, st)
            self.forget(fr, place.orelse, st)
        elif isinstance(place, ast.BoolOp):
            for x in place.values:
                self.forget(fr, x, st)
        elif isinstance(place, ast.Call) and isinstance(place.func, ast.Attribute):
            self.forget(fr, place.func.value, st)        # d.setdefault(k, []).append(x)

    def forget(self, fr, place, st):
        if isinstance(place, (ast.Name, ast.Attribute)):
            try:
                old = self.ev(fr, place, st)
            except Boom:
                return
            v = self.blur(old)
            if v == old:
                return
            self.assign(fr, place, v, st)
            self.other_names(fr, place, v, st)
        elif not isinstance(place, ast.Constant):
            self.store_back(fr, place, TOP, st)

    def other_names(self, fr, place, new, st):
        """other names of a container that has changed"""
        groups, elements = self.names_of(fr.fi)
        key = ast.unparse(place)
        for other in groups.get(key, ()):
            if other == key:
                continue
            t = ast.parse(other, mode='eval').body
            if isinstance(t, ast.Name):
                v = st.env.get(t.id)
            else:
                o = st.env.get(t.value.id)
                v = st.heap.get(o[2], {}).get(t.attr) if o is not None and o[0] == 'obj' else None
            if v is not None and any(is_container(x) for x in alts(v)):
                self.assign(fr, t, join(v, new), st)
        for src in elements.get(key, ()):                # an element of another container
            if src not in groups.get(key, ()) and src != key:
                self.forget(fr, ast.parse(src, mode='eval').body, st)

    def names_of(self, fi):
        r = self.names.get(fi.qual)
        if r is None:
            pairs, elements = [], {}

            def place(x):
                return isinstance(x, ast.Name) or isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)

            def values(x):
                if isinstance(x, ast.IfExp):
                    return values(x.body) + values(x.orelse)
                if isinstance(x, ast.BoolOp):
                    return [y for v in x.values for y in values(v)]
                if isinstance(x, ast.NamedExpr):
                    return [x.target] + values(x.value)
                return [x] if place(x) else []

            def bind(t, v):
                if isinstance(t, (ast.Tuple, ast.List)):
                    if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                        for a, b in zip(t.elts, v.elts):
                            bind(a, b)
                    else:
                        for a in t.elts:
                            part(a, v)
                elif place(t):
                    for x in values(v):
                        pairs.append((ast.unparse(t), ast.unparse(x)))
                    if isinstance(v, ast.Subscript) or isinstance(v, ast.Call) and (isinstance(v.func, ast.Attribute) or isinstance(v.func, ast.Name) and v.func.id == 'next'):
                        part(t, v)

            def sources(x, loop):
                if place(x):
                    return [x]
                if isinstance(x, ast.Subscript):
                    return sources(x.value, loop)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (('values', 'items') if loop else ('get', 'pop', 'setdefault')):
                    return sources(x.func.value, loop)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('enumerate', 'zip', 'reversed', 'sorted', 'list', 'iter', 'next', 'filter'):
                    return [y for a in x.args for y in sources(a, loop)]
                return []

            def part(t, v, loop=False):
                for a in ast.walk(t):
                    if place(a):
                        for b in sources(v, loop):
                            elements.setdefault(ast.unparse(a), set()).add(ast.unparse(b))

            for n in ast.walk(fi.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        bind(t, n.value)
                    for t in n.targets[1:]:
                        bind(t, n.targets[0])
                elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                    bind(n.target, n.value)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    part(n.target, n.iter, True)
            group = {}
            for a, b in pairs:
                g = group.get(a, {a}) | group.get(b, {b})
                for x in g:
                    group[x] = g
            r = self.names[fi.qual] = group, elements
        return r

    def blur(self, v):
        if v[0] == 'coll':
            return coll(v[1], [(TOP, False)], 0, INF)
        if v[0] == 'map':
            u = coll('list', [(TOP, False)], 0, INF)
            return ('map', v[1], u, u, None, None)
        return v if v[0] == 'obj' else TOP

    # -- truth and comparison ---------------------------------------------------------------------------------------
    def bool(self, v):
        ts = set()
        for x in alts(v):
            k = x[0]
            if k == 'none':
                t = False
            elif k == 'num':
                t = False if x[2] == x[3] == 0 else True if x[2] > 0 or x[3] < 0 else None
            elif k == 'str':
                t = None if x[1] is None else bool(x[1])
            elif k == 'coll':
                t = True if x[3] > 0 else False if x[4] == 0 else None
                if x[1] in ('gen', 'ndarray'):
                    t = None
            elif k == 'map':
                t = True if x[2][3] > 0 else False if x[2][4] == 0 else None
            elif k in ('type', 'fn', 'mod', 'exc'):
                t = True
            else:
                t = None
            ts.add(t)
        return ts.pop() if len(ts) == 1 else None

    def eq(self, a, b):
        """True, False or None (unknown), for single alternatives"""
        if a[0] in ('top', 'ext', 'fn', 'obj') or b[0] in ('top', 'ext', 'fn', 'obj'):
            if a[0] == 'obj' and b == NONE or b[0] == 'obj' and a == NONE:
                return None
            return None
        if a[0] == 'num' and b[0] == 'num':
            fa, fb = a[1] == 'float', b[1] == 'float'
            if fa != fb:
                f = a if fa else b
                if not (f[2] == f[3] and float(f[2]).is_integer()):
                    return False              # the class of numbers that are not whole
            if a[2] > b[3] or b[2] > a[3]:
                return False
            if a[2] == a[3] == b[2] == b[3]:
                return True
            if a[4] and b[4]:
                t = self.lengths(a[4], b[4])
                if t is not None:
                    return t
            return None
        if not {a[0], b[0]} <= PLAIN:
            return None
        if a[0] != b[0]:
            return False
        if a[0] == 'none':
            return True
        if a[0] == 'str':
            return None if a[1] is None or b[1] is None else a[1] == b[1]
        if a[0] == 'type':
            return a[1] == b[1]
        if a[0] == 'coll':
            ka, kb = a[1], b[1]
            if 'ndarray' in (ka, kb) or 'gen' in (ka, kb):
                return None
            if {ka, kb} <= {'set', 'frozenset'}:
                if a[5] and b[5]:
                    t = self.related(a[5], b[5])
                    if t is not None:
                        return t
            elif ka != kb:
                return False if {ka, kb} <= {'list', 'tuple', 'set', 'frozenset', 'range'} else None
            if a[3] > b[4] or b[3] > a[4]:
                return False
            if a[4] == b[4] == 0:
                return True
            if a[6] is not None and b[6] is not None and ka == kb and ka in ('list', 'tuple') and len(a[6]) == len(b[6]):
                ts = [self.eq3(x, y) for x, y in zip(a[6], b[6])]
                return False if False in ts else True if all(t is True for t in ts) else None
            if a[5] and b[5]:
                t = self.related(a[5], b[5])
                if t is not None:
                    return t
            for x, y in ((a, b), (b, a)):
                for e, m in x[2]:
                    if m and all(self.eq3(e, f) is False for f, _ in y[2]):
                        return False
            return None
        if a[0] == 'map':
            if a[2][3] > b[2][4] or b[2][3] > a[2][4]:
                return False
            if a[2][4] == b[2][4] == 0:
                return True
            return None
        return None

    def eq3(self, a, b):
        ts = {self.eq(x, y) for x in alts(a) for y in alts(b)}
        return ts.pop() if len(ts) == 1 else None

    def fact(self, key):
        return self.facts.get(key)

    def lengths(self, s, t):
        """Are the lengths of these two collections the same?"""
        for a, b in ((s, t), (t, s)):
            if a[0] == 'set' and a[1] == b:
                return self.fact(('distinct', b))
            if a[0] == 'set' and b[0] == 'sorted' and a[1] == b[1]:
                return self.fact(('distinct', a[1]))
        if s == t:
            return True
        return None

    def related(self, s, t):
        for a, b in ((s, t), (t, s)):
            core = lambda o: o[1] if o[0] in ('sorted', 'set') else o
            if b[0] == 'range' and a[0] in ('sorted', 'set') and core(a) == b[1]:
                return self.fact(('perm', b[1]))
            if b[0] == 'set' and b[1][0] == 'range' and a[0] == 'set' and a[1] == b[1][1]:
                return self.fact(('perm', a[1]))
            if a[0] == b[0] == 'sorted' and a[1][0] == 'keys' and b[1] == ('values', a[1][1]):
                return self.fact(('bijective', a[1][1]))
            if a[0] == b[0] == 'set' and a[1][0] == 'keys' and b[1] == ('values', a[1][1]):
                return self.fact(('bijective', a[1][1]))
        return None

    def compare(self, fr, node, op, a, b, st):
        ts = set()
        ok = 0
        for x in alts(a):
            for y in alts(b):
                try:
                    ts.add(self.compare1(fr, node, op, x, y, st))
                    ok += 1
                except Boom:
                    pass
        if not ok:
            raise Boom
        return ts.pop() if len(ts) == 1 else None

    def compare1(self, fr, node, op, a, b, st):
        if op in (ast.Is, ast.IsNot):
            if NONE in (a, b):
                o = b if a == NONE else a
                t = True if o == NONE else False if o[0] in PLAIN | {'obj', 'fn', 'exc', 'mod'} else None
            elif a[0] == b[0] == 'type':
                t = a[1] == b[1]
            elif a[0] == b[0] == 'num' and a[1] == b[1] == 'bool':
                t = self.eq(a, b)
            elif a[0] == 'num' and b[0] == 'num' and a[1] != b[1]:
                t = False
            elif a[0] == b[0] or not {a[0], b[0]} <= PLAIN:
                t = None
            else:
                t = False
            return t if op is ast.Is or t is None else not t
        if op in (ast.Eq, ast.NotEq):
            if a[0] == 'obj':
                t = None
                m = self.member(a, '__eq__')
                if isinstance(m, FuncInfo) and len(self.stack) < 25:
                    t = self.bool(self.call_fi(fr, node, m, [a, b], {}, st))
            else:
                t = self.eq(a, b)
            return t if op is ast.Eq or t is None else not t
        if op in (ast.In, ast.NotIn):
            t = self.contains(fr, node, a, b, st)
            return t if op is ast.In or t is None else not t
        if a[0] == b[0] == 'num':
            lt = True if a[3] < b[2] else False if a[2] >= b[3] else None
            gt = True if a[2] > b[3] else False if a[3] <= b[2] else None
            le, ge = (None if gt is None else not gt), (None if lt is None else not lt)
            return {ast.Lt: lt, ast.Gt: gt, ast.LtE: le, ast.GtE: ge}[op]
        simple = {'num', 'none', 'str', 'coll', 'map', 'type'}
        if a[0] in simple and b[0] in simple and (a[0] != b[0] or a[0] in ('none', 'map', 'type')) and 'ndarray' not in (a[1:2] + b[1:2]):
            self.boom(fr, st, 'builtins.TypeError', node)
        fr.opaque += 1
        if a[0] == b[0] == 'coll' and a[1] == b[1] == 'set':
            return self.subset(a, b, op)
        return None

    def subset(self, a, b, op):
        if op in (ast.Gt, ast.GtE):
            a, b = b, a
        if op in (ast.Lt, ast.Gt):
            return None
        return self.issubset(a, b)

    def issubset(self, a, b):
        if a[5] is not None and b[5] is not None:
            for x, y in ((a[5], b[5]),):
                core = lambda o: o[1] if o[0] in ('sorted', 'set') else o
                t = self.fact(('within', core(x), core(y)))
                if t is not None:
                    return t
        exact = b[6] is not None and all(is_const(v) for v in b[6])
        if exact:
            t = True
            for e, m in a[2]:
                hit = [self.eq3(e, v) for v in b[6]]
                if any(h is True for h in hit):
                    continue
                if m and all(h is False for h in hit):
                    return False
                t = None
            return t
        for e, m in a[2]:
            if m and all(self.eq3(e, v) is False for v, _ in b[2]):
                return False
        return None

    def contains(self, fr, node, x, c, st):
        if c[0] == 'coll':
            if c[4] == 0:
                return False
            if x[0] in ('coll', 'map') and x[0] != 'top' and c[1] in ('set',) and x[1] in ('list', 'set', 'dict'):
                self.boom(fr, st, 'builtins.TypeError', node)
            if c[1] == 'range' and x[0] == 'num' and len(c[2]) == 1:
                (e, _), = c[2]
                if x[1] == 'float':
                    return False
                if e[0] == 'num':
                    if x[3] < e[2] or x[2] > e[3]:
                        return False
                    if c[6] == 'span' and x[2] == x[3]:
                        return True
                return None
            hits = [(self.eq3(x, e), m) for e, m in c[2]]
            if any(h is True and m and is_const(x) for h, m in hits):
                return True
            if x[0] == 'type' and any(h is True for h, m in hits) and c[6] is not None:
                return True
            if all(h is False for h, m in hits):
                return False
            return None
        if c[0] == 'map':
            return self.contains(fr, node, x, c[2], st)
        if c[0] == 'str' and x[0] == 'str' and None not in (c[1], x[1]):
            return x[1] in c[1]
        if c[0] in ('num', 'none') or c[0] == 'str' and x[0] in ('num', 'none', 'coll', 'map'):
            self.boom(fr, st, 'builtins.TypeError', node)
        fr.opaque += 1
        return None

    # -- expressions ------------------------------------------------------------------------------------------------
    def ev(self, fr, e, st):
        self.steps += 1
        if self.steps > self.budget:
            raise GiveUp('too long')
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    self.ev(fr, ch, st)
            fr.opaque += 1
            return TOP
        return m(fr, e, st)

    def e_Constant(self, fr, e, st):
        return const(e.value)

    def e_JoinedStr(self, fr, e, st):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(fr, v.value, st)
        return ('str', None)

    def e_Name(self, fr, e, st):
        if e.id in st.env:
            return st.env[e.id]
        env = getattr(fr, 'closure', None)
        if env is not None and e.id in env:
            return env[e.id]
        if e.id in self.only_assigned(fr.fi):
            self.boom(fr, st, 'builtins.UnboundLocalError', e)
        return self.global_name(fr, fr.module, e.id)

    def only_assigned(self, fi):
        """local variables that are bound by plain assignments only"""
        r = self.assigned.get(fi.qual)
        if r is None:
            names, other = set(), set()
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Assign):
                    names |= {t.id for t in n.targets if isinstance(t, ast.Name)}
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    other |= set(n.names)
                elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fi.node:
                    other |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {getattr(n, 'name', None)}
                elif isinstance(n, (ast.For, ast.comprehension, ast.NamedExpr)):
                    other |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                elif isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Store):
                    other |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    other |= {(a.asname or a.name).split('.')[0] for a in n.names}
                elif isinstance(n, ast.ExceptHandler):
                    other.add(n.name)
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    other |= {x.id for x in ast.walk(n.optional_vars) if isinstance(x, ast.Name)}
            r = self.assigned[fi.qual] = names - other - set(fi.params)
        return r

    def global_name(self, fr, mod, name):
        b = self.prog.ns.get(mod.name, {}).get(name)
        if b is not None:
            return self.binding(b, mod, name)
        if hasattr(builtins, name):
            t = getattr(builtins, name)
            return ('type', f'builtins.{name}') if isinstance(t, type) else ('ext', f'builtins.{name}')
        return TOP

    def binding(self, b, mod=None, name=None):
        r = self.prog.entity(b)
        if isinstance(r, FuncInfo):
            return ('fn', r, None)
        if isinstance(r, ClassInfo):
            return ('type', r.qual)
        if r is None:
            return TOP
        if r[0] == 'module':
            return ('mod', r[1])
        if r[0] == 'external':
            if r[1] in ('numpy.ndarray', 'collections.defaultdict', 'bidict.bidict', 'numbers.Number', 'collections.deque', 'numpy.int64'):
                return ('type', r[1])
            return ('ext', r[1])
        if mod is not None:
            expr = self.prog.globals.get((mod.name, name))
            if expr is not None and isinstance(expr, (ast.Constant, ast.List, ast.Tuple, ast.Set, ast.UnaryOp, ast.Dict)):
                fi = FuncInfo(mod, ast.parse('def f(): pass').body[0], mod.name)
                return self.ev(Frame(fi, mod), expr, State())
        return TOP

    def e_Attribute(self, fr, e, st):
        o = self.ev(fr, e.value, st)
        out = None
        for x in alts(o):
            v = self.attr(fr, e, x, e.attr, st)
            out = v if out is None else join(out, v)
        return out

    def cls(self, v):
        return self.prog.classes.get(v[1])

    def member(self, o, name):
        c = self.prog.classes.get(o[1])
        return c.lookup(name) if c is not None else None

    def attr(self, fr, e, x, name, st):
        if name == '__class__':
            return self.type_of(x)
        if x[0] == 'mod':
            b = self.prog.ns.get(x[1], {}).get(name)
            if b is not None:
                return self.binding(b, self.prog.src.get(x[1]), name)
            if f'{x[1]}.{name}' in self.prog.ns:
                return ('mod', f'{x[1]}.{name}')
            return TOP
        if x[0] == 'ext':
            d = f'{x[1]}.{name}'
            return ('type', d) if d in ('numpy.ndarray', 'collections.defaultdict', 'numbers.Number', 'bidict.bidict') else ('ext', d)
        if x[0] == 'obj':
            h = st.heap.get(x[2], {})
            m = self.member(x, name)
            if isinstance(m, FuncInfo):
                if m.kind == 'cached' and name in h:
                    return h[name]
                if m.kind in ('property', 'cached'):
                    v = self.call_fi(fr, e, m, [x], {}, st)
                    if m.kind == 'cached' and x[2] in st.heap:
                        st.heap[x[2]][name] = v
                    return v
                return ('fn', m, None if m.kind == 'static' else x)
            if name in h:
                return h[name]
            if name == '__dict__':
                return TOP
            return TOP
        if x[0] == 'type' and x[1] in self.prog.classes:
            m = self.prog.classes[x[1]].lookup(name)
            if isinstance(m, FuncInfo):
                return ('fn', m, None)
            return TOP
        if x[0] == 'super':
            c = self.prog.classes[x[1]]
            for b in c.mro()[1:]:
                if name in b.members and isinstance(b.members[name], FuncInfo):
                    return ('fn', b.members[name], x[2])
            return TOP
        if x == NONE or x[0] == 'num' and name not in ('bit_length', 'real', 'is_integer', 'bit_count'):
            self.boom(fr, st, 'builtins.AttributeError', e)
        if x[0] in ('coll', 'map', 'str', 'num'):
            t = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'dict': dict, 'range': range}.get(x[1]) if x[0] in ('coll', 'map') \
                else str if x[0] == 'str' else None
            if t is not None and not hasattr(t, name):
                self.boom(fr, st, 'builtins.AttributeError', e)
            return ('meth', x, name)
        fr.opaque += 1
        return TOP

    def e_BoolOp(self, fr, e, st):
        vals, is_and = [], isinstance(e.op, ast.And)
        cur = st
        for i, x in enumerate(e.values):
            s = cur if i == 0 else cur.copy()
            n = len(fr.raises)
            try:
                v = self.ev(fr, x, s)
            except Boom:
                if i == 0 or not vals:
                    raise
                break                        # the other values end before
            if i == 0:
                cur = s
            t = self.bool(v)
            last = i == len(e.values) - 1
            if last or t is not is_and:
                vals.append(v if t is None or last or t is not is_and else v)
            if t is (not is_and):
                break
            if not last:
                f = Frame(fr.fi, fr.module)
                try:
                    yes, no = self.branch(f, x, cur.copy())
                except Boom:
                    break
                nxt = yes if is_and else no
                if nxt is None:
                    break
                cur = nxt
        out = None
        for v in vals:
            if v is not vals[-1]:
                # only the values that end the chain
                keep = [x for x in alts(v) if self.bool(x) is not is_and]
                if not keep:
                    continue
                v = keep[0] if len(keep) == 1 else ('alt', tuple(keep))
                if v == BOOL:
                    v = FALSE if is_and else TRUE
            out = v if out is None else join(out, v)
        return out if out is not None else TOP

    def e_UnaryOp(self, fr, e, st):
        v = self.ev(fr, e.operand, st)
        if isinstance(e.op, ast.Not):
            t = self.bool(v)
            return truth(None if t is None else not t)
        out = None
        for x in alts(v):
            if x[0] == 'num' and x[1] != 'float':
                if isinstance(e.op, ast.USub):
                    y = num('int', -x[3], -x[2])
                elif isinstance(e.op, ast.Invert):
                    y = num('int', -x[3] - 1, -x[2] - 1)
                else:
                    y = num('int', x[2], x[3])
            elif x[0] in ('none', 'str', 'coll', 'map') and x[1:2] != ('ndarray',):
                fr.raises.append(('builtins.TypeError', st.copy(), fr.fi.where(e), False))
                continue
            else:
                fr.opaque += 1
                y = TOP
            out = y if out is None else join(out, y)
        if out is None:
            raise Boom
        return out

    def e_BinOp(self, fr, e, st):
        return self.binop(fr, e, type(e.op), self.ev(fr, e.left, st), self.ev(fr, e.right, st), st)

    def binop(self, fr, e, op, a, b, st):
        out = None
        for x in alts(a):
            for y in alts(b):
                try:
                    v = self.binop1(fr, e, op, x, y, st)
                except Boom:
                    continue
                out = v if out is None else join(out, v)
        if out is None:
            raise Boom
        return out

    DUNDER = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.BitAnd: '__and__', ast.BitOr: '__or__', ast.BitXor: '__xor__',
              ast.Pow: '__pow__'}

    def binop1(self, fr, e, op, a, b, st):
        if a[0] == 'obj':
            m = self.member(a, self.DUNDER.get(op, '?'))
            if isinstance(m, FuncInfo):
                return self.call_fi(fr, e, m, [a, b], {}, st)
            fr.opaque += 1
            return TOP
        if a[0] == b[0] == 'num':
            whole = 'float' not in (a[1], b[1])
            if whole and op is ast.Add:
                return num('int', a[2] + b[2], a[3] + b[3])
            if whole and op is ast.Sub:
                return num('int', a[2] - b[3], a[3] - b[2])
            if not whole and op in (ast.Add, ast.Sub):
                f, w = (a, b) if a[1] == 'float' else (b, a)
                if w[1] != 'float':
                    return num('float', -INF, INF) if not (a[2] == a[3] and b[2] == b[3]) else num(
                        'float', *([a[2] + b[2]] * 2 if op is ast.Add else [a[2] - b[2]] * 2))
                fr.opaque += 1
                return TOP
            if op is ast.Mod and b[2] == b[3] == 1 and b[1] != 'float':
                return num('int', 0, 0) if whole else num('float', 0.25, 0.75) if not float(a[2]).is_integer() or a[2] != a[3] else num('float', 0.0, 0.0)
            if whole and a[2] == a[3] and b[2] == b[3] and abs(a[2]) <= 1 << 20 and abs(b[2]) <= 1 << 20:
                p, q = a[2], b[2]
                if op in (ast.Mod, ast.FloorDiv) and q == 0:
                    self.boom(fr, st, 'builtins.ZeroDivisionError', e)
                if op in (ast.LShift, ast.RShift) and q < 0:
                    self.boom(fr, st, 'builtins.ValueError', e)
                if op in (ast.LShift, ast.Pow) and q > 64 or op is ast.Pow and q < 0:
                    fr.opaque += 1
                    return TOP
                f = {ast.Mult: lambda: p * q, ast.Mod: lambda: p % q, ast.FloorDiv: lambda: p // q, ast.Pow: lambda: p ** q,
                     ast.LShift: lambda: p << q, ast.RShift: lambda: p >> q, ast.BitAnd: lambda: p & q, ast.BitOr: lambda: p | q,
                     ast.BitXor: lambda: p ^ q}.get(op)
                if f is not None:
                    return num('int', f(), f())
            if whole:
                nat = a[2] >= 0 and b[2] >= 0
                if op in (ast.Mult, ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift):
                    return num('int', 0 if nat else -INF, INF)
                if op is ast.Mod and b[2] > 0:
                    return num('int', 0, b[3] - 1)
                if op is ast.Pow and nat:
                    return num('int', 1 if a[2] >= 1 else 0, INF)
                if op is ast.FloorDiv and nat:
                    return num('int', 0, INF)
            fr.opaque += 1
            return TOP
        if a[0] == b[0] == 'coll' and op is ast.Add and a[1] == b[1] and a[1] in ('list', 'tuple'):
            if a[6] is not None and b[6] is not None:
                return coll(a[1], [], items=a[6] + b[6])
            return coll(a[1], list(a[2]) + [(v, m or dict(a[2]).get(v, False)) for v, m in b[2]], a[3] + b[3], a[4] + b[4])
        if a[0] == b[0] == 'coll' and a[1] == b[1] == 'set':
            return self.setop(op, a, b)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'coll' and y[0] == 'num' and op is ast.Mult and x[1] in ('list', 'tuple') and y[1] != 'float':
                return coll(x[1], [(v, m and y[2] >= 1) for v, m in x[2]], x[3] * max(0, y[2]) if x[3] else 0,
                            (0 if x[4] == 0 or y[3] <= 0 else x[4] * y[3]))
        if a[0] == 'str' and op in (ast.Add, ast.Mult):
            if op is ast.Add and b[0] == 'str':
                return ('str', a[1] + b[1] if None not in (a[1], b[1]) else None)
            if op is ast.Mult and b[0] == 'num':
                return ('str', None)
        if a[0] == b[0] == 'map' and op is ast.BitOr:
            if a[4] is not None and b[4] is not None:
                d = {**dict(a[4]), **dict(b[4])}
                return ('map', a[1], coll('list', [], items=tuple(d)), coll('list', [], items=tuple(d.values())), tuple(d.items()), None)
            ks = coll('list', list(a[2][2]) + [(v, m or dict(a[2][2]).get(v, False)) for v, m in b[2][2]], max(a[2][3], b[2][3]), a[2][4] + b[2][4])
            vs = coll('list', [(v, False) for v, _ in list(a[3][2]) + list(b[3][2])], 0, INF)
            return ('map', a[1], ks, vs, None, None)
        simple = {'num', 'none', 'str', 'coll', 'map'}
        scalar = {'num', 'none'}
        if a[0] == 'str' and op is ast.Mod and (a[1] is None or '%' in a[1]):
            return ('str', None)
        if a[0] in simple and b[0] in simple and (a[0] in scalar or b[0] in scalar) and 'ndarray' not in (a[1:2] + b[1:2]) \
                and not (op is ast.Mult and 'none' not in (a[0], b[0])):
            self.boom(fr, st, 'builtins.TypeError', e)
        fr.opaque += 1
        return TOP

    def setop(self, op, a, b):
        exact = a[6] is not None and b[6] is not None and all(is_const(v) for v in a[6] + b[6])
        if op is ast.Sub:
            if exact:
                return coll('set', [], items=tuple(v for v in a[6] if v not in b[6]))
            return coll('set', [(v, m and all(self.eq3(v, w) is False for w, _ in b[2])) for v, m in a[2]], None, a[4])
        if op is ast.BitAnd:
            if exact:
                return coll('set', [], items=tuple(v for v in a[6] if v in b[6]))
            return coll('set', [(v, False) for v, m in a[2]], 0, a[4])
        if op is ast.BitOr:
            if exact:
                return coll('set', [], items=tuple(dict.fromkeys(a[6] + b[6])))
            d = dict(a[2])
            for v, m in b[2]:
                d[v] = d.get(v, False) or m
            return coll('set', d.items(), max(a[3], b[3]), a[4] + b[4])
        return coll('set', [(v, False) for v, m in list(a[2]) + list(b[2])], 0, a[4] + b[4])

    def e_Compare(self, fr, e, st):
        left = self.ev(fr, e.left, st)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(fr, c, st)
            t = self.compare(fr, e, type(op), left, right, st)
            if t is False:
                return FALSE
            if t is None:
                res = None
            left = right
        return truth(res)

    def e_IfExp(self, fr, e, st):
        yes, no = self.branch(fr, e.test, st.copy())
        out, ok = None, []
        for s, x in ((yes, e.body), (no, e.orelse)):
            if s is None:
                continue
            try:
                v = self.ev(fr, x, s)
            except Boom:
                continue
            ok.append(s)
            out = v if out is None else join(out, v)
        if out is None:
            raise Boom
        st.take(join_states(ok))
        return out

    def e_Tuple(self, fr, e, st, kind='tuple'):
        items, star = [], False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(fr, x.value, st)
                if v[0] == 'coll' and v[6] is not None and v[6] != 'span':
                    items += v[6]
                else:
                    star = True
                    items += [k for k, _ in self.elements(fr, v, st)[0]]
            else:
                items.append(self.ev(fr, x, st))
        if star:
            return coll(kind, [(v, False) for v in items], 0, INF)
        return coll(kind, [], items=tuple(items))

    def e_List(self, fr, e, st):
        return self.e_Tuple(fr, e, st, 'list')

    def e_Set(self, fr, e, st):
        return self.e_Tuple(fr, e, st, 'set')

    def e_Dict(self, fr, e, st):
        ks, vs, plain = [], [], True
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.ev(fr, v, st)
                plain = False
                continue
            ks.append(self.ev(fr, k, st))
            vs.append(self.ev(fr, v, st))
        plain = plain and all(is_const(k) for k in ks)
        if not plain:
            return ('map', 'dict', coll('list', [(k, False) for k in ks] or [(TOP, False)], 0, INF),
                    coll('list', [(v, False) for v in vs] or [(TOP, False)], 0, INF), None, None)
        d = dict(zip(ks, vs))
        return ('map', 'dict', coll('list', [], items=tuple(d)), coll('list', [], items=tuple(d.values())), tuple(d.items()), None)

    def e_Lambda(self, fr, e, st):
        return ('fn', Closure(e, dict(st.env), fr), None)

    def e_Yield(self, fr, e, st):
        fr.yields.append(self.ev(fr, e.value, st) if e.value is not None else NONE)
        return TOP

    def e_YieldFrom(self, fr, e, st):
        fr.yields += [v for v, m in self.elements(fr, self.ev(fr, e.value, st), st)[0]]
        return TOP

    def e_Starred(self, fr, e, st):
        return self.ev(fr, e.value, st)

    def e_NamedExpr(self, fr, e, st):
        v = self.ev(fr, e.value, st)
        self.assign(fr, e.target, v, st)
        return v

    def e_Slice(self, fr, e, st):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(fr, x, st)
        return TOP

    def comp(self, fr, e, st, kind, elt):
        out, sure = {}, True
        first = e.generators[0]
        src = self.ev(fr, first.iter, st)
        state = {'empty': False, 'src': src}
        simple = len(e.generators) == 1 and not first.ifs
        booms = [0]

        def go(i, s, must):
            g = e.generators[i]
            v = src if i == 0 else self.ev(fr, g.iter, s)
            elems, empty, full = self.elements(fr, v, s)
            for x, m in elems:
                t = s.copy()
                m2 = must and m
                try:
                    self.assign(fr, g.target, x, t)
                    dead = False
                    for c in g.ifs:
                        yes, no = self.branch(fr, c, t)
                        if yes is None:
                            dead = True
                            break
                        if no is not None:
                            m2 = False
                        t = yes
                    if dead:
                        continue
                    if i + 1 < len(e.generators):
                        go(i + 1, t, m2)
                    else:
                        w = self.ev(fr, elt, t)
                        out[w] = out.get(w, False) or m2
                except Boom:
                    if m2:
                        raise
        go(0, st.copy(), True)
        origin = None
        lo = hi = None
        names = [g.target.id for g in e.generators if isinstance(g.target, ast.Name)]
        one = src if src[0] == 'coll' else None
        if one is not None:
            if simple:
                lo, hi = one[3], one[4]
                if isinstance(elt, ast.Name) and names == [elt.id]:
                    origin = one[5]
                elif one[5]:
                    origin = ('each', one[5], ast.dump(elt))
            if len(e.generators) == 2 and not any(g.ifs for g in e.generators) and len(names) == 2 and isinstance(elt, ast.Name) and elt.id == names[1] \
                    and isinstance(e.generators[1].iter, ast.Name) and e.generators[1].iter.id == names[0] and one[5]:
                origin = ('flat', one[5])
        if not out and hi is None:
            hi = 0
        items = None
        if simple and one is not None and isinstance(one[6], tuple) and one[1] in ('list', 'tuple') and kind in ('list', 'gen'):
            try:
                items = []
                for x in one[6]:
                    t = st.copy()
                    self.assign(fr, first.target, x, t)
                    items.append(self.ev(fr, elt, t))
                items = tuple(items)
            except Boom:
                items = None
        if items is not None:
            c = coll(kind, [], items=items)
            return c[:5] + (origin,) + c[6:]
        if kind == 'set':
            origin = ('set', origin) if origin else None
            lo = min(lo or 0, 1) if lo else 0 if not any(out.values()) else 1
        return coll(kind, out.items(), lo, hi, origin)

    def e_ListComp(self, fr, e, st):
        return self.comp(fr, e, st, 'list', e.elt)

    def e_GeneratorExp(self, fr, e, st):
        return self.comp(fr, e, st, 'gen', e.elt)

    def e_SetComp(self, fr, e, st):
        return self.comp(fr, e, st, 'set', e.elt)

    def e_DictComp(self, fr, e, st):
        k = self.comp(fr, e, st, 'list', e.key)
        v = self.comp(fr, e, st, 'list', e.value)
        return ('map', 'dict', k[:5] + (None, None), v[:5] + (None, None), None, None)

    def e_Subscript(self, fr, e, st):
        c = self.ev(fr, e.value, st)
        if isinstance(e.slice, ast.Slice):
            i = None
            self.ev(fr, e.slice, st)
        else:
            i = self.ev(fr, e.slice, st)
        out = None
        for x in alts(c):
            try:
                v = self.item(fr, e, x, i, st)
            except Boom:
                continue
            out = v if out is None else join(out, v)
        if out is None:
            raise Boom
        return out

    def item(self, fr, e, x, i, st):
        if x[0] == 'num' or x == NONE:
            self.boom(fr, st, 'builtins.TypeError', e)
        if x[0] == 'obj':
            m = self.member(x, '__getitem__')
            if isinstance(m, FuncInfo) and i is not None:
                return self.call_fi(fr, e, m, [x, i], {}, st)
            fr.opaque += 1
            return TOP
        if x[0] == 'coll' and x[1] in ('list', 'tuple', 'range'):
            if i is None:
                sl = e.slice
                if isinstance(x[6], tuple):
                    try:
                        lit = [ast.literal_eval(p) if p is not None else None for p in (sl.lower, sl.upper, sl.step)]
                        return coll(x[1], [], items=x[6][slice(*lit)])
                    except ValueError:
                        pass
                if sl.lower is None and sl.upper is None:
                    return x[:5] + (None, None)
                return coll(x[1] if x[1] != 'range' else 'list', [(v, False) for v, m in x[2]], 0, x[4])
            if i[0] == 'num' and i[2] == i[3] and isinstance(x[6], tuple):
                if -len(x[6]) <= i[2] < len(x[6]):
                    return x[6][i[2]]
                self.boom(fr, st, 'builtins.IndexError', e)
            if i[0] in ('none', 'str', 'coll', 'map'):
                self.boom(fr, st, 'builtins.TypeError', e)
            fr.opaque += 1
            out = None
            for v, m in x[2]:
                out = v if out is None else join(out, v)
            if out is None:
                self.boom(fr, st, 'builtins.IndexError', e)
            return out
        if x[0] == 'coll' and x[1] in ('set', 'frozenset'):
            self.boom(fr, st, 'builtins.TypeError', e)
        if x[0] == 'map' and i is not None:
            if x[4] is not None and is_const(i):
                d = dict(x[4])
                if i in d:
                    return d[i]
                self.boom(fr, st, 'builtins.KeyError', e)
            fr.opaque += 1
            out = None
            for v, m in x[3][2]:
                out = v if out is None else join(out, v)
            return out if out is not None else TOP
        if x[0] == 'str':
            if x[1] is not None and i is not None and i[0] == 'num' and i[2] == i[3] and -len(x[1]) <= i[2] < len(x[1]):
                return ('str', x[1][i[2]])
            return ('str', None)
        fr.opaque += 1
        return TOP

    # -- calls ------------------------------------------------------------------------------------------------------
    def e_Call(self, fr, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            c = fr.fi.cls
            if c is None and e.args:
                v = self.ev(fr, e.args[0], st)
                c = self.prog.classes.get(v[1]) if v[0] == 'type' else None
            if c is not None and fr.fi.params:
                return ('super', c.qual, st.env.get(fr.fi.params[0], TOP))
            return TOP
        f = self.ev(fr, e.func, st)
        args, star = [], False
        for a in e.args:
            v = self.ev(fr, a.value if isinstance(a, ast.Starred) else a, st)
            if isinstance(a, ast.Starred):
                if v[0] == 'coll' and isinstance(v[6], tuple) and v[1] != 'set':
                    args += v[6]
                else:
                    star = True
                    args.append(('star', v))
            else:
                args.append(v)
        kws = {}
        for k in e.keywords:
            v = self.ev(fr, k.value, st)
            if k.arg is None:
                if v[0] == 'map' and v[4] is not None and all(x[0] == 'str' for x, _ in v[4]):
                    for x, y in v[4]:
                        kws[x[1]] = y
                else:
                    star = True
            else:
                kws[k.arg] = v
        out, states = None, []
        fs = alts(f)
        for x in fs:
            s = st if len(fs) == 1 else st.copy()
            try:
                v = self.call(fr, e, x, args, kws, star, s)
            except Boom:
                continue
            states.append(s)
            out = v if out is None else join(out, v)
        if out is None:
            raise Boom
        if len(fs) > 1:
            st.take(join_states(states))
        return out

    def call(self, fr, e, f, args, kws, star, st):
        if f[0] == 'fn':
            return self.call_fi(fr, e, f[1], ([f[2]] if f[2] is not None else []) + args, kws, st, star)
        if f[0] == 'type':
            if f[1] in self.prog.classes:
                c = self.prog.classes[f[1]]
                if c.is_exception:
                    return ('exc', c.qual)
                return self.construct(fr, e, c, args, kws, st, star)
            return self.builtin_type(fr, e, f[1], args, kws, star, st)
        if f[0] == 'meth':
            return self.method(fr, e, f[1], f[2], args, kws, st)
        if f[0] == 'ext':
            return self.external(fr, e, f[1], args, kws, star, st)
        if f[0] in ('num', 'none', 'str', 'coll', 'map'):
            self.boom(fr, st, 'builtins.TypeError', e)
        fr.opaque += 1
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr not in self.library_names()):
            self.unknown_raise = fr.fi.where(e)        # anything could be called here
        for x in self.arguments(e):
            self.forget_container(fr, x, st)
        return TOP

    def library_names(self):
        """names of everything in the library that could be called as a member"""
        r = getattr(self.prog, 'reject_names', None)
        if r is None:
            r = {n for c in self.prog.classes.values() for n in c.members}
            for ns in self.prog.ns.values():
                r |= set(ns)
            for m in self.prog.modules.values():
                r |= {t.attr for n in ast.walk(m.tree) if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Name, ast.Attribute, ast.Lambda, ast.IfExp, ast.Subscript))
                      for t in n.targets if isinstance(t, ast.Attribute)}
            self.prog.reject_names = r
        return r

    def run_callbacks(self, fr, e, args, st):
        """functions that are given to an external function may be called with anything"""
        for a in args:
            for x in alts(a):
                if x[0] == 'fn':
                    fi = x[1].fi if isinstance(x[1], Closure) else x[1]
                    n = len(x[1].node.args.args) - (x[2] is not None)
                    try:
                        self.call_fi(fr, e, x[1], ([x[2]] if x[2] is not None else []) + [TOP] * n, {}, st.copy())
                    except Boom:
                        pass
                elif x[0] == 'type' and x[1] in self.prog.classes and not self.prog.classes[x[1]].is_exception:
                    self.unknown_raise = fr.fi.where(e)

    def construct(self, fr, e, c, args, kws, st, star=False):
        m = c.lookup('__init__')
        if c.lookup('__new__') is not None or c.node.keywords or c.node.decorator_list:
            self.unknown_raise = c.qual
        oid = (id(e), tuple(x[1] for x in self.stack))
        o = ('obj', c.qual, oid)
        st.heap[oid] = {}
        if isinstance(m, FuncInfo):
            self.call_fi(fr, e, m, [o] + args, kws, st, star)
        return o

    def call_fi(self, fr, e, fi, args, kws, st, star=False):
        closure = None
        if isinstance(fi, Closure):
            closure, node = fi, fi.node
            if fi.fi is None:
                fi.fi = FuncInfo(fi.fr.module, ast.FunctionDef(name='<lambda>', args=node.args, body=[ast.Return(node.body, lineno=node.lineno, col_offset=0)],
                                                               decorator_list=[], lineno=node.lineno, col_offset=0), fi.fr.fi.qual + '.<lambda>')
            fi = fi.fi
        depth = sum(1 for q, _ in self.stack if q == fi.qual)
        if depth >= 2:
            fr.opaque += 1
            for x in self.arguments(e):
                self.forget_container(fr, x, st)
            return TOP                   # what it can raise is known from the outer calls
        if len(self.stack) > 40:
            raise GiveUp('too deep')
        if not self.plain(fi):
            self.unknown_raise = fi.where()
        env = {}
        spare = []
        star = star or any(a[0] == 'star' for a in args)
        pos = [a for a in args if a[0] != 'star']
        for p, a in zip(fi.params, pos):
            env[p] = a
        if star:
            starred = [a for a in args if a[0] == 'star']
            for p in fi.params:
                env.setdefault(p, TOP)
            if fi.vararg:
                env[fi.vararg] = coll('tuple', list(starred[0][1][2]), starred[0][1][3], starred[0][1][4]) \
                    if starred and len(pos) <= len(fi.params) and starred[0][1][0] == 'coll' and len(starred) == 1 and len(pos) == len(fi.params) \
                    else coll('tuple', [(TOP, False)], 0, INF)
        elif fi.vararg:
            env[fi.vararg] = coll('tuple', [], items=tuple(pos[len(fi.params):]))
        elif len(pos) > len(fi.params):
            self.boom(fr, st, 'builtins.TypeError', e)
        for k, v in kws.items():
            if k in fi.all_params:
                env[k] = v
        if fi.kwarg:
            env[fi.kwarg] = TOP
        for p, d in fi.defaults.items():
            if p not in env:
                f0 = Frame(fi, fi.module)
                env[p] = self.ev(f0, d, State())
        missing = [p for p in fi.params + fi.kwonly if p not in env]
        if missing:
            self.boom(fr, st, 'builtins.TypeError', e)
        sub = Frame(fi, fi.module)
        sub.yields = []
        if closure is not None:
            outer = dict(getattr(closure.fr, 'closure', None) or {})
            outer.update(st.env if closure.fr is fr else closure.env)
            sub.closure = outer
        self.stack.append((fi.qual, id(e)))
        body = fi.node.body
        try:
            end = self.block(sub, body, State(env, st.heap))
        finally:
            self.stack.pop()
        if end is not None:
            sub.returns.append((NONE, end))
        for x, s, w, ex in sub.raises:
            fr.raises.append((x, State(dict(st.env), s.heap), w, ex))
        fr.opaque += sub.opaque
        if fi.is_generator:
            return coll('gen', [(v, False) for v in sub.yields], 0, INF)
        if not sub.returns:
            raise Boom
        out, states = None, []
        for v, s in sub.returns:
            out = v if out is None else join(out, v)
            states.append(State({}, s.heap))
        st.heap = join_states(states).heap
        self.after_call(fr, e, fi, args, kws, st, sub, closure)
        return out

    def arguments(self, e):
        return [a for a in e.args if not isinstance(a, ast.Starred)] + [k.value for k in e.keywords] if isinstance(e, ast.Call) else []

    def forget_container(self, fr, x, st):
        if isinstance(x, (ast.Name, ast.Attribute)):
            try:
                v = self.ev(fr, x, st)
            except Boom:
                return
            if any(is_container(y) for y in alts(v)):
                self.forget(fr, x, st)

    def after_call(self, fr, e, fi, args, kws, st, sub, closure):
        """containers that were changed by the called function"""
        if isinstance(e, ast.Call):
            rebound, used = self.changes_of(fi)
            offset = len([a for a in args if a[0] != 'star']) - len([a for a in e.args if not isinstance(a, ast.Starred)])
            given = []
            if not any(isinstance(a, ast.Starred) for a in e.args):
                given = [(p, x) for p, x in zip(fi.params[offset:], e.args)] if offset >= 0 else []
            elif used:
                for a in e.args:
                    self.forget(fr, a.value if isinstance(a, ast.Starred) else a, st) \
                        if isinstance(a, ast.Starred) and isinstance(a.value, (ast.Name, ast.Attribute)) else self.forget_container(fr, a, st)
            given += [(k.arg, k.value) for k in e.keywords if k.arg]
            for p, x in given:
                if p not in used or not isinstance(x, (ast.Name, ast.Attribute)):
                    continue
                try:
                    v = self.ev(fr, x, st)
                except Boom:
                    continue
                if not any(is_container(y) for y in alts(v)):
                    continue
                if p in rebound:
                    self.forget(fr, x, st)
                    continue
                new = None
                for _, s in sub.returns:
                    w = s.env.get(p, TOP)
                    new = w if new is None else join(new, w)
                if new is not None and new != v:
                    self.store_back(fr, x, new, st)
        if closure is not None:
            for name in self.changes_of(fi)[1]:
                if name in st.env and name not in fi.all_params:
                    st.env[name] = self.blur(st.env[name])
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Nonlocal):
                    for name in n.names:
                        if name in st.env:
                            st.env[name] = TOP
        groups, _ = self.names_of(fr.fi)
        for key, group in groups.items():                # fields that have a local name and could have been changed by the call
            if '.' in key:
                o = st.env.get(key.split('.')[0])
                v = st.heap.get(o[2], {}).get(key.split('.', 1)[1]) if o is not None and o[0] == 'obj' else None
                if v is None or not any(is_container(x) for x in alts(v)):
                    continue
                for other in group:
                    w = st.env.get(other)
                    if w is not None and w != v and any(is_container(x) for x in alts(w)):
                        st.env[other] = join(w, v)

    def changes_of(self, fi):
        """names that are bound again; names of containers that can be changed in place, here or elsewhere"""
        r = self.changed.get(fi.qual)
        if r is None:
            rebound, used = set(), set()
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    rebound.add(n.id)
                elif isinstance(n, ast.Call):
                    base = n.func.value if isinstance(n.func, ast.Attribute) else None
                    for x in ([base] if base is not None else []) + self.arguments(n) + [a.value for a in n.args if isinstance(a, ast.Starred)]:
                        while isinstance(x, (ast.Subscript, ast.Attribute)):
                            x = x.value
                        if isinstance(x, ast.Name):
                            used.add(x.id)
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    x = n
                    while isinstance(x, (ast.Subscript, ast.Attribute)):
                        x = x.value
                    if isinstance(x, ast.Name):
                        used.add(x.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    used.add(n.target.id)
            groups, elements = self.names_of(fi)
            for name in list(groups):
                if any(x.split('.')[0] in used for x in groups[name]):
                    used.add(name)
            for name, sources in elements.items():
                if name in used:
                    used |= {x for x in sources if '.' not in x}
            r = self.changed[fi.qual] = rebound, used
        return r

    def plain(self, fi):
        """no decorator that could do something of its own"""
        for d in getattr(fi.node, 'decorator_list', ()):
            if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                continue
            name = self.prog.dotted(fi.module, d.func if isinstance(d, ast.Call) else d)
            if name not in ('builtins.property', 'functools.cached_property', 'builtins.staticmethod', 'builtins.classmethod', 'functools.lru_cache',
                            'functools.cache'):
                return False
        return True

    def builtin_type(self, fr, e, t, args, kws, star, st):
        name = t.replace('builtins.', '')
        cls = getattr(builtins, name, None) if t.startswith('builtins.') else None
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return ('exc', t)
        if star:
            fr.opaque += 1
            return TOP
        if name == 'type' and len(args) == 1:
            return self.lift(fr, lambda x: self.type_of(x), args[0])
        if name in ('list', 'tuple', 'set', 'frozenset', 'reversed', 'enumerate', 'dict', 'zip', 'range', 'bool', 'int', 'str', 'float', 'map', 'filter'):
            f = getattr(self, 'b_' + name, None)
            if f is None and name in ELEMENT_COPY:
                f = lambda *a: self.copy_of(fr, e, name, a[3], st)
            if f is not None:
                return f(fr, e, st, args, kws)
        if t == 'bidict.bidict':
            return ('map', 'bidict', coll('list', [(TOP, False)], 0, INF), coll('list', [(TOP, False)], 0, INF), None, None)
        if t == 'collections.defaultdict':
            u = coll('list', [(TOP, False)], 0, INF)
            return ('map', 'defaultdict', u, u, None, None)
        fr.opaque += 1
        self.run_callbacks(fr, e, args, st)
        return TOP

    def lift(self, fr, f, v):
        out = None
        for x in alts(v):
            try:
                w = f(x)
            except Boom:
                continue
            out = w if out is None else join(out, w)
        if out is None:
            raise Boom
        return out

    def type_of(self, x):
        if x[0] == 'num':
            return ('type', f'builtins.{x[1]}')
        if x == NONE:
            return ('type', 'builtins.NoneType')
        if x[0] == 'str':
            return ('type', 'builtins.str')
        if x[0] in ('coll', 'map'):
            if x[1] == 'gen':
                return TOP
            return ('type', {'ndarray': 'numpy.ndarray', 'bidict': 'bidict.bidict', 'defaultdict': 'collections.defaultdict'}.get(x[1], f'builtins.{x[1]}'))
        if x[0] == 'obj':
            return ('type', x[1])
        return TOP

    def copy_of(self, fr, e, kind, args, st):
        if not args:
            return coll(kind, [], items=())
        kind = 'list' if kind in ('sorted', 'reversed') else kind

        def one(x):
            if x[0] == 'coll':
                items = x[6]
                if kind in ('set', 'frozenset'):
                    if any(m and v[0] in ('coll', 'map') and v[1] in ('list', 'set', 'dict') for v, m in x[2]):
                        self.boom(fr, st, 'builtins.TypeError', e)
                    if x[1] in ('set', 'frozenset'):
                        return ('coll', kind) + x[2:]
                    if isinstance(items, tuple) and all(is_const(v) for v in items):
                        c = coll(kind, [], items=tuple(dict.fromkeys(items)))
                        return c[:5] + (('set', x[5]) if x[5] else None,) + c[6:]
                    lo, hi = 1 if x[3] else 0, x[4]
                    if isinstance(items, tuple) and len(items) <= 12:
                        apart, new = [], 0
                        for i, v in enumerate(items):
                            if all(self.eq3(v, w) is False for w in apart):
                                apart.append(v)
                            if not any(self.eq3(v, w) is True for w in items[:i]):
                                new += 1
                        lo, hi = len(apart), new
                    return coll(kind, x[2], lo, hi, ('set', x[5]) if x[5] else None)
                if x[1] in ('set', 'frozenset'):
                    return coll(kind, x[2], x[3], x[4], x[5])
                return ('coll', kind, x[2], x[3], x[4], x[5], items if isinstance(items, tuple) else None)
            if x[0] == 'map':
                return one(x[2])
            if x[0] == 'str':
                if x[1] is not None:
                    return coll(kind, [], items=tuple(('str', c) for c in x[1]))
                return coll(kind, [(('str', None), False)], 0, INF)
            if x[0] in ('num', 'none'):
                self.boom(fr, st, 'builtins.TypeError', e)
            if x[0] == 'obj' and self.binv_vector(x, st) is not None:
                return one(self.binv_vector(x, st))
            fr.opaque += 1
            return coll(kind, [(TOP, False)], 0, INF)
        return self.lift(fr, one, args[0])

    def b_reversed(self, fr, e, st, args, kws):
        v = self.copy_of(fr, e, 'list', args, st)
        return self.lift(fr, lambda x: x[:5] + (None, x[6][::-1] if isinstance(x[6], tuple) else None), v)

    def b_enumerate(self, fr, e, st, args, kws):
        v = self.copy_of(fr, e, 'list', args[:1], st)

        def one(x):
            if isinstance(x[6], tuple):
                return coll('gen', [], items=tuple(coll('tuple', [], items=(const(i), y)) for i, y in enumerate(x[6])))
            i = num('int', 0, x[4] - 1 if x[4] != INF else INF)
            return coll('gen', [(coll('tuple', [], items=(i, y)), m) for y, m in x[2]], x[3], x[4])
        return self.lift(fr, one, v)

    def b_zip(self, fr, e, st, args, kws):
        fr.opaque += 1
        return coll('gen', [(TOP, False)], 0, INF)

    def b_dict(self, fr, e, st, args, kws):
        if not args and not kws:
            return ('map', 'dict', coll('list', [], items=()), coll('list', [], items=()), (), None)
        if args and args[0][0] == 'map':
            return ('map', 'dict') + args[0][2:]
        if args and args[0][0] in ('num', 'none'):
            self.boom(fr, st, 'builtins.TypeError', e)
        fr.opaque += 1
        u = coll('list', [(TOP, False)], 0, INF)
        return ('map', 'dict', u, u, None, None)

    def b_range(self, fr, e, st, args, kws):
        for a in args:
            for x in alts(a):
                if x[0] in ('str', 'none', 'coll', 'map') or x[0] == 'num' and x[1] == 'float':
                    if len(alts(a)) == 1:
                        self.boom(fr, st, 'builtins.TypeError', e)
        lo, hi = const(0), args[0] if args else TOP
        if len(args) > 1:
            lo, hi = args[0], args[1]
        if len(args) > 2 or lo[0] != 'num' or hi[0] != 'num':
            return coll('range', [(INT, False)], 0, INF)
        a, b = lo[2], hi[3] - 1
        n_lo, n_hi = max(0, hi[2] - lo[3]), max(0, hi[3] - lo[2])
        if n_hi == 0:
            return coll('range', [], items=())
        origin = None
        if len(args) == 1 and hi[4] is not None:
            origin = ('range', hi[4])
        if n_lo == n_hi and n_hi <= 8:
            c = coll('range', [], items=tuple(const(i) for i in range(int(lo[2]), int(hi[2]))))
            return c[:5] + (origin,) + c[6:]
        exact = lo[2] == lo[3] and hi[2] == hi[3]
        return ('coll', 'range', frozenset([(num('int', a, b), n_lo > 0)]), n_lo, n_hi, origin, 'span' if exact else None)

    def b_bool(self, fr, e, st, args, kws):
        return truth(self.bool(args[0])) if args else FALSE

    def b_int(self, fr, e, st, args, kws):
        if len(args) != 1:
            fr.opaque += 1
            return INT

        def one(x):
            if x[0] == 'num' and x[1] != 'float':
                return num('int', x[2], x[3])
            if x[0] == 'num':
                return num('int', x[2] if x[2] == -INF else int(x[2]), x[3] if x[3] == INF else int(x[3]))
            if x[0] == 'str' and x[1] is not None:
                try:
                    return const(int(x[1]))
                except ValueError:
                    self.boom(fr, st, 'builtins.ValueError', e)
            if x[0] in ('none', 'coll', 'map') and x[1:2] != ('ndarray',):
                self.boom(fr, st, 'builtins.TypeError', e)
            fr.opaque += 1
            return INT
        return self.lift(fr, one, args[0])

    def b_str(self, fr, e, st, args, kws):
        if args and args[0][0] == 'obj':
            fr.opaque += 1
        return ('str', None)

    def external(self, fr, e, name, args, kws, star, st):
        short = name.replace('builtins.', '') if name.startswith('builtins.') else None
        if short and not star:
            f = getattr(self, 'x_' + short, None)
            if f is not None:
                return f(fr, e, st, args, kws)
        fr.opaque += 1
        self.run_callbacks(fr, e, list(args) + list(kws.values()), st)
        if name.split('.')[0] in ('heapq', 'bisect', 'random', 'operator') or name in ('builtins.next', 'builtins.setattr'):
            for x in self.arguments(e):
                self.forget_container(fr, x, st)
        if name in ('numpy.array', 'numpy.zeros', 'numpy.ones', 'numpy.dot'):
            return coll('ndarray', [(TOP, False)], 0, INF)
        return TOP

    def x_len(self, fr, e, st, args, kws):
        def one(x):
            if x[0] in ('coll', 'map'):
                c = x[2] if x[0] == 'map' else x
                if x[1] == 'gen':
                    self.boom(fr, st, 'builtins.TypeError', e)
                return num('int', c[3], c[4], c[5])
            if x[0] == 'str':
                return const(len(x[1])) if x[1] is not None else num('int', 0, INF)
            if x[0] in ('num', 'none'):
                self.boom(fr, st, 'builtins.TypeError', e)
            if x[0] == 'obj':
                m = self.member(x, '__len__')
                if isinstance(m, FuncInfo):
                    return self.call_fi(fr, e, m, [x], {}, st)
            fr.opaque += 1
            return num('int', 0, INF)
        return self.lift(fr, one, args[0])

    def x_sorted(self, fr, e, st, args, kws):
        v = self.copy_of(fr, e, 'list', args[:1], st)

        def one(x):
            kinds = {y[0] for y, m in x[2] if m}
            if len(kinds) > 1 and kinds <= {'num', 'str', 'none', 'coll'} and not kws:
                self.boom(fr, st, 'builtins.TypeError', e)
            o = x[5]
            items = None
            if isinstance(x[6], tuple) and all(y[0] == 'num' and y[2] == y[3] for y in x[6]) and not kws:
                items = tuple(sorted(x[6], key=lambda y: y[2]))
            if o and o[0] not in ('set', 'sorted', 'range'):
                o = ('sorted', o)
            return ('coll', 'list', x[2], x[3], x[4], o, items)
        return self.lift(fr, one, v)

    def quant(self, fr, e, st, args, want):
        """all (want True) / any (want False)"""
        v = self.copy_of(fr, e, 'list', args, st)
        res = set()
        for x in alts(v):
            t = want
            for y, m in x[2]:
                b = self.bool(y)
                if b is not want:
                    if b is (not want) and m:
                        t = not want
                        break
                    t = None
            res.add(t)
        return truth(res.pop() if len(res) == 1 else None)

    def x_all(self, fr, e, st, args, kws):
        return self.quant(fr, e, st, args, True)

    def x_any(self, fr, e, st, args, kws):
        return self.quant(fr, e, st, args, False)

    def x_max(self, fr, e, st, args, kws, low=False):
        if len(args) > 1:
            pairs = [(a, True) for a in args]
        else:
            v = self.copy_of(fr, e, 'list', args, st)
            if v[0] != 'coll':
                fr.opaque += 1
                return TOP
            if v[4] == 0:
                if kws:
                    return kws.get('default', TOP)
                self.boom(fr, st, 'builtins.ValueError', e)
            if v[3] == 0 and kws:
                fr.opaque += 1
                return TOP
            pairs = list(v[2])
        kinds = {x[0] for x, m in pairs if m}
        if len(kinds) > 1 and kinds <= {'num', 'str', 'none', 'coll'}:
            self.boom(fr, st, 'builtins.TypeError', e)
        if any(x[0] != 'num' for x, m in pairs) or 'key' in kws:
            fr.opaque += 1
            return TOP
        kind = 'float' if any(x[1] == 'float' for x, m in pairs) else 'int'
        if kind == 'float':
            return TOP
        sure = [x for x, m in pairs if m]
        if low:
            lo = min(x[2] for x, m in pairs)
            hi = min(x[3] for x in sure) if sure else max(x[3] for x, m in pairs)
        else:
            lo = max(x[2] for x in sure) if sure else min(x[2] for x, m in pairs)
            hi = max(x[3] for x, m in pairs)
        return num('int', lo, hi)

    def x_min(self, fr, e, st, args, kws):
        return self.x_max(fr, e, st, args, kws, True)

    def x_sum(self, fr, e, st, args, kws):
        v = self.copy_of(fr, e, 'list', args[:1], st)
        if v[0] == 'coll' and len(args) == 1 and isinstance(v[6], tuple) and all(x[0] == 'num' and x[1] != 'float' for x in v[6]):
            return num('int', sum(x[2] for x in v[6]), sum(x[3] for x in v[6]))
        if v[0] == 'coll' and v[2] and all(x[0] == 'num' and x[1] != 'float' and x[2] >= 0 for x, m in v[2]):
            return num('int', sum(x[2] for x, m in v[2] if m), INF)
        fr.opaque += 1
        return TOP

    def x_abs(self, fr, e, st, args, kws):
        x = args[0]
        if x[0] == 'num' and x[1] != 'float' and x[2] == x[3]:
            return num('int', abs(x[2]), abs(x[2]))
        if x[0] in ('str', 'none', 'coll', 'map'):
            self.boom(fr, st, 'builtins.TypeError', e)
        fr.opaque += 1
        return TOP

    def x_isinstance(self, fr, e, st, args, kws):
        ts = args[1][6] if args[1][0] == 'coll' and isinstance(args[1][6], tuple) else alts(args[1])
        res = set()
        for x in alts(args[0]):
            t = self.type_of(x)
            if t == TOP or any(y[0] != 'type' for y in ts):
                res.add(None)
                continue
            names = [t[1]]
            if t[1] in self.prog.classes:
                names += [c.qual for c in self.prog.classes[t[1]].mro()]
            if t[1] == 'builtins.bool':
                names.append('builtins.int')
            if t[1] in ('builtins.int', 'builtins.bool', 'builtins.float'):
                names.append('numbers.Number')
            if t[1] in ('bidict.bidict', 'collections.defaultdict'):
                names.append('builtins.dict') if 'default' in t[1] else None
            res.add(any(y[1] in names or y[1] == 'builtins.object' for y in ts))
        return truth(res.pop() if len(res) == 1 else None)

    def x_setattr(self, fr, e, st, args, kws):
        o, n, v = args
        if o[0] == 'obj' and n[0] == 'str' and n[1] is not None:
            st.heap.setdefault(o[2], {})[n[1]] = v
        return NONE

    def x_hasattr(self, fr, e, st, args, kws):
        return BOOL

    def x_getattr(self, fr, e, st, args, kws):
        if args[1][0] == 'str' and args[1][1] is not None and args[0][0] in ('obj',):
            return self.attr(fr, e, args[0], args[1][1], st)
        fr.opaque += 1
        return TOP

    def x_callable(self, fr, e, st, args, kws):
        return BOOL

    def x_iter(self, fr, e, st, args, kws):
        return self.copy_of(fr, e, 'list', args[:1], st)

    def x_print(self, fr, e, st, args, kws):
        return NONE

    def method(self, fr, e, o, name, args, kws, st):
        k = o[0]
        place = e.func.value
        if k == 'num':
            if name == 'bit_length' and o[2] == o[3] and o[1] != 'float':
                return const(int(o[2]).bit_length())
            return num('int', 0, INF)
        if k == 'str':
            if o[1] is not None and name in ('replace', 'strip', 'lower', 'upper') and all(a[0] == 'str' and a[1] is not None for a in args):
                return ('str', getattr(o[1], name)(*[a[1] for a in args]))
            if name in ('split', 'splitlines', 'rsplit'):
                return coll('list', [(('str', None), False)], 0, INF)
            if name in ('count', 'index', 'find'):
                fr.opaque += 1
                return num('int', -1, INF)
            if name.startswith('is') or name in ('startswith', 'endswith'):
                return BOOL
            return ('str', None)
        if k == 'map':
            if name == 'keys':
                c = o[2]
                return ('coll', 'dict_keys', c[2], c[3], c[4], ('keys', o[5]) if o[5] else None, c[6])
            if name == 'values':
                c = o[3]
                return ('coll', 'dict_values', c[2], c[3], c[4], ('values', o[5]) if o[5] else None, c[6])
            if name == 'items':
                if o[4] is not None:
                    return coll('dict_items', [], items=tuple(coll('tuple', [], items=(a, b)) for a, b in o[4]))
                pairs = [(coll('tuple', [], items=(a, b)), False) for a, m in o[2][2] for b, n in o[3][2]]
                if len(o[2][2]) == 1 or len(o[3][2]) == 1:
                    ms = {a: m for a, m in o[2][2]}
                    ns = {b: n for b, n in o[3][2]}
                    pairs = [(coll('tuple', [], items=(a, b)), ms[a] and len(ns) == 1 or ns[b] and len(ms) == 1) for a in ms for b in ns]
                return coll('dict_items', pairs, o[2][3], o[2][4])
            if name == 'copy':
                return o
            if name == 'get':
                if o[4] is not None and args and is_const(args[0]):
                    d = dict(o[4])
                    return d.get(args[0], args[1] if len(args) > 1 else NONE)
                return TOP
            self.store_back(fr, place, self.blur(o), st)
            fr.opaque += 1
            return TOP
        # collections
        if name == 'copy':
            return o
        if name in ('append', 'add', 'appendleft') and len(args) == 1:
            if isinstance(o[6], tuple) and name == 'append' and o[1] == 'list' and len(o[6]) < 6 and not self.in_loop(e, fr):
                new = coll(o[1], [], items=o[6] + (args[0],))
            else:
                if name == 'add' and args[0][0] in ('coll', 'map') and args[0][1] in ('list', 'set', 'dict'):
                    self.boom(fr, st, 'builtins.TypeError', e)
                d = dict(o[2])
                d[args[0]] = True
                new = coll(o[1], d.items(), max(1, o[3]) if o[1] == 'set' else o[3] + 1, o[4] + 1)
            self.store_back(fr, place, new, st)
            return NONE
        sets = {'difference': ast.Sub, 'intersection': ast.BitAnd, 'union': ast.BitOr, 'symmetric_difference': ast.BitXor}
        if o[1] in ('set', 'frozenset') and name in sets:
            out = o
            for a in args:
                b = self.copy_of(fr, e, 'set', [a], st)
                out = self.setop(sets[name], out, b) if b[0] == 'coll' else coll('set', [(TOP, False)], 0, INF)
            return out
        if o[1] in ('set', 'frozenset') and name in ('issubset', 'issuperset', 'isdisjoint') and args:
            b = self.copy_of(fr, e, 'set', args[:1], st)
            if b[0] != 'coll' or name == 'isdisjoint':
                return BOOL
            return truth(self.issubset(o, b) if name == 'issubset' else self.issubset(b, o))
        if name == 'count' and args:
            if isinstance(o[6], tuple):
                ts = [self.eq3(x, args[0]) if args[0] != NONE or x[0] != 'obj' else False for x in o[6]]
                return num('int', sum(t is True for t in ts), sum(t is not False for t in ts))
            return num('int', 0, INF)
        if name == 'index':
            fr.opaque += 1
            return num('int', 0, INF)
        if o[1] == 'ndarray':
            fr.opaque += 1
            return TOP
        if name in ('sort', 'reverse'):
            self.store_back(fr, place, o[:5] + (None, None), st)
            return NONE
        if name in ('pop', 'popleft'):
            fr.opaque += 1
            out = TOP
            for i, (v, m) in enumerate(o[2]):
                out = v if i == 0 else join(out, v)
            self.store_back(fr, place, coll(o[1], [(v, False) for v, m in o[2]], 0, o[4]), st)
            return out
        self.store_back(fr, place, self.blur(o), st)
        fr.opaque += 1
        return TOP

    def in_loop(self, e, fr):
        for n in ast.walk(fr.fi.node):
            if isinstance(n, (ast.For, ast.While)) and n.lineno <= e.lineno <= (n.end_lineno or n.lineno):
                return True
        return False


def same(a, b):
    return a.env == b.env and a.heap == b.heap


def widen(old, new):
    def wide(v, w):
        if v == w:
            return w
        if v is not None and v[0] == w[0] == 'num' and v[1] == w[1]:
            return num(w[1], w[2] if w[2] == v[2] else -INF, w[3] if w[3] == v[3] else INF)
        if v is not None and v[0] == w[0] == 'coll' and v[1] == w[1] and v[2] == w[2]:
            return coll(w[1], [(x, False) for x, m in w[2]], 0, INF)
        return TOP
    for k, w in list(new.env.items()):
        if old.env.get(k) != w:
            new.env[k] = wide(old.env.get(k), w)
    for i, d in new.heap.items():
        o = old.heap.get(i, {})
        for k, w in list(d.items()):
            if o.get(k) != w:
                d[k] = wide(o.get(k), w)


class Result:
    def __init__(self):
        self.returns = False
        self.raises = {}          # exception -> (where, explicit)
        self.unknown = None


def run(prog, target, args, kws, facts, setup=None, budget=BUDGET):
    """target: FuncInfo or ClassInfo"""
    it = Interp(prog, facts, budget)
    res = Result()
    top = FuncInfo(next(iter(prog.modules.values())), ast.parse('def case(): pass').body[0], 'case')
    fr = Frame(top, top.module)
    st = State()
    e = ast.parse('case()').body[0].value
    if setup:
        for oid, fields in setup.items():
            st.heap[oid] = dict(fields)
    sys.setrecursionlimit(20000)
    try:
        if isinstance(target, ClassInfo):
            it.construct(fr, e, target, list(args), kws, st)
        else:
            it.call_fi(fr, e, target, list(args), kws, st)
        res.returns = True
    except Boom:
        pass
    except GiveUp as g:
        res.unknown = str(g)
    if it.unknown_raise:
        res.unknown = res.unknown or f'something unknown can be raised ({it.unknown_raise})'
    for x, s, w, ex in fr.raises:
        if x not in res.raises or ex:
            res.raises[x] = (w, ex)
    res.steps = it.steps
    return res


# ---------------------------------------------------------------------------------------------------------------------
def find(prog, target):
    """'perm.Perm', 'perm.Perm.sequence' or 'a.log_int' (a name of a namespace)"""
    parts = target.split('.')
    for i in range(len(parts), 0, -1):
        m = '.'.join(['discretehelpers'] + parts[:i])
        if m in prog.ns and i < len(parts) and parts[i] in prog.ns[m]:
            r = prog.entity(prog.ns[m][parts[i]])
            for name in parts[i + 1:]:
                r = r.lookup(name) if isinstance(r, ClassInfo) else None
            if isinstance(r, (FuncInfo, ClassInfo)):
                return r
    raise AnalysisError(f'{target} not found')


def realise(prog, v, setup):
    """objects of a case get a place in the heap"""
    if v[0] != 'new':
        return v
    cs = [c for c in prog.classes.values() if c.name == v[1] and not c.is_exception]
    if len(cs) != 1:
        raise AnalysisError(f'class {v[1]} not found')
    oid = ('case', len(setup))
    setup[oid] = {k: realise(prog, x, setup) for k, x in v[2].items()}
    return ('obj', cs[0].qual, oid)


def judge(prog, target, what, exc, args, kws, facts, me, budget=BUDGET):
    setup = {}
    t = find(prog, target)
    args = [realise(prog, a, setup) for a in ([me] if me is not None else []) + args]
    kws = {k: realise(prog, v, setup) for k, v in kws.items()}
    r = run(prog, t, args, kws, facts, setup, budget)
    lib = [x for x, (w, ex) in r.raises.items() if x in prog.classes or ex and x != 'builtins.AssertionError']
    if exc == 'valid':
        if r.unknown is None and not r.returns and r.raises:
            return 'refuted', r
        return ('proved' if r.returns and not r.raises and r.unknown is None else 'undecided'), r
    def is_it(x):
        return any(a.rsplit('.', 1)[-1] == exc for a in prog.exc_ancestors(x))
    hit = [x for x, (w, ex) in r.raises.items() if is_it(x) and ex]
    if hit:
        return ('proved' if not r.returns and len(lib) == len(r.raises) and r.unknown is None else 'possible'), r
    if not r.returns and r.raises and r.unknown is None and len(lib) == len(r.raises):
        return 'other', r
    return ('undecided' if r.unknown else 'refuted'), r


MIN_CASES = 900


def c10():
    from .badargs import cases
    prog = Program()
    findings, n, steps = [], {}, 0
    undecided = []
    for case in cases():
        target, what, exc = case[:3]
        verdict, r = judge(prog, *case, budget=BUDGET if steps < ALL_CASES else SHORT)
        steps += r.steps
        key = ('valid ' if exc == 'valid' else '') + verdict
        n[key] = n.get(key, 0) + 1
        name = f'{target}: {what}'
        t = find(prog, target)
        where = (t.lookup('__init__') if isinstance(t, ClassInfo) and isinstance(t.lookup('__init__'), FuncInfo) else t).where() \
            if not isinstance(t, ClassInfo) or isinstance(t.lookup('__init__'), FuncInfo) else t.module.path
        if verdict == 'undecided':
            undecided.append(name)
        if verdict != 'refuted':
            continue
        short = sorted(x.rsplit('.', 1)[-1] for x in r.raises)
        if exc == 'valid':
            findings.append(Finding('valid-rejected', name, f'{target} rejects a valid argument ({what}) with {", ".join(short)}', where))
        else:
            end = 'is accepted' if r.returns else f'ends with {", ".join(short) or "nothing"}'
            findings.append(Finding('not-rejected', name, f'{target} with {what} {end}; {exc} cannot be raised', where))
    total = sum(n.values())
    if total < MIN_CASES:
        raise AnalysisError(f'only {total} cases')
    if n.get('proved', 0) < 150:
        raise AnalysisError(f'only {n.get("proved", 0)} rejections are understood')
    return findings, dict(
        cases=total, verdicts=n, steps=steps, undecided=undecided,
        rule='a class of arguments that describes no object can reach the documented exception; a class of valid arguments is not certainly rejected',
        explanation='Obligations: (constructor, converter or validating helper) x (class of arguments, with facts such as "has a repeated entry"). '
                    '"proved": every way ends with an exception of the library. "possible": the documented exception can be raised. "other": certainly '
                    'rejected with another exception of the library. "undecided": something unknown can be raised, or too long.')

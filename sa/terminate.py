"""
C11: every call terminates.

A loop (or a recursion) is described by its ways round: the conditions that were decided, and the new value of each variable
in terms of the old ones (value numbers).  When a way round leaves everything unchanged that its conditions depend on,
and the conditions do not contradict each other then, it is taken for ever.
"""
import ast
import re
import sys

from .flowchecks import Run
from .model import ClassInfo, FuncInfo, own_nodes
from .program import AnalysisError
from .report import Finding

MAX_PATHS = 3000
MAX_ROUNDS = 4
MAX_PAIRS = 20
MIN_LOOPS = 10
MIN_FOR = 300
MIN_PURE = 200

PURE = {'len', 'sum', 'sorted', 'range', 'set', 'list', 'tuple', 'dict', 'frozenset', 'min', 'max', 'abs', 'int', 'str', 'bool', 'type', 'isinstance',
        'enumerate', 'zip', 'reversed', 'any', 'all', 'combinations', 'permutations', 'product', 'have', 'float', 'repr', 'bin', 'divmod', 'round', 'pow',
        'hasattr', 'chain', 'map', 'filter', 'hash', 'ord', 'chr', 'Fraction', 'sqrt', 'gcd', 'factorial'}
TOTAL = {'len', 'set', 'list', 'tuple', 'sorted', 'sum', 'range', 'type', 'isinstance', 'enumerate', 'zip', 'any', 'all', 'have', 'str', 'repr', 'bool',
         'combinations', 'permutations', 'product', 'reversed', 'abs', 'hasattr'}
GROW = {'append', 'extend', 'insert', 'add', 'update', 'appendleft', 'setdefault'}
SHRINK = {'pop', 'remove', 'clear', 'popleft', 'popitem', 'discard', 'sort', 'reverse', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
READ = {'copy', 'keys', 'values', 'items', 'index', 'count', 'get', 'union', 'intersection', 'difference', 'issubset', 'issuperset', 'join', 'split',
        'replace', 'startswith', 'endswith', 'strip', 'zfill', 'format', 'bit_length', 'symmetric_difference', 'transpose', 'isdigit', 'tolist', 'all', 'any', 'astype', 'dot'}
LIBRARIES = {'sympy', 'math', 'numpy', 'itertools', 'functools', 'fractions', 'operator', 'bitarray', 'collections'}
ENDLESS = {'itertools.count', 'itertools.cycle', 'itertools.repeat'}


class TooMuch(Exception):
    pass


def c(v):
    return ('c', v)


def is_int(v):
    return v[0] == 'c' and isinstance(v[1], int)


# -- value numbers ------------------------------------------------------------------------------------------------------
def plus(x, k):
    if k == 0:
        return x
    if is_int(x):
        return c(x[1] + k)
    if x[0] == '+k':
        return plus(x[1], x[2] + k)
    return ('+k', x, k)


def base(x):
    return (x[1], x[2]) if x[0] == '+k' else (x, 0)


def binop(op, x, y, positive=lambda v: False):
    if is_int(x) and is_int(y) and not isinstance(x[1], bool):
        a, b = x[1], y[1]
        try:
            if op == 'Add':
                return c(a + b)
            if op == 'Sub':
                return c(a - b)
            if op == 'Mult' and abs(a) < 10**6 and abs(b) < 10**6:
                return c(a * b)
            if op == 'FloorDiv':
                return c(a // b)
            if op == 'Mod':
                return c(a % b)
            if op == 'RShift':
                return c(a >> b)
        except (ZeroDivisionError, ValueError):
            pass
    if op == 'Add' and is_int(y):
        return plus(x, y[1])
    if op == 'Add' and is_int(x):
        return plus(y, x[1])
    if op == 'Sub' and is_int(y):
        return plus(x, -y[1])
    if op == 'Sub':
        (p, i), (q, j) = base(x), base(y)
        if p == q:
            return c(i - j)
    if op in ('Mult', 'FloorDiv') and y == c(1):
        return x
    if op == 'Mult' and x == c(1):
        return y
    if op == 'Mult' and c(0) in (x, y):
        return c(0)
    if op == 'Mod' and y == c(1):
        return c(0)
    if op in ('RShift', 'LShift') and y == c(0):
        return x
    if op in ('FloorDiv', 'Mod') and x == c(0):
        return c(0)
    if op == 'FloorDiv' and x == c(-1) and positive(y):
        return c(-1)
    if op == 'RShift' and x in (c(0), c(-1)):
        return x
    return ('op', op, x, y)


def compare(op, x, y):
    """(atom, negated): the comparison is the truth of the atom, or its negation."""
    if isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn)):
        a, n = compare({ast.NotEq: ast.Eq(), ast.IsNot: ast.Is(), ast.NotIn: ast.In()}[type(op)], x, y)
        return a, not n
    if isinstance(op, ast.Gt):
        return compare(ast.Lt(), y, x)
    if isinstance(op, ast.LtE):
        a, n = compare(ast.Lt(), y, x)
        return a, not n
    if isinstance(op, ast.GtE):
        a, n = compare(ast.Lt(), x, y)
        return a, not n
    if not isinstance(op, ast.Is):
        while x[0] == 'copy':
            x = x[1]
        while y[0] == 'copy':
            y = y[1]
    (p, i), (q, j) = base(x), base(y)
    if isinstance(op, (ast.Eq, ast.Is)):
        if x == y:
            return c(True), False
        if x == c(None) and something(y) or y == c(None) and something(x):
            return c(False), False
        if p == q or x[0] == 'c' and y[0] == 'c':
            return c(x[0] == 'c' and y[0] == 'c' and x[1] == y[1]), False
        for a, b in ((x, y), (y, x)):
            if a == c(0) and b[:2] == ('call', ('g', 'len')):
                return b[2], True
        return ('==',) + tuple(sorted((x, y), key=repr)), False
    if isinstance(op, ast.Lt):
        if p == q:
            return c(i < j), False
        if x[0] == 'c' and y[0] == 'c':
            try:
                return c(x[1] < y[1]), False
            except TypeError:
                pass
        if is_int(y) and y[1] <= 0 and natural(x):
            return c(False), False
        if x == c(0) and y[:2] == ('call', ('g', 'len')):
            return y[2], False
        if y == c(1) and x[:2] == ('call', ('g', 'len')):
            return x[2], True
        return ('<', x, y), False
    if y[0] in ('put', 'mut') and y[2:] in (('add', x), ('append', x)):
        return c(True), False
    if y[0] == 'put' and y[2:] == ('discard', x):
        return c(False), False
    return ('in', x, y), False


def size(x):
    if x[0] in ('List', 'Tuple') and not any(y[0] == 'star' for y in x[1:]):
        return c(len(x) - 1)
    if x[:2] == ('call', ('g', 'range')) and all(is_int(y) for y in x[2:]) and x[4:] != (c(0),):
        return c(len(range(*[y[1] for y in x[2:]])))
    if x[0] == 'copy' or x[0] == 'call' and x[1] in (('g', 'enumerate'), ('g', 'sorted'), ('g', 'list'), ('g', 'tuple')) and len(x) == 3:
        return size(x[-1])
    return ('call', ('g', 'len'), x)


def empty(x):
    n = size(x)
    return c(n[1] == 0) if n[0] == 'c' else ('not', n[2])


def truth(x):
    """The value as a condition."""
    if x[0] in ('List', 'Tuple', 'Set', 'dict') and not any(isinstance(y, tuple) and y[0] == 'star' for y in x[1:]):
        return c(len(x) > 1)
    n = size(x)
    if n[0] == 'c':
        return c(n[1] > 0)
    return n[2] if x[0] in ('copy', 'call') else x


def plain(x):
    """Certainly a built-in container."""
    while x[0] in ('mut', 'put', 'store', 'later', 'copy') and isinstance(x[1], tuple):
        x = x[1]
    return x[0] in ('List', 'Tuple', 'Set', 'dict', 'comp') or x[0] == 'call' and x[1] in (('g', 'set'), ('g', 'list'), ('g', 'dict'), ('g', 'sorted'))


def something(x):
    """Certainly not None."""
    return x[0] in ('op', '+k', 'List', 'Tuple', 'Set', 'dict', 'comp', 'copy', 'str') or x[0] == 'call' and x[1][0] == 'g' and x[1][1] in TOTAL


def natural(x):
    """A number that is not negative."""
    return is_int(x) and x[1] >= 0 or x[:2] == ('call', ('g', 'len')) or x[0] == 'size' or x[0] == 'op' and x[1] in ('Add', 'Mult') and natural(x[2]) and natural(x[3]) \
        or x[0] == '+k' and x[2] >= 0 and natural(x[1])


def load(b, k):
    if b[0] == 'mut' and b[2] == 'append' and k == c(-1):
        return b[3]
    while b[0] == 'store':
        if b[2] == k:
            return b[3]
        (p, i), (q, j) = base(b[2]), base(k)
        if (p == q and i != j) or (b[2][0] == 'c' and k[0] == 'c' and b[2] != k):
            b = b[1]
            continue
        break
    return ('load', b, k)


def store(b, k, v):
    if b[0] == 'store' and b[2] == k:
        b = b[1]
    return ('store', b, k, v)


def subst(v, env, memo, positive):
    """The value in terms of the state before `env` was reached."""
    if v[0] == 'v':
        return env.get(v[1], v)
    if v[0] == 'entry':
        return env.get(v, v)
    if v[0] == 'c':
        return v
    got = memo.get(v)
    if got is not None:
        return got
    s = lambda x: subst(x, env, memo, positive) if isinstance(x, tuple) and x and isinstance(x[0], str) else \
        tuple(s(y) for y in x) if isinstance(x, tuple) else x
    parts = tuple(s(x) for x in v[1:])
    if v[0] == '+k':
        r = plus(parts[0], v[2])
    elif v[0] == 'op':
        r = binop(v[1], s(v[2]), s(v[3]), positive)
    elif v[0] == 'in':
        r = compare(ast.In(), *parts)[0]
    elif v[0] in ('<', '=='):
        a, n = compare(ast.Lt() if v[0] == '<' else ast.Eq(), *parts)
        r = negate(truth(a)) if n else a
    elif v[0] == 'load':
        r = load(*parts)
    elif v[0] == 'store':
        r = store(*parts)
    elif v[0] == 'put':
        r = put(parts[0], v[1] if False else parts[1], parts[2])
    elif v[0] == 'not':
        r = negate(parts[0])
    elif v[:2] == ('call', ('g', 'len')) and len(v) == 3:
        r = size(parts[1])
    else:
        r = (v[0],) + parts
    memo[v] = r
    return r


def put(b, how, x):
    """`set.add`, `set.discard`: doing it twice is doing it once."""
    if b[0] == 'put' and b[2] == how and b[3] == x:
        return b
    return ('put', b, how, x)


def negate(a):
    return c(not a[1]) if a[0] == 'c' else ('not', a)


def inside(v, part):
    if v == part:
        return True
    return isinstance(v, tuple) and any(inside(x, part) for x in v if isinstance(x, tuple))


# -- ways round ---------------------------------------------------------------------------------------------------------
class State:
    __slots__ = ('env', 'conds', 'obs', 'steps')

    def __init__(self, env, conds=(), obs=(), steps=()):
        self.env, self.conds, self.obs, self.steps = env, conds, obs, steps

    def copy(self):
        return State(dict(self.env), self.conds, self.obs, self.steps)

    def cond(self, atom, want):
        """None if that is impossible."""
        atom = truth(atom)
        while atom[0] == 'not':
            atom, want = truth(atom[1]), not want
        if atom[0] == 'c':
            return self if bool(atom[1]) == want else None
        if (atom, not want) in self.conds:
            return None
        s = self.copy()
        if (atom, want) not in s.conds:
            s.conds = s.conds + ((atom, want),)
        return s


class Walker:
    def __init__(self, an, fi, first=False):
        self.an, self.fi = an, fi
        self.first = first                  # follow `for` loops with their first value
        self.count = 0
        self.scope = fi.node                # the loop that is analysed
        self.target = None                  # recursion: the function that is called again
        self.hits = []
        self.elifs = {}
        self.locals = an.locals(fi)
        self.inner = {n.name: n for n in ast.walk(fi.node) if isinstance(n, ast.FunctionDef) and n is not fi.node}
        self.alias = an.aliases(fi)

    # values
    def var(self, name, s):
        return s.env.get(name, ('v', name))

    def touch(self, v, s, what, name=None):
        """The object with this value is changed in place."""
        root = v
        while root[0] in ('load', 'elem', 'attr', 'store', 'mut', 'put') and len(root) > 1 and isinstance(root[1], tuple):
            root = root[1]
        names = {n for n in set(s.env) | self.locals if n != '$'
                 and (self.var(n, s) == v or self.var(n, s) == root or inside(self.var(n, s), v) or inside(v, self.var(n, s)) and self.var(n, s)[0] != 'c')}
        for n in list(names):
            names |= self.alias.get(n, set())
        if name:
            names |= {name} | self.alias.get(name, set())
        for n in names:
            old = self.var(n, s)
            if old[0] == 'c' and n != name:
                continue
            s.env[n] = what(old) if n == name or old == v else ('mut', old, ('other', v))

    def eval(self, e, s):
        if isinstance(e, ast.Constant):
            return c(e.value)
        if isinstance(e, ast.Name):
            if e.id in self.locals or e.id in s.env:
                return self.var(e.id, s)
            return ('g', e.id)
        if isinstance(e, ast.Attribute):
            key = ast.unparse(e)
            if key in s.env:
                return s.env[key]
            b = self.eval(e.value, s)
            return ('attr', b, e.attr)
        if isinstance(e, ast.BinOp):
            x, y = self.eval(e.left, s), self.eval(e.right, s)
            op = type(e.op).__name__
            if op in ('FloorDiv', 'Mod', 'Div') and not (y[0] == 'c' and y[1]) and not self.an.positive(self.fi, y):
                s.obs = s.obs + (y,)
            return binop(op, x, y, lambda v: self.an.positive(self.fi, v))
        if isinstance(e, ast.UnaryOp):
            v = self.eval(e.operand, s)
            if isinstance(e.op, ast.USub) and is_int(v):
                return c(-v[1])
            return negate(v) if isinstance(e.op, ast.Not) else ('op', type(e.op).__name__, v, c(0))
        if isinstance(e, ast.Compare):
            x = self.eval(e.left, s)
            parts = []
            for op, r in zip(e.ops, e.comparators):
                y = self.eval(r, s)
                a, n = compare(op, x, y)
                parts.append(negate(a) if n else a)
                x = y
            return parts[0] if len(parts) == 1 else ('and',) + tuple(parts)
        if isinstance(e, ast.BoolOp):
            return ('and' if isinstance(e.op, ast.And) else 'or',) + tuple(self.eval(x, s) for x in e.values)
        if isinstance(e, ast.IfExp):
            return ('if', self.eval(e.test, s), self.eval(e.body, s), self.eval(e.orelse, s))
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return (type(e).__name__,) + tuple(self.eval(x, s) for x in e.elts)
        if isinstance(e, ast.Starred):
            return ('star', self.eval(e.value, s))
        if isinstance(e, ast.Dict):
            return ('dict',) + tuple(self.eval(x, s) for x in e.keys + e.values if x is not None)
        if isinstance(e, ast.Subscript):
            b, k = self.eval(e.value, s), self.eval(e.slice, s)
            if k == ('slice', c(None), c(None), c(None)):
                return ('copy', b)
            r = load(b, k)
            s.obs = s.obs + (r,)
            return r
        if isinstance(e, ast.Slice):
            return ('slice',) + tuple(self.eval(x, s) if x is not None else c(None) for x in (e.lower, e.upper, e.step))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            t = s.copy()
            for g in e.generators:
                it = self.eval(g.iter, t)
                self.bind(g.target, self.element(it), t)
                for x in g.ifs:
                    self.eval(x, t)
            parts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            vals = tuple(self.eval(x, t) for x in parts)
            conds = tuple(self.eval(x, t) for g in e.generators for x in g.ifs)
            its = tuple(self.eval(g.iter, t) for g in e.generators)
            s.obs = t.obs
            if t.env.get('$') != s.env.get('$'):
                s.env['$'] = t.env['$']
            return ('comp', type(e).__name__, ('vals',) + vals, ('conds',) + conds, ('its',) + its)
        if isinstance(e, ast.JoinedStr):
            return ('str',) + tuple(self.eval(x.value, s) for x in e.values if isinstance(x, ast.FormattedValue))
        if isinstance(e, ast.NamedExpr):
            v = self.eval(e.value, s)
            s.env[e.target.id] = v
            return v
        if isinstance(e, ast.Call):
            return self.call(e, s)
        if isinstance(e, ast.Lambda):
            return ('lambda', ast.unparse(e), self.world(s))
        return ('unknown', self.world(s))

    def world(self, s):
        return s.env.get('$', ('v', '$'))

    def element(self, it):
        """What a `for` loop or comprehension binds."""
        if self.first and it[0] == 'call' and it[1] == ('g', 'range'):
            return c(0) if len(it) == 3 else it[2]
        return ('elem', it)

    def call(self, e, s):
        f = e.func
        args = [self.eval(a, s) for a in e.args]
        kw = [(k.arg, self.eval(k.value, s)) for k in e.keywords]
        vals = tuple(args) + tuple(v for _, v in kw)
        names = tuple(k for k, _ in kw)
        if self.target is not None and self.an.calls(self.fi, f) is self.target:
            self.hits.append((s.copy(), e, args, kw, self.eval(f.value, s) if isinstance(f, ast.Attribute) else None))
        if isinstance(f, ast.Name):
            if f.id in self.inner:
                # a closure: may change whatever it mentions
                for n in {x.id for x in ast.walk(self.inner[f.id]) if isinstance(x, ast.Name)} & (self.locals | set(s.env)):
                    s.env[n] = ('mut', self.var(n, s), self.world(s))
                r = self.impure(('g', f.id), vals, s, e)
                rets = [x.value for x in ast.walk(self.inner[f.id]) if isinstance(x, ast.Return)]
                sizes = rets and all(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len' for x in rets) \
                    and isinstance(self.inner[f.id].body[-1], ast.Return)
                return ('size', r) if sizes else r
            if f.id == 'next':
                return self.impure(('g', 'next'), vals, s, e)
            fv = self.eval(f, s)
            if fv[0] == 'g' and (f.id in PURE or self.an.pure_name(self.fi, f)):
                r = ('call', fv) + vals + ((('kw',) + names,) if names else ())
                if f.id == 'len' and len(vals) == 1:
                    return size(vals[0])
                if f.id not in TOTAL:
                    s.obs = s.obs + (r,)
                return r
            return self.impure(fv, vals, s, e)
        if isinstance(f, ast.Attribute):
            obj = self.eval(f.value, s)
            name = f.value.id if isinstance(f.value, ast.Name) else ast.unparse(f.value) if ast.unparse(f.value) in s.env else None
            m = f.attr
            if m in ('add', 'discard') and len(args) == 1 and not kw and (plain(obj) or not self.an.own_method(m)):
                self.touch(obj, s, lambda old: put(old, m, args[0]), name)
                return c(None)
            if m in GROW | SHRINK and (plain(obj) or not self.an.own_method(m)):
                r = ('mut', obj, m) + vals
                if m in ('pop', 'remove', 'popleft', 'popitem'):
                    s.obs = s.obs + (obj,)
                self.touch(obj, s, lambda old: ('mut', old, m) + vals, name)
                return ('result', r)
            if obj == ('g', 'np') or obj[0] == 'attr' and inside(obj, ('g', 'np')) or m in READ or self.an.pure_method(m):
                r = ('call', ('attr', obj, m)) + vals + ((('kw',) + names,) if names else ())
                s.obs = s.obs + (r,)
                return r
            return self.impure(('attr', obj, m), vals + (obj,), s, e)
        return self.impure(self.eval(f, s), vals, s, e)

    def impure(self, f, vals, s, e):
        w = self.world(s)
        r = ('impure', f, w) + tuple(vals)
        for v in vals:
            if v[0] != 'c':
                self.touch(v, s, lambda old: ('mut', old, w))
        s.env['$'] = ('w', w, f)
        s.obs = s.obs + (r,)
        return r

    def bind(self, t, v, s):
        if isinstance(t, ast.Name):
            s.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.bind(x.value, ('rest', v), s)
                elif v[0] in ('Tuple', 'List') and len(v) == len(t.elts) + 1:
                    self.bind(x, v[i + 1], s)
                else:
                    self.bind(x, load(v, c(i)), s)
        elif isinstance(t, ast.Subscript):
            b, k = self.eval(t.value, s), self.eval(t.slice, s)
            name = t.value.id if isinstance(t.value, ast.Name) else None
            self.touch(b, s, lambda old: store(old, k, v), name)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, s)
            s.env[ast.unparse(t)] = v
            if b != ('v', 'self'):
                self.touch(b, s, lambda old: ('mut', old, t.attr, v))
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, s)

    # conditions
    def branch(self, test, s):
        """[(state, truth)]"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(t, not b) for t, b in self.branch(test.operand, s)]
        if isinstance(test, ast.BoolOp):
            stop = isinstance(test.op, ast.Or)
            live, out = [s], []
            for x in test.values:
                nxt = []
                for t in live:
                    for u, b in self.branch(x, t):
                        (out.append((u, b)) if b == stop else nxt.append(u))
                live = nxt
            return out + [(t, not stop) for t in live]
        if isinstance(test, ast.Compare) and len(test.ops) > 1:
            items = [test.left] + test.comparators
            parts = [ast.Compare(left=a, ops=[o], comparators=[b]) for a, o, b in zip(items, test.ops, items[1:])]
            return self.branch(ast.BoolOp(op=ast.And(), values=parts), s)
        s = s.copy()
        v = self.eval(test, s)
        out = []
        for b in (True, False):
            t = s.cond(v, b)
            if t is not None:
                out.append((t, b))
        return out

    # statements: [(kind, state)]
    def block(self, stmts, states):
        out = []
        for st in stmts:
            nxt = []
            for s in states:
                for kind, t in self.stmt(st, s):
                    if kind == 'fall':
                        nxt.append(t)
                    else:
                        out.append((kind, t))
            states = nxt
            self.count += len(states)
            if self.count > MAX_PATHS or len(states) + len(out) > MAX_PATHS:
                raise TooMuch
            if not states:
                break
        return out + [('fall', s) for s in states]

    def stmt(self, st, s):
        s = s.copy()
        if isinstance(st, ast.Assign):
            v = self.eval(st.value, s)
            for t in st.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts):
                    vals = [self.eval(x, s) for x in st.value.elts]
                    for x, w in zip(t.elts, vals):
                        self.bind(x, w, s)
                else:
                    self.bind(t, v, s)
            return [('fall', s)]
        if isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.eval(st.value, s), s)
            return [('fall', s)]
        if isinstance(st, ast.AugAssign):
            load_t = ast.parse(ast.unparse(st.target), mode='eval').body
            old, v = self.eval(load_t, s), self.eval(st.value, s)
            op = type(st.op).__name__
            if op in ('FloorDiv', 'Mod', 'Div') and not (v[0] == 'c' and v[1]) and not self.an.positive(self.fi, v):
                s.obs = s.obs + (v,)
            self.bind(st.target, binop(op, old, v, lambda x: self.an.positive(self.fi, x)), s)
            return [('fall', s)]
        if isinstance(st, ast.Expr):
            e = st.value
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'true_except' and e.args:
                return [('fall' if b else 'raise', t) for t, b in self.branch(e.args[0], s)]
            if isinstance(e, (ast.Yield, ast.YieldFrom)):
                return [('yield', s)]
            self.eval(e, s)
            return [('fall', s)]
        if isinstance(st, ast.Assert):
            return [('fall' if b else 'raise', t) for t, b in self.branch(st.test, s)]
        if isinstance(st, ast.Return):
            if st.value is not None:
                self.eval(st.value, s)
            return [('return', s)]
        if isinstance(st, ast.Raise):
            return [('raise', s)]
        if isinstance(st, ast.Break):
            return [('break', s)]
        if isinstance(st, ast.Continue):
            return [('continue', s)]
        if isinstance(st, ast.If):
            out = []
            arms, end = 1, st
            while len(end.orelse) == 1 and isinstance(end.orelse[0], ast.If):
                arms, end = arms + 1, end.orelse[0]
            for t, b in self.branch(st.test, s):
                if not b and arms == 1 and self.elifs.get(id(st), 1) > 2 and not st.orelse:
                    t.steps = t.steps + ('?',)          # none of several cases: perhaps impossible
                if not b and arms > 1:
                    self.elifs[id(st.orelse[0])] = self.elifs.get(id(st), 1) + 1
                out += self.block(st.body if b else st.orelse, [t])
            return out
        if isinstance(st, ast.For):
            it = self.eval(st.iter, s)
            skip = s.cond(empty(it), True)
            s = s.cond(empty(it), False)
            out = []
            if skip is not None and empty(it)[0] != 'c':
                skip.steps = skip.steps + tuple(('unmoved', n) for n in self.progress(st))
            if s is not None:
                self.bind(st.target, self.element(it), s)
                out = self.inner_loop(st, [s])
            return out + (self.block(st.orelse, [skip]) if skip is not None else [])
        if isinstance(st, ast.While):
            out = []
            for t, b in self.branch(st.test, s):
                if b:
                    out += self.inner_loop(st, [t], unknown=True)
                else:
                    out += self.block(st.orelse, [t])
            return out
        if isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    b, k = self.eval(t.value, s), self.eval(t.slice, s)
                    s.obs = s.obs + (load(b, k),)
                    self.touch(b, s, lambda old: ('mut', old, 'del', k), t.value.id if isinstance(t.value, ast.Name) else None)
                elif isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
            return [('fall', s)]
        if isinstance(st, ast.Try):
            out = []
            for kind, t in self.block(st.body, [s]):
                if kind == 'raise' and st.handlers:
                    kind = 'fall'               # some handler; which one is left open
                    t.env['$'] = ('w', self.world(t), 'except')
                    for h in st.handlers:
                        out += self.block(h.body, [t.copy()])
                    continue
                if kind == 'fall':
                    out += self.block(st.orelse, [t])
                else:
                    out.append((kind, t))
            for h in st.handlers:
                t = s.copy()
                t.env['$'] = ('w', self.world(t), 'except')
                for x in ast.walk(ast.Module(body=st.body, type_ignores=[])):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        t.env[x.id] = ('mut', self.var(x.id, t), self.world(t))
                t.obs = t.obs + (self.world(t),)
                out += self.block(h.body, [t])
            if st.finalbody:
                res = []
                for kind, t in out:
                    for k2, u in self.block(st.finalbody, [t]):
                        res.append((kind if k2 == 'fall' else k2, u))
                out = res
            return out
        if isinstance(st, ast.With):
            for i in st.items:
                v = self.eval(i.context_expr, s)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, s)
            return self.block(st.body, [s])
        if isinstance(st, (ast.Import, ast.ImportFrom)):
            for al in st.names:
                s.env[(al.asname or al.name).split('.')[0]] = ('g', (al.asname or al.name).split('.')[0])
            return [('fall', s)]
        if isinstance(st, (ast.Pass, ast.FunctionDef, ast.Global, ast.Nonlocal, ast.ClassDef)):
            return [('fall', s)]
        raise TooMuch

    def inner_loop(self, st, states, unknown=False):
        """One representative round of an inner loop."""
        out, done = [], []
        conds = len(states[0].conds)
        for kind, t in self.block(st.body, states):
            if kind in ('fall', 'continue', 'break'):
                if len(t.conds) > conds:
                    # other elements may fare better
                    t.steps = t.steps + tuple(('unmoved', n) for n in self.progress(st) if self.var(n, t) == self.var(n, states[0]))
                # further rounds: what the body assigns has some later value
                for n in self.assigned(st):
                    before = {self.var(n, s) for s in states}
                    if self.var(n, t) not in before:
                        t.env[n] = ('later', self.var(n, t))
                ends = [t]
                if unknown and kind != 'break':
                    ends = [u for u, b in self.branch(st.test, t) if not b]
                done += ends if kind == 'break' else [u for k, u in self.block(st.orelse, ends) if k == 'fall']
            else:
                out.append((kind, t))
        return out + [('fall', t) for t in done]

    def progress(self, st):
        """What the inner loop works out for the code around it."""
        inner = {id(x) for x in ast.walk(st)}
        used = {x.id for x in ast.walk(self.scope) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in inner}
        target = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)} if isinstance(st, ast.For) else set()
        return self.assigned(st) & used - target

    def assigned(self, st):
        out = set()
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, (ast.AugAssign, ast.Assign)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    while isinstance(t, (ast.Subscript, ast.Attribute)):
                        t = t.value
                    if isinstance(t, ast.Name):
                        out.add(t.id)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in GROW | SHRINK:
                out.add(x.func.value.id)
        return out


# -- the decision -------------------------------------------------------------------------------------------------------
def variables(v, out):
    if v[0] == 'v':
        out.add(v[1])
    else:
        for x in v[1:]:
            if isinstance(x, tuple) and x:
                variables(x, out) if isinstance(x[0], str) else [variables(y, out) for y in x if isinstance(y, tuple)]
    return out


def relevant(state, start, positive):
    """Variables on which the conditions of all further rounds depend."""
    fixed = {n: v for n, v in start.items() if v[0] == 'c'}
    while True:                         # constants that every round leaves as they are
        lost = [n for n, v in fixed.items() if subst(state.env.get(n, v), fixed, {}, positive) != v]
        if not lost:
            break
        for n in lost:
            del fixed[n]
    todo, out, memo = set(), set(), {}
    for a in [a for a, _ in state.conds] + list(state.obs):
        variables(subst(a, fixed, memo, positive), todo)
    while todo:
        n = todo.pop()
        if n not in out:
            out.add(n)
            todo |= variables(subst(state.env[n], fixed, memo, positive), set()) if n in state.env else set()
    return out


def holds(now, conds):
    """The conditions are not known to fail, and do not contradict each other."""
    seen = {}
    for a, (_, want) in zip(now, conds):
        a = truth(a)
        while a[0] == 'not':
            a, want = truth(a[1]), not want
        if a[0] == 'c' and bool(a[1]) != want or a[0] != 'c' and seen.setdefault(a, want) != want:
            return False
    return True


def advance(state, cur, positive):
    memo = {}
    return {n: subst(v, cur, memo, positive) for n, v in state.env.items()} | {n: v for n, v in cur.items() if n not in state.env}


def forever(state, start, positive):
    """
    The way round is taken again and again from the given start: the variables that matter keep their values (or move away from the end).
    Returns a description of why, or None.
    """
    look = [a for a, _ in state.conds] + list(state.obs)
    mine = relevant(state, start, positive)
    cur = dict(start)
    prev = before = None
    for k in range(MAX_ROUNDS):
        memo = {}
        now = [subst(a, cur, memo, positive) for a in look]
        if not holds(now, state.conds):
            return None
        here = {n: cur.get(n, ('v', n)) for n in mine}
        if prev is not None and now == prev and here == before:
            return 'nothing that its conditions depend on changes'
        if prev is not None and all(base(state.env.get(n, ('v', n)))[0] == ('v', n) for n in mine) \
                and all(a == b or i < len(state.conds) and drifts(a, b, state.conds[i][1]) for i, (a, b) in enumerate(zip(prev, now))):
            return 'what changes moves away from the end condition'
        prev, before = now, here
        cur = advance(state, cur, positive)
    return None


def drifts(a, b, want):
    """The condition stays as it is while one side moves by a fixed amount each round."""
    while a[0] == 'not' and b[0] == 'not':
        a, b, want = a[1], b[1], not want
    if a[0] == b[0] == '<':
        (p, i), (q, j) = base(a[1]), base(b[1])
        (r, k), (t, m) = base(a[2]), base(b[2])
        if p == q and r == t and not (p[0] == 'c' and q[0] == 'c' and False):
            gain = (m - k) - (j - i)            # how much the right side gains on the left side
            return gain >= 0 if want else gain <= 0
    return False


class Analysis:
    def __init__(self, prog, known, impure):
        self.prog = prog
        self.known, self.impure = known, impure
        self.pos = {}
        self._locals, self._alias = {}, {}
        self.members = {}
        for cl in self.prog.classes.values():
            for n, m in cl.members.items():
                if isinstance(m, FuncInfo):
                    self.members.setdefault(n, set()).add(m)

    def locals(self, fi):
        if fi not in self._locals:
            out = set(fi.all_params)
            for n in own_nodes(fi.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
            self._locals[fi] = out
        return self._locals[fi]

    def aliases(self, fi):
        if fi not in self._alias:
            groups = {}
            for n in own_nodes(fi.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            g = groups.get(t.id, {t.id}) | groups.get(n.value.id, {n.value.id})
                            for x in g:
                                groups[x] = g
            self._alias[fi] = groups
        return self._alias[fi]

    def own_method(self, name):
        return any(m in self.impure for m in self.members.get(name, ()))

    def pure_method(self, name):
        ms = self.members.get(name)
        return bool(ms) and all(m in self.known and m not in self.impure for m in ms)

    def pure_name(self, fi, f):
        r = self.prog.resolve_expr(fi.module, f)
        if isinstance(r, FuncInfo):
            return r in self.known and r not in self.impure
        x = external(r)
        return isinstance(r, ClassInfo) or x.split('.')[0] in LIBRARIES and x not in ENDLESS

    def calls(self, fi, f):
        """The function of the library that is called, if that is certain."""
        if isinstance(f, ast.Name):
            r = self.prog.resolve_expr(fi.module, f)
            return r if isinstance(r, FuncInfo) else fi if f.id == fi.name and fi.cls is None and r is None else None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and f.attr == fi.name:
            return fi
        return None

    def positive(self, fi, v):
        if v[0] == 'c':
            return isinstance(v[1], int) and v[1] > 0
        if v[0] == '+k':
            return v[2] >= 0 and self.positive(fi, v[1])
        if v[0] != 'v':
            return False
        key = fi, v[1]
        if key not in self.pos:
            self.pos[key] = False
            ok = v[1] not in fi.all_params
            found = False
            for n in own_nodes(fi.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v[1] for t in n.targets):
                    ok = ok and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int) and n.value.value > 0
                    found = True
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == v[1]:
                    ok = ok and isinstance(n.op, (ast.Add, ast.Mult)) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int) and n.value.value > 0
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == v[1] and not found:
                    pass
                elif isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == v[1] for x in ast.walk(n.target)):
                    ok = False
            self.pos[key] = ok and found
        return self.pos[key]

    # -- what is known before the loop
    def entry(self, fi, loop, first=False):
        """States in which the loop can be entered (only what straight-line code before it assigns)."""
        w = Walker(self, fi)
        path = self.path_to(fi.node.body, loop)
        if path is None:
            return {}, ()
        state = State({})
        for stmts, stop, owner in path:
            pre = stmts[:stop]
            try:
                out = [t for k, t in w.block(pre, [state]) if k == 'fall']
            except TooMuch:
                out = []
            if not out:
                return {}, None
            env = {n: v for n, v in out[0].env.items() if all(t.env.get(n) == v for t in out)}
            changed = {n for t in out for n in t.env} - set(env)
            for n in changed:
                env[n] = ('entry', n)
            conds = [x for x in out[0].conds if all(x in t.conds for t in out)]
            state = State(env, tuple(conds))
            node = stmts[stop]
            if node is loop:
                break
            if isinstance(node, (ast.For, ast.While)):
                for n in () if first else w.assigned(node):
                    state.env[n] = ('entry', n)
                if isinstance(node, ast.For):
                    w.bind(node.target, w.element(w.eval(node.iter, state)), state)
                if isinstance(node, ast.While):
                    ts = [t for t, b in w.branch(node.test, state) if b]
                    state = ts[0] if len(ts) == 1 else state
            elif isinstance(node, ast.If):
                ts = [t for t, b in w.branch(node.test, state) if b == self.in_body(node, loop)]
                state = ts[0] if len(ts) == 1 else state
        return state.env, state.conds

    def in_body(self, node, loop):
        return any(x is loop for st in node.body for x in ast.walk(st))

    def path_to(self, stmts, loop):
        for i, st in enumerate(stmts):
            if st is loop:
                return [(stmts, i, None)]
            if any(x is loop for x in ast.walk(st)):
                for name in ('body', 'orelse', 'finalbody', 'handlers'):
                    sub = getattr(st, name, None)
                    if isinstance(sub, list):
                        if name == 'handlers':
                            sub = [x for h in sub for x in h.body]
                        r = self.path_to(sub, loop)
                        if r is not None:
                            return [(stmts, i, None)] + r
                return None
        return None

    # -- loops
    def while_loop(self, fi, loop):
        """'ends', 'unknown' or (reason, way) for a loop that does not end."""
        w = Walker(self, fi)
        w.scope = loop
        positive = lambda v: self.positive(fi, v)
        try:
            starts = [t for t, b in w.branch(loop.test, State({})) if b]
            if not starts:
                return 'ends', None, 0
            outs = w.block(loop.body, starts)
        except TooMuch:
            return 'unknown', None, 0
        back = [t for k, t in outs if k in ('fall', 'continue')]
        leaves = [k for k, t in outs if k not in ('fall', 'continue')]
        if 'yield' in leaves:
            return 'unknown', None, len(back)
        if not back:
            return 'ends', None, 0
        if not leaves and not self.leaving(fi, loop) and not any(b is False for _, b in w.branch(loop.test, State({}))):
            return 'forever', ('nothing leaves it', None), len(back)
        for first in (True, False):
            env0, conds0 = self.entry(fi, loop, first)
            for t in back:
                if '?' in t.steps or self.partial(t, loop):
                    continue
                for start, what in self.starts(fi, loop, t, env0, conds0, back):
                    why = forever(t, start, positive)
                    if why:
                        return 'forever', (what + why, t), len(back)
        return ('ends' if self.ranked(fi, loop, back) else 'unknown'), None, len(back)

    def partial(self, t, scope):
        """An inner loop that could have changed something did not do so for the element considered (and the loop is not one that ends without a change)."""
        mine = relevant(t, {}, lambda v: False)
        for x in ast.walk(scope):
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for y in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    if {z.id for z in ast.walk(y) if isinstance(z, ast.Name)} & mine:
                        mine |= {z.id for z in ast.walk(x.value) if isinstance(z, ast.Name)}
        for n in {x[1] for x in t.steps if isinstance(x, tuple)} & mine:
            def about(v):
                return n in variables(v, set())
            tests = [scope.test] if isinstance(scope, ast.While) else []
            tests += [x.test for x in scope.body if isinstance(x, ast.If)]
            if not any(isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Eq, ast.NotEq)) for x in tests) or \
                    not any(a[0] == '==' and want is False and about(a[1]) != about(a[2]) for a, want in t.conds):
                return True
        return False

    def leaving(self, fi, loop):
        """The loop may be left by an exception that it expects."""
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Try) and any(x is loop for st in n.body for x in ast.walk(st)):
                return True
        return any(isinstance(x, (ast.Subscript, ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Call) and (
            isinstance(x.func, ast.Name) and x.func.id in ('next', 'true_except') or isinstance(x.func, ast.Attribute) and x.func.attr in SHRINK)
            or isinstance(x, (ast.Raise, ast.Assert)) for x in ast.walk(loop))

    def starts(self, fi, loop, t, env0, conds0, back):
        positive = lambda v: self.positive(fi, v)
        first = {n: v for n, v in env0.items() if n != '$'}
        yield first, ''
        for u in back if len(back) <= MAX_PAIRS else ():
            if '?' in u.steps or u is t:
                continue
            memo = {}
            if holds([subst(a, first, memo, positive) for a, _ in u.conds], u.conds):
                yield advance(u, first, positive), 'after another round, '
        # values that division leaves as they are
        for n, v in t.env.items():
            if v[0] == 'op' and v[1] in ('FloorDiv', 'RShift') and v[2] == ('v', n) and conds0 is not None and self.free(fi, n, env0):
                for x in (0, -1):
                    if self.excluded(fi, n, x, conds0):
                        continue
                    yield first | {n: c(x)}, f'when {n} is {x}, '
            elif v[0] == '+k' and v[1] == ('v', n) and conds0 is not None and self.free(fi, n, env0):
                # a step that can start behind the end: n != end
                ends = {(y, x) for a, want in t.conds for x, y in eqs(a, want) if base(x)[0] == ('v', n) and is_int(y)}
                for y, x in ends:
                    m = y[1] - base(x)[1] + (1 if v[2] > 0 else -1)
                    if not self.excluded(fi, n, m, conds0):
                        yield first | {n: c(m)}, f'when {n} starts at {m}, '

    def free(self, fi, n, env0):
        """The value at the start is one the caller chooses."""
        v = env0.get(n, ('v', n))
        return v[0] == 'v' and v[1] in fi.all_params or v == ('entry', n) and n in fi.all_params

    def excluded(self, fi, n, x, conds0):
        """Something before the loop rules the value out (or may do so)."""
        for a, want in conds0:
            if not (inside(a, ('v', n)) or inside(a, ('entry', n))):
                continue
            b = subst(a, {n: c(x), ('entry', n): c(x)}, {}, lambda v: self.positive(fi, v))
            if b == a:
                return True
            while b[0] == 'not':
                b, want = b[1], not want
            if b[0] != 'c' or bool(b[1]) != want:
                return True
        return False

    def ranked(self, fi, loop, back):
        """Every way round makes progress of a recognised kind."""
        for t in back:
            ok = False
            for a, want in t.conds:
                while a[0] == 'not':
                    a, want = a[1], not want
                if a[0] == '<':
                    small, large = (a[1], a[2]) if want else (a[2], a[1])
                    for v, sign in ((small, 1), (large, -1)):
                        for n, new in t.env.items():
                            if inside(v, ('v', n)) and (new[0] == '+k' and new[1] == ('v', n) and new[2] * sign > 0
                                                        or sign < 0 and new[0] == 'op' and new[1] in ('FloorDiv', 'RShift') and new[2] == ('v', n)
                                                        or sign < 0 and new[0] in ('mut', 'later') and ('del' in new or inside(new, ('mut', ('v', n), 'pop')))):
                                ok = True
                elif a[0] == '==':
                    for n, new in t.env.items():
                        if any(inside(x, ('v', n)) for x in a[1:]) and new[0] == 'op' and new[1] == 'FloorDiv' and new[2] == ('v', n):
                            ok = True
            if not ok:
                return False
        return True

    # -- recursion
    def recursion(self, fi):
        res = []
        positive = lambda v: self.positive(fi, v)
        sites = set()
        for first in (False, True):
            w = Walker(self, fi, first)
            w.target = fi
            try:
                w.block(fi.node.body, [State({})])
            except TooMuch:
                pass
            for s, e, args, kw, obj in w.hits:
                sites.add(id(e))
                params = list(fi.params)
                if fi.cls is not None or params[:1] == ['self']:
                    args = [obj] + args if obj is not None else args
                env = dict(zip(params, args))
                env.update({k: v for k, v in kw if k})
                for p in fi.all_params:
                    if p not in env:
                        d = fi.defaults.get(p)
                        env[p] = c(d.value) if isinstance(d, ast.Constant) else ('default', p)
                if any(a[0] == 'star' for a in args) or fi.vararg or fi.kwarg:
                    continue
                t = State(env, s.conds, s.obs, s.steps)
                if '?' in t.steps or self.partial(t, fi.node):
                    continue
                starts = [({}, '')]
                for n, v in env.items():
                    if v[0] == '+k' and v[1] == ('v', n):
                        for a, want in s.conds:
                            for x, y in eqs(a, want):
                                if base(x)[0] == ('v', n) and is_int(y):
                                    starts.append(({n: c(y[1] - base(x)[1] + (1 if v[2] > 0 else -1))}, f'when {n} starts beyond {y[1]}, '))
                    if v[0] == 'op' and v[1] in ('FloorDiv', 'RShift') and v[2] == ('v', n):
                        starts += [({n: c(0)}, f'when {n} is 0, '), ({n: c(-1)}, f'when {n} is -1, ')]
                for start, what in starts:
                    why = forever(t, start, positive) if not what.startswith('when') or 'beyond' not in what else self.beyond(t, start, positive)
                    if why:
                        res.append((what + why, e))
                        break
        return res, len(sites)

    def beyond(self, t, start, positive):
        """Started behind the end value, every condition stays as it is."""
        (n, x), = start.items()
        step = t.env[n][2]
        cur = {n: x}
        memo = {}
        if any((lambda a: a[0] == 'c' and bool(a[1]) != want)(subst(a, cur, memo, positive)) for a, want in t.conds):
            return None
        for a, want in t.conds:
            while a[0] == 'not':
                a, want = a[1], not want
            if not inside(untyped(a, n), ('v', n)):
                continue
            if a[0] == '==' and not want:
                (other,) = [y for y in a[1:] if not inside(y, ('v', n))] or [None]
                mine = [y for y in a[1:] if inside(y, ('v', n))]
                if other is None or len(mine) != 1 or base(mine[0])[0] != ('v', n) or not is_int(other):
                    return None
                now = x[1] + base(mine[0])[1]
                if now == other[1] or (other[1] - now) * step > 0:
                    return None
            elif a[0] == '<':
                (p, i), (q, j) = base(a[1]), base(a[2])
                if p == ('v', n) and is_int(a[2]) and (step < 0) == want:
                    continue
                if q == ('v', n) and is_int(a[1]) and (step > 0) == want:
                    continue
                return None
            else:
                return None
        if any(inside(o, ('v', n)) for o in t.obs):
            return None
        return f'the end is never met by steps of {step}'


def untyped(a, n):
    """Without the parts that only depend on the type of the variable."""
    if a[:1] == ('call',) and len(a) > 2 and a[1] in (('g', 'type'), ('g', 'isinstance')) and a[2] == ('v', n):
        return ('typeof', n)
    return tuple(untyped(x, n) if isinstance(x, tuple) else x for x in a)


def eqs(a, want):
    while a[0] == 'not':
        a, want = a[1], not want
    if a[0] == '==' and not want:
        yield a[1], a[2]
        yield a[2], a[1]


# -- calls that always lead back ----------------------------------------------------------------------------------------
def external(r):
    """Dotted name of something imported from elsewhere."""
    return '.'.join(x for x in r[1:] if isinstance(x, str)) if isinstance(r, tuple) and r and isinstance(r[0], str) and 'ext' in r[0] else ''


def must_reads(fi):
    """Members of `self` that are used whatever happens (before any branch)."""
    out = {}

    def expr(e):
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            if hasattr(e, 'generators'):
                expr(e.generators[0].iter)
            return
        if isinstance(e, ast.BoolOp):
            return expr(e.values[0])
        if isinstance(e, ast.IfExp):
            return expr(e.test)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self' and isinstance(e.ctx, ast.Load):
            out.setdefault(e.attr, e)
        for x in ast.iter_child_nodes(e):
            expr(x)
    for st in fi.node.body:
        if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Return)):
            if st.value is not None:
                expr(st.value)
            for t in getattr(st, 'targets', []):
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                    return out              # stored: the next reading may find it
            if isinstance(st, ast.Return):
                break
        elif isinstance(st, ast.If):
            expr(st.test)
            break
        elif isinstance(st, ast.For):
            expr(st.iter)
            break
        elif isinstance(st, (ast.Import, ast.ImportFrom, ast.Pass, ast.FunctionDef)):
            continue
        else:
            break
    return out


def cycles(prog):
    """Getters of one class that always need each other."""
    res, edges = [], 0
    for cl in sorted(prog.classes.values(), key=lambda x: x.qual):
        graph = {}
        for n, m in cl.all_members().items():
            if not isinstance(m, FuncInfo) or m.params[:1] != ['self']:
                continue
            for attr, node in must_reads(m).items():
                g = cl.lookup(attr)
                if isinstance(g, FuncInfo) and g.params[:1] == ['self'] and (g.kind in ('property', 'cached') or is_called(m, node)):
                    graph.setdefault(n, {})[attr] = node
                    edges += 1
        for n in sorted(graph):
            seen, stack = set(), [(n, (n,))]
            while stack:
                x, path = stack.pop()
                for y in graph.get(x, ()):
                    if y == n and min(path) == n:
                        res.append((cl, path, graph[x][y], cl.lookup(x)))
                    elif y not in seen and y > n:
                        seen.add(y)
                        stack.append((y, path + (y,)))
    return res, edges


def is_called(fi, node):
    return any(isinstance(x, ast.Call) and x.func is node for x in ast.walk(fi.node))


def grows_itself(loop):
    """The `for` loop always adds to the list it runs through."""
    if not isinstance(loop.iter, ast.Name):
        return None
    name = loop.iter.id
    if any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for st in loop.body for x in ast.walk(st)):
        return None
    if any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for st in loop.body for x in ast.walk(st)):
        return None
    for st in loop.body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == name and st.value.func.attr in ('append', 'insert'):
            return st
        if isinstance(st, (ast.If, ast.Try, ast.For, ast.While, ast.Continue)):
            continue
    return None


def purity(run):
    """Functions that were analysed, and those that change an argument (other than filling in its derived values)."""
    impure = set()
    for key, s in run.engine.summaries.items():
        fi = key[0]
        for p, kind, detail in s.effects:
            if kind == 'setattr' and (detail.startswith('_') or fi.name == detail):
                continue
            if fi.name == '__init__' and p[0] == ('p', 'self'):
                continue
            impure.add(fi)
    return {key[0] for key in run.engine.summaries}, impure


def c11():
    sys.setrecursionlimit(50000)
    run = Run()
    known, impure = purity(run)
    if len(known - impure) < MIN_PURE:
        raise AnalysisError(f'only {len(known - impure)} functions without effects found')
    findings, cov = decide(run.prog, known, impure)
    return findings, run.coverage(**cov)


def decide(prog, known, impure):
    an = Analysis(prog, known, impure)
    findings = []
    verdicts, loops, fors, ways, rec, recsites, failed = {}, 0, 0, 0, {}, 0, 0
    funcs = sorted({fi for fi in prog.funcs.values()}, key=lambda f: f.qual)
    for fi in funcs:
        if not hasattr(fi.node, 'body') or not isinstance(fi.node.body, list):
            continue
        k = 0
        for n in own_nodes(fi.node):
            if isinstance(n, ast.While):
                loops += 1
                k += 1
                try:
                    verdict, why, back = an.while_loop(fi, n)
                except (RecursionError, IndexError, KeyError, TypeError, ValueError, AttributeError) as e:
                    verdict, why, back = f'not analysed: {e!r}', None, 0
                    failed += 1
                ways += back
                verdicts[f'{fi.qual}#{k}'] = f'{verdict} ({back} ways round)'
                if verdict == 'forever':
                    findings.append(Finding('endless-loop', f'{fi.qual}: loop {k}', f'{why[0]}: a way round is taken for ever', fi.where(n)))
            elif isinstance(n, ast.For):
                fors += 1
                st = grows_itself(n)
                if st is not None:
                    findings.append(Finding('endless-loop', f'{fi.qual}: for', f'{ast.unparse(st)} lengthens the list the loop runs through', fi.where(st)))
                if isinstance(n.iter, ast.Call) and external(prog.resolve_expr(fi.module, n.iter.func)) in ENDLESS and \
                        not (len(n.iter.args) > 1 and 'repeat' in ast.unparse(n.iter.func)) and not fi.is_generator and \
                        not any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for st in n.body for x in ast.walk(st)):
                    findings.append(Finding('endless-loop', f'{fi.qual}: for', 'the iterator never ends and nothing leaves the loop', fi.where(n)))
        if any(isinstance(x, ast.Call) and an.calls(fi, x.func) is fi for x in own_nodes(fi.node)):
            try:
                res, sites = an.recursion(fi)
            except (RecursionError, IndexError, KeyError, TypeError, ValueError, AttributeError):
                res, sites = [], 0
                failed += 1
            rec[fi.qual] = sites
            recsites += sites
            for why, node in res:
                findings.append(Finding('endless-recursion', f'{fi.qual}', f'{why}: the function calls itself for ever ({ast.unparse(node)[:60]})', fi.where(node)))
    circles, edges = cycles(prog)
    for cl, path, node, fi in circles:
        findings.append(Finding('endless-recursion', f'{cl.name}: ' + ' -> '.join(path), 'these members always need each other', fi.where(node)))
    if failed > (loops + len(rec)) / 3:
        raise AnalysisError(f'{failed} loops and recursions could not be analysed')
    if loops < MIN_LOOPS or fors < MIN_FOR or not rec:
        raise AnalysisError(f'only {loops} while loops, {fors} for loops and {len(rec)} recursions found')
    return findings, dict(
        while_loops=loops, ways_round=ways, verdicts=verdicts, for_loops=fors, recursive_functions=rec, recursive_calls=recsites, not_analysed=failed, unconditional_uses_of_members=edges,
        rule='no way round a loop or recursion leaves all its conditions as they are',
        explanation='For each while loop and each recursive function the ways round are enumerated with value numbers; a way whose conditions and partial '
                    'operations keep their values is endless. "ends": every way makes progress of a recognised kind; "unknown": neither was shown. '
                    'Further: lists lengthened while they are run through, endless iterators, and getters that always need each other.')

"""
C08: the comparison operators of a class describe one relation.

The comparison methods are evaluated in a finite domain.  The only thing known about the two operands is how they are related
(less, equal, greater, incomparable), and for orders that compare place by place, which relations occur among the places.
A method is then a function from these cases to truth values, and the operators have to agree in every case.
"""
import ast
import re

from . import program
from .model import Program, FuncInfo, ClassInfo
from .program import AnalysisError
from .report import Finding

ANY = ('any',)
T, F = frozenset([True]), frozenset([False])
TF = T | F
FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq', 'inc': 'inc'}
# properties in which different objects can agree
LOSSY = ('.intval', '.weight', '.exposet', '.length', '.changes', '.reverse', '.degree', '.order', '.inversions')
MAX_STATES = 400
MAX_DEPTH = 12


class TooMuch(Exception):
    pass


def const(v):
    return ('const', v)


def boolean(s):
    return const(next(iter(s))) if len(s) == 1 else ('bool', frozenset(s))


class Family:
    def __init__(self, name, cls, ops, total=False, pointwise=False, lattice=False, faithful=(), assume=(), lossy=()):
        self.name = name
        self.cls = cls
        self.ops = ops                      # lt, le, gt, ge, eq, ne -> FuncInfo
        self.total = total
        self.pointwise = pointwise          # the places of the operands are compared one by one
        self.lattice = lattice
        self.faithful = set(faithful)       # what can be compared instead of the objects themselves
        self.lossy = set(lossy)             # equal for some different objects
        self.assume = set(assume)           # equal for comparable operands

    @property
    def cases(self):
        return ['lt', 'eq', 'gt'] if self.total else ['lt', 'eq', 'gt', 'inc']


class Evaluator:
    def __init__(self, prog, family, case, differ=None):
        self.prog = prog
        self.fam = family
        self.case = case                    # how A is related to B
        self.differ = differ                # for C09: key -> do the operands differ in it?
        self.elem_case = None
        self.stack = []
        self.steps = 0
        self.keys = set()
        self.onesided = set()               # projections that depend on the other operand, but not on both
        self.blind = False                  # the answer depends on something that is not expressed at all
        self.exact = True                   # no answer was left open for lack of knowledge
        self.sources = 0                    # of answers that are open because both occur

    def unknown(self):
        self.exact = False
        return TF

    # -- relations --------------------------------------------------------------------------------------------------
    def relation(self, x, y):
        """How two of A, B, their join and their meet are related."""
        if x == y:
            return 'eq'
        if (x, y) == ('A', 'B'):
            return self.case
        if (x, y) == ('B', 'A'):
            return FLIP[self.case]
        if y in ('join', 'meet') and x in ('A', 'B'):
            r = self.relation(y, x)
            return None if r is None else FLIP[r]
        if x in ('join', 'meet') and y in ('A', 'B'):
            other = 'B' if y == 'A' else 'A'
            r = self.relation(y, other)                 # y compared with the other operand
            if x == 'join':
                return 'eq' if r in ('gt', 'eq') else 'gt'
            return 'eq' if r in ('lt', 'eq') else 'lt'
        if {x, y} == {'join', 'meet'}:
            if self.case == 'eq':
                return 'eq'
            return 'gt' if x == 'join' else 'lt'
        return None

    def places(self):
        """Relations that occur among the places, and those that surely occur."""
        return {'lt': (('lt', 'eq'), {'lt'}), 'eq': (('eq',), set()), 'gt': (('gt', 'eq'), {'gt'}), 'inc': (('lt', 'gt', 'eq'), {'lt', 'gt'})}[self.case]

    def apply(self, op, r):
        if r is None:
            return self.unknown()
        res = {ast.Eq: r == 'eq', ast.NotEq: r != 'eq', ast.Lt: r == 'lt', ast.LtE: r in ('lt', 'eq'), ast.Gt: r == 'gt', ast.GtE: r in ('gt', 'eq')}.get(type(op))
        return self.unknown() if res is None else frozenset([res])

    def side(self, v):
        return v[1] if v[0] in ('obj', 'proj', 'elem') else None

    def compare(self, op, x, y):
        if ANY in (x, y):
            self.blind = True
        if isinstance(op, (ast.Is, ast.IsNot)):
            if x[0] == 'const' and y[0] == 'const':
                return frozenset([(x[1] is y[1]) == isinstance(op, ast.Is)])
            if x[0] == 'obj' and y[0] == 'obj' and (x[1] != y[1]) and self.case != 'eq':
                return frozenset([isinstance(op, ast.IsNot)])
            if {x[0], y[0]} & {'obj', 'proj', 'elem'} and ('const', None) in (x, y) and 'obj' in (x[0], y[0]):
                return frozenset([isinstance(op, ast.IsNot)])
            return self.unknown()
        if isinstance(op, (ast.In, ast.NotIn)):
            if x[0] == 'const' and y[0] == 'seq' and all(v[0] == 'const' for v in y[1]):
                return frozenset([(x[1] in [v[1] for v in y[1]]) == isinstance(op, ast.In)])
            return self.unknown()
        if x[0] == 'const' and y[0] == 'const':
            try:
                return frozenset([bool({ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b,
                                        ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}[type(op)](x[1], y[1]))])
            except TypeError:
                return self.unknown()
        if x[0] == 'obj' and y[0] == 'obj':
            return self.operator(op, x, y)
        if x[0] == 'proj' and y[0] == 'proj' and x[2] == y[2]:
            return self.compare_projections(op, x, y)
        if x[0] == 'seq' and y[0] == 'seq' and len(x[1]) == len(y[1]) and isinstance(op, (ast.Eq, ast.NotEq)):
            parts = [self.compare(ast.Eq(), a, b) for a, b in zip(x[1], y[1])]
            res = self.both(parts)
            return res if isinstance(op, ast.Eq) else frozenset(not b for b in res)
        if x[0] == 'elem' and y[0] == 'elem' and x[2] == y[2]:
            if x[1] == y[1]:
                return self.apply(op, 'eq')
            self.note(x[2])
            r = self.elem_case
            return self.apply(op, r if (x[1], y[1]) == ('A', 'B') else None if r is None else FLIP[r])
        if x[0] == 'sym' and x == y:
            return self.apply(op, 'eq')
        return self.unknown()

    def both(self, parts):
        if any(p == F for p in parts):
            return F
        return T if all(p == T for p in parts) else self.unknown()

    def compare_projections(self, op, x, y):
        key = x[2]
        if x[1] == y[1]:
            return self.apply(op, 'eq')
        if self.differ is not None:
            self.keys.add(key)
            if key not in self.differ:
                return self.unknown()
            if isinstance(op, (ast.Eq, ast.NotEq)):
                return frozenset([self.differ[key] != isinstance(op, ast.Eq)])
            return self.unknown() if self.differ[key] else self.apply(op, 'eq')
        if key in self.fam.assume:
            return self.apply(op, 'eq')
        self.keys.add(key)
        self.note(key)
        r = self.relation(x[1], y[1])
        if r == 'eq':
            return self.apply(op, 'eq')
        if any(key == k or key.startswith(k + '(') for k in self.fam.faithful):
            if isinstance(op, (ast.Eq, ast.NotEq)) or not self.fam.pointwise or key in ('.exposet', '.fullspots'):
                return self.apply(op, r)
        if self.fam.total and key in self.fam.lossy:
            self.sources += 1
            return TF                                   # different objects can agree in it or be the other way round
        return self.unknown()

    def note(self, key):
        inner = set(re.findall(r'\b([AB])(?=[a-z.])', key))
        if len(inner) == 1:
            self.onesided.add(key)

    def operator(self, op, x, y):
        """An operator between the objects themselves."""
        r = self.relation(x[1], y[1])
        if self.differ is not None:
            return self.unknown()
        if isinstance(op, (ast.Eq, ast.NotEq)):
            return self.apply(op, r)
        if {x[1], y[1]} - {'A', 'B'} or self.fam.pointwise:
            return self.unknown()
        name = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}[type(op)]
        return self.relational(name, x, y)

    def relational(self, name, x, y):
        """`x <name> y` with Python's rules for missing methods."""
        ops = self.fam.ops
        if ops.get(name) is not None:
            return self.truths(self.call(ops[name], [x, y]))
        if name == 'ne':
            if ops.get('eq') is None:
                return self.unknown()
            return frozenset(not b for b in self.truths(self.call(ops['eq'], [x, y])))
        if self.fam.__dict__.get('total_ordering') and name in ('le', 'gt', 'ge'):
            lt = self.relational('lt', x, y)
            if name == 'ge':
                return frozenset(not b for b in lt)
            eq = self.relational('eq', x, y)
            le = frozenset(a or b for a in lt for b in eq)
            return le if name == 'le' else frozenset(not b for b in le)
        mirror = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}.get(name)
        if mirror and ops.get(mirror) is not None:
            return self.truths(self.call(ops[mirror], [y, x]))
        return frozenset()

    # -- values -----------------------------------------------------------------------------------------------------
    def truths(self, v):
        if v == ANY:
            self.blind = True
        if v[0] == 'const':
            return frozenset([bool(v[1])])
        if v[0] == 'bool':
            return v[1]
        if v[0] == 'fails':
            return frozenset(['fails'])
        if v[0] == 'seq':
            return frozenset([bool(v[1])])
        if v[0] == 'elem':
            if self.elem_case in ('lt', 'gt'):
                return frozenset([(v[1] == 'B') == (self.elem_case == 'lt')])
        return self.unknown()

    def key(self, v):
        """Text of a value that does not belong to one side."""
        if v[0] == 'const':
            return repr(v[1])
        if v[0] == 'sym':
            return v[1]
        return None

    def text(self, v):
        """Text of any value, with the sides written out."""
        if v[0] == 'obj':
            return v[1]
        if v[0] in ('proj', 'elem'):
            return f'{v[1]}{v[2]}'
        if v[0] == 'seq':
            ts = [self.text(x) for x in v[1]]
            return None if None in ts else '[' + ', '.join(ts) + ']'
        return self.key(v)

    def attribute(self, v, name):
        if v[0] == 'obj':
            c = self.fam.cls
            m = c.lookup(name)
            key = '.' + name
            if key in self.fam.faithful | self.fam.assume | self.fam.lossy or not isinstance(m, FuncInfo):
                return ('proj', v[1], key)
            if m.kind in ('property', 'cached'):
                if len(m.node.body) <= 2:
                    r = self.call(m, [v])
                    if r[0] in ('proj', 'const', 'bool', 'seq'):
                        return r
                return ('proj', v[1], key)
            return ('method', v, m)
        if v[0] == 'proj':
            return ('proj', v[1], v[2] + '.' + name)
        t = self.text(v)
        return ('sym', f'{t}.{name}') if t is not None else ANY

    def project(self, v, how):
        """A function of one operand."""
        if v[0] == 'obj':
            if how in ('str', 'repr', 'format') and self.same_text():
                how = 'str'
            return ('proj', v[1], how)
        if v[0] == 'proj':
            if how in ('tuple', 'list', 'str', 'repr', 'sorted') and any(v[2] == k or v[2].startswith(k + '(') for k in self.fam.faithful):
                return v
            return ('proj', v[1], f'{how}({v[2]})')
        return ANY

    def same_text(self):
        return True

    def eval(self, e, env):
        self.steps += 1
        if self.steps > 20000:
            raise TooMuch
        if isinstance(e, ast.Constant):
            return const(e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in ('True', 'False', 'None'):
                return const({'True': True, 'False': False, 'None': None}[e.id])
            r = self.prog.resolve_expr(self.stack[-1][0].module, e)
            if isinstance(r, (FuncInfo, ClassInfo)):
                return ('fn', r)
            return ('name', e.id)
        if isinstance(e, ast.Attribute):
            v = self.eval(e.value, env)
            if v == ('name', 'super()'):
                return ANY
            return self.attribute(v, e.attr)
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            out = set()
            for i, x in enumerate(e.values):
                v = self.eval(x, env)
                t = self.truths(v)
                if 'fails' in t:
                    return v if not out else ANY
                if i == len(e.values) - 1:
                    out |= t
                else:
                    if stop in t:
                        out.add(stop)
                    if (not stop) not in t:
                        return boolean(out)
            return boolean(out)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.eval(e.operand, env)
            t = self.truths(v)
            return v if 'fails' in t else boolean(frozenset(not b for b in t))
        if isinstance(e, ast.Compare):
            left = self.eval(e.left, env)
            parts = []
            for op, r in zip(e.ops, e.comparators):
                right = self.eval(r, env)
                c = self.compare(op, left, right)
                if 'fails' in c:
                    return ('fails', 'recursion')
                parts.append(c)
                left = right
            return boolean(self.both(parts)) if len(parts) > 1 else boolean(parts[0]) if parts[0] else ('fails', 'not supported')
        if isinstance(e, ast.IfExp):
            t = self.truths(self.eval(e.test, env))
            vals = {self.eval(e.body if b else e.orelse, env) for b in t if b != 'fails'}
            if len(vals) == 1:
                return vals.pop()
            ts = [self.truths(v) for v in vals]
            return boolean(frozenset().union(*ts)) if ts and all('fails' not in t for t in ts) else ANY
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return ANY
            return ('seq', tuple(self.eval(x, env) for x in e.elts))
        if isinstance(e, ast.JoinedStr):
            vals = [x for x in e.values if isinstance(x, ast.FormattedValue)]
            if len(vals) == 1 and len(e.values) == 1:
                return self.project(self.eval(vals[0].value, env), 'str')
            sides = {self.side(self.eval(x.value, env)) for x in vals}
            if len(sides) == 1 and None not in sides:
                return ('proj', sides.pop(), ast.unparse(e))
            return ANY
        if isinstance(e, ast.Subscript):
            v = self.eval(e.value, env)
            if isinstance(e.slice, ast.Slice):
                return ANY
            i = self.eval(e.slice, env)
            if v[0] == 'dict' and i[0] == 'const':
                for k, x in v[1]:
                    if k == i:
                        return x
                return ANY
            if v[0] == 'seq' and i[0] == 'const' and isinstance(i[1], int) and -len(v[1]) <= i[1] < len(v[1]):
                return v[1][i[1]]
            if self.fam.pointwise and i == ('sym', '<place>'):
                if v[0] == 'obj':
                    return ('elem', v[1], '')
                if v[0] == 'proj':
                    return ('elem', v[1], v[2])
            return ANY
        if isinstance(e, ast.Dict) and all(k is not None for k in e.keys):
            return ('dict', tuple((self.eval(k, env), self.eval(x, env)) for k, x in zip(e.keys, e.values)))
        if isinstance(e, ast.Call):
            return self.ex_call(e, env)
        if isinstance(e, ast.BinOp):
            a, b = self.eval(e.left, env), self.eval(e.right, env)
            if self.fam.lattice and a[0] == 'obj' and b[0] == 'obj' and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
                return ANY
            if isinstance(e.op, ast.Sub) and a[0] == 'elem' and b[0] == 'elem' and a[2] == b[2]:
                r = self.elem_case if a[1] == 'A' else FLIP.get(self.elem_case)
                return {'lt': const(-1), 'eq': const(0), 'gt': const(1)}.get(r, ANY)
            return ANY
        if isinstance(e, ast.Lambda):
            return ANY
        if isinstance(e, ast.NamedExpr):
            v = self.eval(e.value, env)
            env[e.target.id] = v
            return v
        return ANY

    def ex_call(self, e, env):
        args = [self.eval(a, env) for a in e.args if not isinstance(a, (ast.Starred, ast.GeneratorExp, ast.ListComp))]
        if isinstance(e.func, ast.Name) and e.func.id not in env:
            name = e.func.id
            if name in ('any', 'all') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
                return self.quantified(name, e.args[0], env)
            if any(isinstance(a, (ast.Starred, ast.GeneratorExp, ast.ListComp)) for a in e.args):
                return ANY
            if name in ('isinstance', 'type', 'hasattr', 'issubclass'):
                return boolean(T) if name == 'isinstance' and args and args[0][0] == 'obj' else ANY
            if name == 'bool' and len(args) == 1:
                return boolean(self.truths(args[0]))
            if name in ('str', 'repr', 'tuple', 'list', 'set', 'frozenset', 'sorted', 'len', 'int', 'sum', 'hash', 'min', 'max') and len(args) == 1:
                r = self.project(args[0], name)
                if r != ANY:
                    return r
                t = self.text(args[0])
                return ('sym', f'{name}({t})') if t is not None else ANY
            if name in ('range', 'zip', 'enumerate'):
                return (name, tuple(args))
            f = self.eval(e.func, env)
        else:
            f = self.eval(e.func, env)
        if any(isinstance(a, (ast.Starred, ast.GeneratorExp, ast.ListComp)) for a in e.args):
            return ANY
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                return ANY
            kw[k.arg] = self.eval(k.value, env)
        if f[0] == 'fn' and isinstance(f[1], FuncInfo):
            return self.call(f[1], args, kw)
        if f[0] == 'method':
            _, obj, m = f
            if self.fam.lattice and m.name in ('join', 'meet') and len(args) == 1 and args[0][0] == 'obj':
                sides = {obj[1], args[0][1]}
                if sides == {'A', 'B'}:
                    return ('obj', m.name)
                if len(sides) == 1:
                    return obj
                return ANY
            if m.name in ('__str__', '__repr__'):
                return self.project(obj, 'str')
            name = {fi: n for n, fi in self.fam.ops.items()}.get(m)
            if any(m.name == k.lstrip('.') for k in self.fam.faithful):
                texts = [self.text(a) for a in args] + [f'{k}={self.text(v)}' for k, v in kw.items()]
                if None in texts:
                    return ('proj', obj[1], f'.{m.name}(?)') if not args else ANY
                return ('proj', obj[1], f'.{m.name}(' + ', '.join(map(str, texts)) + ')')
            if m.name == '__len__' or m.name == '__getitem__':
                return ANY
            if obj[1] in ('A', 'B'):
                return self.call(m, [obj] + args, kw)
            return ANY
        if f[0] == 'proj':
            texts = [self.text(a) for a in args]
            if None not in texts and not kw:
                return ('proj', f[1], f'{f[2]}(' + ', '.join(texts) + ')')
            return ANY
        if f[0] == 'sym':
            texts = [self.text(a) for a in args]
            return ('sym', f'{f[1]}(' + ', '.join(texts) + ')') if None not in texts and not kw else ANY
        return ANY

    # -- iteration over places ----------------------------------------------------------------------------------------
    def place_targets(self, target, it):
        """Bindings for one place, or None if the iteration is not one over the places of the operands."""
        if not self.fam.pointwise:
            return None
        if it[0] == 'range' and isinstance(target, ast.Name):
            # the number of places
            if len(it[1]) == 1 and (self.text(it[1][0]) or '').startswith(('Alen', 'Blen', 'A.length', 'B.length', 'len(')):
                return {target.id: ('sym', '<place>')}
            return None
        if it[0] == 'zip' and isinstance(target, ast.Tuple) and len(target.elts) == len(it[1]):
            out = {}
            for t, v in zip(target.elts, it[1]):
                if not isinstance(t, ast.Name) or v[0] not in ('obj', 'proj'):
                    return None
                out[t.id] = ('elem', v[1], v[2] if v[0] == 'proj' else '')
            return out
        if it[0] == 'enumerate' and isinstance(target, ast.Tuple) and len(target.elts) == 2 and len(it[1]) == 1 and isinstance(target.elts[0], ast.Name):
            inner, v = target.elts[1], it[1][0]
            if isinstance(inner, ast.Name) and v[0] in ('obj', 'proj'):
                return {target.elts[0].id: ('sym', '<place>'), inner.id: ('elem', v[1], v[2] if v[0] == 'proj' else '')}
            if v[0] == 'zip':
                r = self.place_targets(inner, v)
                if r is not None:
                    return {target.elts[0].id: ('sym', '<place>'), **r}
        return None

    def quantified(self, name, comp, env):
        if len(comp.generators) != 1:
            return ANY
        g = comp.generators[0]
        it = self.eval(g.iter, env)
        b = self.place_targets(g.target, it)
        if b is None:
            return ANY
        self.sources += 1
        possible, sure = self.places()
        want = name == 'any'
        may = must = False
        for p in possible:
            saved, self.elem_case = self.elem_case, p
            env2 = {**env, **b}
            hold = T
            for c in g.ifs:
                hold = frozenset(x and y for x in hold for y in self.truths(self.eval(c, env2)))
            t = self.truths(self.eval(comp.elt, env2))
            self.elem_case = saved
            if 'fails' in t or 'fails' in hold:
                return ANY
            if True in hold and want in t:
                may = True
                if p in sure and hold == T and t == frozenset([want]):
                    must = True
        if must:
            return const(want)
        return boolean(TF) if may else const(not want)

    # -- statements -------------------------------------------------------------------------------------------------
    def call(self, fi, args, kw=None):
        if fi.is_generator or fi.vararg or fi.kwarg:
            return ANY
        key = (fi, tuple(args), tuple(sorted((kw or {}).items())), self.elem_case)
        if key in [s[1] for s in self.stack]:
            return ('fails', 'recursion')
        if len(self.stack) > MAX_DEPTH:
            return ANY
        env = {}
        for p, a in zip(fi.params, args):
            env[p] = a
        env.update(kw or {})
        self.stack.append((fi, key))
        try:
            for p in fi.all_params:
                if p not in env:
                    env[p] = self.eval(fi.defaults[p], {}) if p in fi.defaults else ANY
            body = fi.node.body
            if not isinstance(body, list):
                return self.eval(body, env)
            outs = self.block(body, [env])
        finally:
            self.stack.pop()
        vals = []
        for kind, x in outs:
            v = const(None) if kind == 'fall' else x if kind == 'return' else None
            if v is not None and v not in vals:
                vals.append(v)
        if not vals:
            return ('fails', 'raises')
        if len(vals) == 1:
            return vals[0]
        ts = [self.truths(v) for v in vals]
        if all(v[0] in ('const', 'bool') and (v[0] == 'bool' or isinstance(v[1], bool)) for v in vals):
            return boolean(frozenset().union(*ts))
        return ANY

    def block(self, stmts, envs):
        outs = []
        for s in stmts:
            nxt = []
            for env in envs:
                for kind, x in self.stmt(s, env):
                    if kind == 'fall':
                        if x not in nxt:
                            nxt.append(x)
                    else:
                        outs.append((kind, x))
            envs = nxt
            if len(envs) > MAX_STATES:
                raise TooMuch
            if not envs:
                break
        return outs + [('fall', env) for env in envs]

    def stmt(self, s, env):
        if isinstance(s, ast.Return):
            v = self.eval(s.value, env) if s.value is not None else const(None)
            return [('return', v)]
        if isinstance(s, ast.Raise):
            return [('raise', None)]
        if isinstance(s, ast.If):
            t = self.truths(self.eval(s.test, env))
            out = []
            for b in sorted(t, key=str):
                if b == 'fails':
                    out.append(('return', ('fails', 'recursion')))
                else:
                    out += self.block(s.body if b else s.orelse, [dict(env)])
            return out
        if isinstance(s, ast.Assign):
            v = self.eval(s.value, env)
            env = dict(env)
            for t in s.targets:
                self.bind(t, v, env)
            return [('fall', env)]
        if isinstance(s, ast.AnnAssign):
            env = dict(env)
            if s.value is not None:
                self.bind(s.target, self.eval(s.value, env), env)
            return [('fall', env)]
        if isinstance(s, ast.AugAssign):
            env = dict(env)
            if isinstance(s.target, ast.Name):
                old = env.get(s.target.id, ANY)
                v = self.eval(s.value, env)
                if isinstance(s.op, (ast.BitAnd, ast.BitOr)) and old[0] in ('const', 'bool') and v[0] in ('const', 'bool'):
                    env[s.target.id] = boolean(frozenset((a and b) if isinstance(s.op, ast.BitAnd) else (a or b)
                                                         for a in self.truths(old) for b in self.truths(v)))
                else:
                    env[s.target.id] = ANY
            return [('fall', env)]
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'true_except':
                return [('fall', env)]                # a guard: the operands are comparable
            self.eval(v, env)
            return [('fall', env)]
        if isinstance(s, ast.Assert):
            return [('fall', env)]
        if isinstance(s, (ast.Pass, ast.Import)):
            return [('fall', env)]
        if isinstance(s, ast.ImportFrom):
            env = dict(env)
            mod = self.stack[-1][0].module
            target = program.resolve_relative(mod, s.level, s.module)
            for al in s.names:
                r = self.prog.entity(self.prog.ns.get(target, {}).get(al.name))
                env[al.asname or al.name] = ('fn', r) if isinstance(r, (FuncInfo, ClassInfo)) else ANY
            return [('fall', env)]
        if isinstance(s, ast.Break):
            return [('break', env)]
        if isinstance(s, ast.Continue):
            return [('continue', env)]
        if isinstance(s, ast.For):
            return self.loop(s, env)
        if isinstance(s, ast.FunctionDef):
            env = dict(env)
            env[s.name] = ANY
            return [('fall', env)]
        raise TooMuch

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                self.bind(x, v[1][i] if v[0] == 'seq' and len(v[1]) == len(t.elts) else ANY, env)

    def loop(self, s, env):
        it = self.eval(s.iter, env)
        b = self.place_targets(s.target, it)
        if b is None:
            raise TooMuch
        self.sources += 1
        possible, sure = self.places()
        start = (tuple(sorted(env.items())), frozenset())
        seen, todo, outs, ends = {start}, [start], [], []
        while todo:
            state, met = todo.pop()
            if met >= sure:
                for kind, x in self.block(s.orelse, [dict(state)]):
                    if (kind, x) not in ends:
                        ends.append((kind, x))
            for p in possible:
                saved, self.elem_case = self.elem_case, p
                res = self.block(s.body, [{**dict(state), **b}])
                self.elem_case = saved
                for kind, x in res:
                    if kind in ('fall', 'continue'):
                        n = (tuple(sorted(x.items())), met | {p} & sure)
                        if n not in seen:
                            seen.add(n)
                            todo.append(n)
                            if len(seen) > MAX_STATES:
                                raise TooMuch
                    elif kind == 'break':
                        if ('fall', x) not in ends:
                            ends.append(('fall', x))
                    elif (kind, x) not in outs:
                        outs.append((kind, x))
        return outs + ends


# -- the families -----------------------------------------------------------------------------------------------------
NAMES = {'lt': '__lt__', 'le': '__le__', 'gt': '__gt__', 'ge': '__ge__', 'eq': '__eq__', 'ne': '__ne__'}


def one_class(prog, name):
    cs = [c for c in prog.classes.values() if c.name == name]
    if len(cs) != 1:
        raise AnalysisError(f'class {name} not found')
    return cs[0]


def methods(c, names, required):
    ops = {}
    for op, n in names.items():
        m = c.lookup(n)
        ops[op] = m if isinstance(m, FuncInfo) else None
    for op in required:
        if ops[op] is None:
            raise AnalysisError(f'{c.name}.{names[op]} not found')
    return ops


def families(prog):
    binv, boolf, part = one_class(prog, 'Binv'), one_class(prog, 'Boolf'), one_class(prog, 'SetPart')
    bit = {'lt': 'bitwise_lt', 'le': 'bitwise_le', 'gt': 'bitwise_gt', 'ge': 'bitwise_ge', 'eq': '__eq__', 'ne': '__ne__'}
    res = [
        Family('Binv', binv, methods(binv, NAMES, ['lt', 'eq']), total=True, faithful=['.vector', '.string', 'str'],
               lossy=['.intval', '.weight', '.length', 'len', '.exposet', 'sum(.vector)', 'len(.vector)']),
        Family('Boolf', boolf, methods(boolf, NAMES, ['lt', 'eq']), total=True, faithful=['str'], lossy=['.root', '.atomvals', '.valency', '.adicity', '.weight', '.fullspots']),
        Family('Boolf (bitwise)', boolf, methods(boolf, bit, ['lt', 'le', 'gt', 'ge', 'eq']), pointwise=True, faithful=['.tt', '.fullspots']),
        Family('Binv (bitwise)', binv, methods(binv, {'lt': 'bitwise_smaller', 'eq': '__eq__', 'ne': '__ne__'}, ['lt', 'eq']),
               pointwise=True, faithful=['.vector', '.exposet']),
        Family('SetPart', part, methods(part, NAMES, ['lt', 'le', 'eq']), lattice=True, faithful=['.blocks'], assume=['.domain']),
    ]
    for f in res:
        if any('total_ordering' in ast.unparse(d) for d in f.cls.node.decorator_list):
            f.total_ordering = True
    return res


SIGN = {'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!='}
MEANING = {'lt': 'is before', 'eq': 'equals', 'gt': 'is after', 'inc': 'is incomparable with'}
EXPECTED = {
    'lt': lambda r: r == 'lt', 'le': lambda r: r in ('lt', 'eq'), 'gt': lambda r: r == 'gt', 'ge': lambda r: r in ('gt', 'eq'),
    'eq': lambda r: r == 'eq', 'ne': lambda r: r != 'eq'}


def outcome(prog, fam, case, name, swap):
    """The possible answers, and whether each of them surely occurs."""
    ev = Evaluator(prog, fam, case)
    x, y = ('obj', 'A'), ('obj', 'B')
    try:
        r = ev.relational(name, *((y, x) if swap else (x, y)))
    except TooMuch:
        return TF, False
    if name == 'lt' and ev.onesided and '.atomvals' not in ev.keys:
        return r, min(ev.onesided)
    return r, ev.exact and ev.sources <= 1


def equality(prog, c):
    """The fields compared by `==` of a class, and in which of the cases 'equal in all but one' the answer is definite."""
    m = c.members.get('__eq__')
    fam = Family(c.name, c, {'eq': m}, lossy=LOSSY)
    complete = True

    def value(differ):
        nonlocal complete
        ev = Evaluator(prog, fam, 'inc', differ)
        try:
            r = ev.truths(ev.call(m, [('obj', 'A'), ('obj', 'B')]))
            complete = complete and not ev.blind
            return r, ev.keys
        except TooMuch:
            complete = False
            return TF, ev.keys
    keys = set()
    while True:
        more = set()
        for k in [None] + sorted(keys):
            more |= value({x: x == k for x in keys} if keys else {})[1]
        if not more - keys:
            break
        keys |= more
    res = {k: value({x: x == k for x in keys})[0] for k in [None] + sorted(keys)} if keys else {}
    return m, res, complete


def show(s):
    return '/'.join(sorted('fails' if b == 'fails' else 'true' if b else 'false' for b in s)) or 'not supported'


def c08():
    prog = Program()
    findings = []
    decided = undecided = 0
    table = {}
    for fam in families(prog):
        have = [n for n, m in fam.ops.items() if m is not None]
        single = 'le' not in fam.ops
        names = ['lt', 'eq', 'ne'] if single else ['lt', 'le', 'gt', 'ge', 'eq', 'ne']
        val = {}
        for case in fam.cases:
            for n in names:
                for swap in (False, True):
                    val[case, n, swap] = outcome(prog, fam, case, n, swap)

        def where(*ns):
            for n in ns:
                m = fam.ops.get(n)
                if m is not None:
                    return m.where(m.node)
            return ''

        for case in fam.cases:
            for n in names:
                for swap in (False, True):
                    got, exact = val[case, n, swap]
                    r = FLIP[case] if swap else case
                    want = EXPECTED[n](r)
                    a, b = ('b', 'a') if swap else ('a', 'b')
                    text = f'{a} {SIGN[n]} {b} when a {MEANING[case]} b'
                    if isinstance(exact, str):
                        findings.append(Finding('one-sided', f'{fam.name}: {n}', f'the operands are compared through {exact}, which fits only one of them', where(n)))
                    elif got == frozenset(['fails']) or not got:
                        findings.append(Finding('comparison-fails', f'{fam.name}: {n}', f'{text}: the comparison never answers', where(n, 'lt')))
                    elif got == frozenset([not want]):
                        findings.append(Finding('comparison', f'{fam.name}: {n}', f'{text}: always {show(got)}, but the relation is {"" if want else "not "}there', where(n, 'lt')))
                    elif exact and (not want) in got:
                        findings.append(Finding('comparison', f'{fam.name}: {n}', f'{text}: {show(frozenset([not want]))} for some operands, but the relation is '
                                                                                  f'{"" if want else "not "}there', where(n, 'lt')))
                    elif got != frozenset([want]):
                        undecided += 1
                        continue
                    decided += 1
        table[fam.name] = {f'a {c} b': {n: show(val[c, n, False][0]) for n in names} for c in fam.cases}
        table[fam.name]['methods'] = sorted(have)
    compared = {}
    for c in sorted(prog.classes.values(), key=lambda c: c.qual):
        if not isinstance(c.members.get('__eq__'), FuncInfo):
            continue
        m, res, _ = equality(prog, c)
        compared[c.name] = {k or 'nothing': show(v) for k, v in res.items()}
        for k, v in res.items():
            decided += len(v) == 1
            if k is None and v == F:
                findings.append(Finding('equal', f'{c.name}: eq', 'objects that agree in everything compared are not equal', m.where(m.node)))
            if k is not None and v == T:
                findings.append(Finding('equal', f'{c.name}: eq', f'objects that differ in {k} compare equal', m.where(m.node)))
            if v == frozenset(['fails']):
                findings.append(Finding('comparison-fails', f'{c.name}: eq', 'the comparison never answers', m.where(m.node)))
    if len(compared) < 3:
        raise AnalysisError(f'only {len(compared)} classes with an equality')
    return findings, dict(
        families=len(table), equalities=compared, truth_tables=table, obligations_decided=decided, obligations_undecided=undecided,
        rule='in every case of how the operands are related, each operator answers according to that relation',
        explanation='Each comparison method is evaluated abstractly for each possible relation of its operands (less, equal, greater, '
                    'incomparable; for place by place orders also the relations among the places); one obligation for each family, '
                    'operator, case and order of the operands, and one for each field compared by an equality. Undecided: a method uses something the domain does not express.')

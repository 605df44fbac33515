"""
C15: the stored form is canonical whatever the construction route.

The ways through the functions that store a canonical field are enumerated with value numbers.  The value stored at the end of
each way is judged: it is wrong when an argument of the caller definitely got there without the step that makes it canonical
(redundant parts dropped, order removed, representatives chosen).  Everything that is not understood counts as such a step.
"""
import ast
import sys

from . import api, flowchecks
from .flow import Engine
from .model import ClassInfo, FuncInfo, Program, own_nodes
from .program import AnalysisError, resolve_relative
from .report import Finding
from .terminate import Analysis, State, TooMuch, Walker, binop, c, compare, inside, is_int, negate, plus, size, truth

# class: {field: requirements}
FIELDS = {
    'Perm': {'mapping': ['fixed'], 'perilen': ['reduced']},
    'WalshPerm': {'matrix_minimal': ['reduced']},
    'Vector': {'mapping': ['power']},
    'SigPerm': {'binv': ['reduced']},
    'SetPart': {'blocks': ['singletons', 'order', 'inner order']},
    'SetPartComp': {'comp_pairs': ['representatives', 'pair order']},
    'Boolf': {'root': ['reduced'], 'atomvals': ['reduced', 'order']},
}
WHAT = {
    'fixed': 'fixed points are not dropped', 'reduced': 'the redundant part is not removed', 'power': 'fixed entries are not dropped',
    'singletons': 'singleton blocks are not dropped', 'order': 'the order of the argument is kept', 'inner order': 'the order within the blocks is kept',
    'representatives': 'elements are not replaced by representatives', 'pair order': 'the order of the pair is kept',
}
OPTION = {'Boolf': {'skip_deflation', 'sd'}}       # explicitly asks for the redundant form
ARGUMENTS = {'Boolf': {'_doa', '_doda'}}           # fields in which the constructor keeps its arguments
TRANSPARENT = {'list', 'tuple', 'dict', 'set', 'frozenset', 'sorted', 'enumerate', 'zip', 'reversed', 'iter', 'map'}
SORTING = {'sorted', 'set', 'frozenset', 'min', 'max'}
SAME = {'items', 'copy', 'keys', 'tolist', 'array', 'asarray', 'deepcopy', 'values', 'astype'}
ABOUT_TYPE = {'have_only', 'subinit_bouncer', 'type', 'isinstance', 'have', 'is_natural', 'callable', 'hasattr'}
REDUCERS = {'reduce_period', 'shrink_matrix', 'deflate'}
MIN_WAYS = 20
MIN_STORES = 20


def parts(v):
    return [x for x in v[1:] if isinstance(x, tuple) and x]


def terms(v):
    yield v
    for x in v:
        if isinstance(x, tuple) and x:
            yield from terms(x)


def strip(v):
    """Copies, wrappers and later rounds of loops."""
    while True:
        if v[0] in ('copy', 'later'):
            v = v[1]
        elif v[0] == 'mut' and len(v) == 3 and isinstance(v[2], tuple):
            v = v[1]
        else:
            return v


class Ways(Walker):
    def __init__(self, an, fi, cls):
        super().__init__(an, fi)
        self.cls = cls
        self.inside_calls = []          # (state, FuncInfo, args, kw): helpers that get values
        self.adds = []                  # (state, field, element)
        self.imports = local_imports(an.prog, fi)
        self.stores = 0

    # functions of the library
    def target_of(self, f):
        if isinstance(f, ast.Name):
            if f.id in self.imports:
                return self.imports[f.id]
            if f.id in self.locals:
                return None
            return self.an.prog.resolve_expr(self.fi.module, f)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and self.cls is not None:
            return self.cls.lookup(f.attr)
        return self.an.prog.resolve_expr(self.fi.module, f)

    def call(self, e, s):
        f = e.func
        t = self.target_of(f)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name) and f.value.value.id == 'self':
            field = f.value.attr
            if f.attr in ('add', 'append') and len(e.args) == 1 and field in FIELDS.get(self.cls.name, ()):
                self.adds.append((s.copy(), field, self.eval(e.args[0], s), e))
            elif field == 'equal_part' and f.attr in ('merge_pair', 'merge_many'):
                self.merged(s, [self.eval(a, s) for a in e.args])
        if isinstance(t, (FuncInfo, ClassInfo)):
            args = [self.eval(a, s) for a in e.args]
            kw = {k.arg: self.eval(k.value, s) for k in e.keywords}
            if isinstance(t, FuncInfo):
                self.inside_calls.append((s.copy(), t, args, kw, isinstance(f, ast.Attribute), e))
            v = ('lib', t.qual) + tuple(args) + tuple(kw.values()) + ((('names',) + tuple(kw),) if kw else ())
            if isinstance(t, FuncInfo):
                r = self.inlined(t, args, kw, isinstance(f, ast.Attribute), s)
                if r is not None:
                    return r
                v = v + (('at', s.env.get('#merged', c(0))[1]),)
            return v
        return super().call(e, s)

    def inlined(self, t, args, kw, method, s, depth=0):
        """A helper that is nothing but an expression."""
        body = [x for x in t.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None or getattr(self, 'depth', 0) > 3 or t.vararg or t.kwarg or t.is_generator:
            return None
        if any(isinstance(x, (ast.Lambda, ast.NamedExpr)) for x in ast.walk(body[0])):
            return None
        w = Ways(self.an, t, self.cls)
        w.depth = getattr(self, 'depth', 0) + 1
        env = bound(t, args, kw, method)
        if env is None:
            return None
        env['#merged'] = s.env.get('#merged', c(0))
        for k, v in s.env.items():
            if k.startswith('self.') or k.startswith('#m'):
                env[k] = v
        return w.eval(body[0].value, State(env))

    def merged(self, s, vals):
        n = s.env.get('#merged', c(0))[1] + 1
        s.env['#merged'] = c(n)
        s.env[f'#m{n}'] = ('vals',) + tuple(vals)
        s.env['self.equal_part'] = ('merged', s.env.get('self.equal_part', ('attr', ('v', 'self'), 'equal_part')), c(n))

    def bind(self, t, v, s):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
            if t.attr == 'equal_part':
                self.merged(s, [x for x in terms(v)])
                return
            s.env['self.' + t.attr] = v
            return
        super().bind(t, v, s)

    # statements
    def stmt(self, st, s):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            e = st.value
            if isinstance(e.func, ast.Name) and e.func.id == 'true_except':
                return [('fall', s)]                    # what is rejected does not make the rest canonical
            t = self.target_of(e.func)
            s = s.copy()
            self.eval(e, s)
            if isinstance(t, FuncInfo):                 # a procedure: may work on its arguments
                for a in list(e.args) + [k.value for k in e.keywords]:
                    if isinstance(a, ast.Name) and a.id != 'self':
                        s.env[a.id] = ('done', self.var(a.id, s))
                    elif isinstance(a, ast.Attribute):
                        s.env[ast.unparse(a)] = ('done', self.eval(a, s))
            return [('fall', s)]
        if isinstance(st, ast.Assert):
            return [('fall', s)]
        if isinstance(st, ast.If) and st.body and isinstance(st.body[-1], ast.Raise) and not st.orelse:
            return [('fall', s)]
        if isinstance(st, ast.While) or isinstance(st, ast.For) and any(isinstance(x, (ast.Delete, ast.Break)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                                                                       and x.func.attr in ('pop', 'remove', 'discard', 'sort') for x in ast.walk(st)):
            s = s.copy()
            gone = {y.id for x in ast.walk(st) if isinstance(x, ast.Delete) for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name)}
            used = {y.id for x in ast.walk(st) if isinstance(x, ast.Expr) for y in ast.walk(x) if isinstance(y, ast.Name) and y.id in self.locals}
            for n in self.assigned(st) | gone | used - {'self'}:
                s.env[n] = ('done', self.var(n, s))
            for x in ast.walk(st):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    s.env[ast.unparse(x)] = ('done', c(0))
            return [('fall', s)]
        if isinstance(st, ast.Return):
            s = s.copy()
            s.env['#return'] = self.eval(st.value, s) if st.value is not None else c(None)
            return [('return', s)]
        return super().stmt(st, s)

    def block(self, stmts, states):
        out = []
        for st in stmts:
            nxt = []
            for s in states:
                for kind, t in self.stmt(st, s):
                    (nxt if kind == 'fall' else out).append(t if kind == 'fall' else (kind, t))
            states = self.joined(nxt)
            self.count += len(states)
            if self.count > 60000:
                raise TooMuch
            if not states:
                break
        return out + [('fall', s) for s in states]

    def joined(self, states):
        if len(states) < 8:
            return states
        groups = {}
        for s in states:
            groups.setdefault(tuple(sorted(s.env.items(), key=lambda kv: kv[0])), []).append(s)
        out = []
        for g in groups.values():
            s = g[0].copy()
            s.conds = tuple(x for x in s.conds if all(x in t.conds for t in g[1:]))
            out.append(s)
        return out

    def run(self, env=None):
        return [t for kind, t in self.block(self.fi.node.body, [State(dict(env or {}))]) if kind in ('fall', 'return')]


def local_imports(prog, fi):
    out = {}
    for n in own_nodes(fi.node):
        if isinstance(n, ast.ImportFrom):
            try:
                mod = resolve_relative(fi.module, n.level, n.module)
            except Exception:
                continue
            for al in n.names:
                b = prog.ns.get(mod, {}).get(al.name) if mod else None
                out[al.asname or al.name] = prog.entity(b)
    return out


def bound(t, args, kw, method):
    ps = list(t.params)
    env = {}
    if method and ps:
        env[ps[0]] = ('v', 'self')
        ps = ps[1:]
    if any(a[0] == 'star' for a in args) or None in kw or len(args) > len(ps):
        return None
    env.update(zip(ps, args))
    for k, v in kw.items():
        env[k] = v
    for p in t.all_params:
        if p not in env:
            d = t.defaults.get(p) if isinstance(t.defaults, dict) else None
            if not isinstance(d, ast.Constant):
                return None
            env[p] = c(d.value)
    return env


class Judge:
    def __init__(self, an, cls, raw, depth=0):
        self.an, self.prog, self.cls = an, an.prog, cls
        self.sources = raw              # names of the parameters that come from the caller as they are
        self.depth = depth
        self.funcs = {f.qual: f for f in self.prog.funcs.values()}

    def cls_of(self, qual):
        return self.prog.classes.get(qual)

    # is the value the caller's, as it is?
    def source(self, v):
        if v[0] == 'v':
            return v[1] in self.sources
        if v[0] == 'load' and v[2][0] == 'c':
            b = strip(v[1])
            while b[0] in ('store', 'mut'):
                b = strip(b[1])
            return b[0] == 'attr' and b[1] == ('v', 'self') and b[2] in ARGUMENTS.get(self.cls.name, ()) or \
                b[0] == 'dict' and any(x[0] == 'v' and x[1] in self.sources for x in parts(b))
        return False

    def raw(self, v, need, conds, probe=None):
        """The requirement is certainly not met by value `v`."""
        v = strip(v)
        if self.source(v):
            return True
        k = v[0]
        if k == 'if':
            return self.raw(v[2], need, conds, probe) and self.raw(v[3], need, conds, probe)
        if k == 'elem' or k == 'load' or k == 'rest':
            b = strip(v[1])
            if k == 'load' and v[2][0] == 'slice':
                return False
            if b[0] == 'lib' and k == 'load':
                return self.returned(b, need, conds, v[2][1] if is_int(v[2]) else None)
            return self.raw(b, need, conds, probe)
        if k in ('call', 'impure'):
            f = v[1]
            args = [x for x in (v[2:] if k == 'call' else v[3:]) if isinstance(x, tuple) and x[0] != 'kw']
            if f == ('g', 'int') and need == 'reduced' and len(args) == 1:
                return self.raw(args[0], need, conds, probe)
            if f[0] == 'g' and f[1] in TRANSPARENT and args:
                if need == 'order' and f[1] == 'sorted' and ('g', 'len') in args[1:]:
                    return self.raw(args[0], need, conds)           # keeps the order of equally long ones
                if need in ('order', 'inner order', 'pair order') and f[1] in SORTING:
                    return False if need != 'inner order' else self.inner(v, conds)
                if need == 'reduced' and f[1] in ('map', 'zip'):
                    return False
                return any(self.raw(a, need, conds, probe) for a in args[:1] if a[0] != 'lambda')
            if f[0] == 'attr' and f[2] in SAME:
                obj = strip(f[1])
                return self.raw(args[0], need, conds, probe) if obj[0] == 'g' and args else self.raw(obj, need, conds, probe)
            return False
        if k == 'lib':
            args = [x for x in v[2:] if x[0] not in ('at', 'names')]
            t = self.cls_of(v[1])
            if t is not None:
                return t.name == 'Binv' and need == 'reduced' and any(self.raw(a, need, conds, probe) for a in args)
            return need != 'representatives' and self.returned(v, need, conds)
        if k == 'comp':
            return self.comp(v, need, conds, probe)
        if k == 'store':
            return self.element(v[2], v[3], need, conds) or self.raw(v[1], need, conds, probe)
        if k == 'put' or k == 'mut' and len(v) == 4 and v[2] in ('append', 'add'):
            if k == 'mut' and need in ('order',):
                return self.raw(v[3], 'element', conds, probe) or self.raw(v[1], need, conds, probe)
            x = v[3]
            if need == 'singletons':
                return self.raw(x, need, conds, probe) and self.passes(x, conds, need, (x,)) or self.raw(v[1], need, conds, probe)
            if need == 'inner order':
                return self.raw(x, 'order', conds, probe)
            if need in ('representatives', 'pair order'):
                return self.pair(x, need, conds)
            return False
        if need == 'element' and k in ('Tuple', 'List'):
            return any(self.raw(x, need, conds, probe) for x in parts(v))
        return False

    def returned(self, v, need, conds, i=None):
        """A function of the library gives back what it got."""
        fi = self.funcs.get(v[1])
        if fi is None or fi.is_generator or self.depth > 3:
            return False
        args = [x for x in v[2:] if x[0] not in ('at', 'names')]
        names = next((x[1:] for x in v[2:] if x[0] == 'names'), ())
        kw = dict(zip(names, args[len(args) - len(names):])) if names else {}
        env = bound(fi, args[:len(args) - len(names)], kw, bool(fi.params) and fi.params[0] == 'self' and ('v', 'self') not in args[:1])
        if env is None:
            return False
        raw = {p for p, x in env.items() if p != 'self' and self.raw(x, need, conds)}
        if not raw:
            return False
        key = (v[1], need, i, frozenset(raw))
        memo = self.an.__dict__.setdefault('returned', {})
        if key not in memo:
            memo[key] = False
            memo[key] = self.gives(fi, need, i, raw)
        return memo[key]

    def gives(self, fi, need, i, raw):
        w = Ways(self.an, fi, self.cls)
        try:
            ends = w.run()
        except (TooMuch, RecursionError):
            return False
        j = Judge(self.an, self.cls, raw, self.depth + 1)
        for t in ends:
            r = t.env.get('#return', c(None))
            if i is not None:
                r = r[i + 1] if r[0] in ('Tuple', 'List') and len(r) > i + 1 else ('load', r, c(i))
            if j.raw(r, need, t.conds) and not j.excused(r, need, t.conds):
                return True
        return False

    def inner(self, v, conds):
        """Order within the elements of a list."""
        v = strip(v)
        if self.source(v):
            return True
        if v[0] == 'call' and v[1][0] == 'g' and v[1][1] in ('list', 'tuple', 'sorted') and len(v) > 2:
            return self.inner(v[2], conds)
        if v[0] == 'comp' and v[1] != 'DictComp':
            return self.raw(v[2][1], 'order', conds)
        return False

    def comp(self, v, need, conds, probe):
        _, kind, vals, cs, its = v
        if need == 'inner order':
            return self.inner(v, conds)
        if need == 'order':
            return kind == 'ListComp' and len(its) == 2 and self.raw(its[1], need, conds) or kind == 'GeneratorExp' and len(its) == 2 and self.raw(its[1], need, conds)
        if kind == 'DictComp':
            return self.element(vals[1], vals[2], need, conds, [(x, True) for x in cs[1:]])
        if need in ('representatives', 'pair order'):
            return self.pair(vals[1], need, conds)
        if need == 'singletons':
            return len(its) == 2 and self.raw(its[1], need, conds) and self.passes(vals[1], conds, need, (('elem', its[1]),), [(x, True) for x in cs[1:]])
        if need in ('fixed', 'power') and vals[1][0] == 'Tuple' and len(vals[1]) == 3:
            return self.element(vals[1][1], vals[1][2], need, conds, [(x, True) for x in cs[1:]])
        return len(its) == 2 and len(cs) == 1 and vals[1] == ('elem', its[1]) and self.raw(its[1], need, conds)

    def element(self, key, val, need, conds, own=()):
        """A redundant entry key: val is stored."""
        if need not in ('fixed', 'power') or not (self.raw(key, 'element', conds) or self.raw(val, 'element', conds)):
            return False
        if any(t[0] in ('done', 'lib') or t[0] == 'comp' and len(t[3]) > 1 or t[:2] == ('call', ('g', 'filter')) for x in (key, val) for t in terms(x)):
            return False
        redundant = key if need == 'fixed' else binop('Pow', c(2), key)
        return self.passes(val, conds, need, (key, val), own, redundant)

    def passes(self, v, conds, need, about, own=(), redundant=None):
        """A redundant element meets the conditions."""
        def replace(t):
            if need == 'singletons':
                if t[:2] == ('call', ('g', 'len')) and t[2] in about:
                    return c(1)
                if t in about:
                    return c(True)
            elif t == v:
                return redundant
            if not isinstance(t, tuple) or t[0] == 'c':
                return t
            new = tuple(replace(x) if isinstance(x, tuple) and x else x for x in t)
            return fold(new)
        elements = {x for a in about for x in terms(a) if x[0] == 'elem'}
        elements = {x for x in elements if not any(x != y and inside(y, x) for y in elements)}      # the innermost
        for atom, want in list(conds) + list(own):
            if about_type(atom) or emptiness(atom) and not (need == 'singletons' and atom in about):
                continue
            if not any(inside(atom, x) or atom == x for x in list(about) + list(elements)):
                continue
            r = fold(replace(atom))
            while r[0] == 'not':
                r, want = r[1], not want
            r = truth(r)
            if r[0] == 'c' and bool(r[1]) == want:
                continue
            return False                    # excluded, or not known
        return True

    def pair(self, x, need, conds):
        """A pair (or triple of a comprehension) that is stored."""
        x = strip(x)
        sorted_ = False
        while x[0] == 'call' and x[1][0] == 'g' and x[1][1] in ('tuple', 'list', 'sorted', 'frozenset', 'set') and len(x) > 2:
            sorted_ = sorted_ or x[1][1] in SORTING
            x = strip(x[2])
        if x[0] in ('Tuple', 'List') and len(x) == 3:
            if need == 'pair order':
                if sorted_ or any(y[0] == 'call' and y[1] in (('g', 'min'), ('g', 'max')) and (len(y) > 3 or y[2][0] in ('Tuple', 'List', 'Set')) for y in parts(x)) or x[1][0] == 'load' and x[2][0] == 'load' and x[1][1] == x[2][1] and x[1][1][0] != 'elem':
                    return False
                return not any(a[0] in ('<', '==') and (inside(a, x[1]) or inside(a, x[2])) for a, _ in conds)
            return any(self.raw(y, need, conds) for y in parts(x))
        if sorted_ and need == 'pair order':
            return False
        return self.source(x) or x[0] == 'elem' and self.source(strip(x[1]))

    def excused(self, v, need, conds):
        """The caller asked for it, there is nothing to do, or the condition may say that the value is canonical already."""
        options = OPTION.get(self.cls.name, set())
        base = {x for x in terms(v) if self.source(x)}
        for atom, want in conds:
            if need == 'reduced' and want and any(t[0] == 'v' and t[1] in options or t[0] == 'load' and t[2][0] == 'c' and t[2][1] in options for t in [atom]):
                return True
            if atom[:2] == ('call', ('g', 'have')) or atom[0] == 'lib' and atom[1].endswith('.have'):
                if not want and any(x in base or x == v for x in parts(atom)):
                    return True
                continue
            if atom[0] in ('==', 'is') and c(None) in atom[1:]:
                if want and any(x in base for x in atom[1:]):
                    return True
                continue
            if about_type(atom) or harmless(atom) or need == 'reduced' and atom[0] == '==' and any(t[:2] == ('call', ('g', 'sorted')) for t in atom[1:]):
                continue
            if emptiness(atom):
                if atom[0] == '==' and want and any(x in base or strip(x) == strip(v) for x in atom[1:]) or atom[0] != '==' and not want and (atom in base or strip(atom) == strip(v)):
                    return True
                continue
            if any(t[0] == 'done' for t in terms(atom)):
                return True
            if need not in ('fixed', 'power', 'singletons', 'pair order', 'representatives') and any(inside(atom, x) or atom == x for x in base):
                if not only_size(atom, base) or need in ('order', 'inner order') and small(atom, want):
                    return True
        return False


def fold(t):
    if t[0] == '==':
        a, n = compare(ast.Eq(), t[1], t[2])
        return negate(a) if n else a
    if t[0] == '<':
        a, n = compare(ast.Lt(), t[1], t[2])
        return negate(truth(a)) if n else a
    if t[0] == 'not':
        return negate(t[1])
    if t[0] == 'and':
        xs = [x for x in t[1:] if not (x[0] == 'c' and x[1])]
        return c(False) if any(x[0] == 'c' for x in xs) else c(True) if not xs else ('and',) + tuple(xs)
    if t[0] == 'or':
        xs = [x for x in t[1:] if not (x[0] == 'c' and not x[1])]
        return c(True) if any(x[0] == 'c' for x in xs) else c(False) if not xs else ('or',) + tuple(xs)
    if t[0] == 'op' and len(t) == 4:
        return binop(t[1], t[2], t[3])
    return t


def about_type(atom):
    if atom[0] in ('call', 'lib', 'impure'):
        n = atom[1][1] if isinstance(atom[1], tuple) and atom[1][0] == 'g' else atom[1].rsplit('.', 1)[-1] if isinstance(atom[1], str) else ''
        return n in ABOUT_TYPE
    if atom[0] in ('==', 'in', 'is', 'and', 'or', 'not'):
        return any(about_type(x) or x[:2] == ('call', ('g', 'type')) for x in parts(atom))
    return False


def harmless(atom):
    """Only which arguments are given, and their types."""
    if atom[0] in ('and', 'or', 'not'):
        return all(harmless(x) for x in atom[1:])
    return atom[0] in ('==', 'is') and c(None) in atom[1:] or about_type(atom)


def emptiness(atom):
    if atom[0] == '==':
        return any(x in (('List',), ('Tuple',), ('dict',), ('call', ('g', 'dict')), ('call', ('g', 'list')), ('call', ('g', 'set')), ('call', ('g', 'tuple'))) for x in atom[1:])
    if atom[0] == 'call' and (atom[1][0] == 'attr' and atom[1][2] in SAME or atom[1][0] == 'g' and atom[1][1] in TRANSPARENT) or atom[0] == 'elem':
        return True
    return atom[0] in ('v', 'load', 'attr', 'store', 'mut', 'put', 'comp', 'later', 'copy') or atom[:2] in (('call', ('g', 'len')), ('call', ('g', 'dict')), ('call', ('g', 'list')))


def small(atom, want):
    """At most one element."""
    if atom[0] == '<' and want and is_int(atom[2]):
        return atom[2][1] <= 2
    if atom[0] == '<' and not want and is_int(atom[1]):
        return atom[1][1] <= 1
    return atom[0] == '==' and want and any(x in (c(0), c(1)) for x in atom[1:])


def only_size(atom, base):
    """Says only how long the value is (and not that it is empty)."""
    def cut(t):
        if t[:2] == ('call', ('g', 'len')):
            return c(0)
        return tuple(cut(x) if isinstance(x, tuple) and x else x for x in t) if t[0] != 'c' else t
    t = cut(atom)
    return not any(inside(t, x) or t == x for x in base)


# -- the decision ---------------------------------------------------------------------------------------------------------
def c15():
    sys.setrecursionlimit(50000)
    prog = Program()
    findings, cov = decide(prog)
    more, probe = texts(prog)
    cov.update(probe)
    return findings + more, cov


def decide(prog):
    an = Analysis(prog, set(prog.funcs.values()), set())
    classes = {cl.name: cl for cl in prog.classes.values() if cl.name in FIELDS}
    if set(classes) != set(FIELDS):
        raise AnalysisError(f'classes not found: {sorted(set(FIELDS) - set(classes))}')
    findings, ways, judged, verdicts, skipped = [], 0, 0, {}, []
    for name, fields in sorted(FIELDS.items()):
        cl = classes[name]
        if not isinstance(cl.lookup('__init__'), FuncInfo):
            raise AnalysisError(f'{name}.__init__ not found')
        # functions that store one of the fields, and helpers they get values from
        todo, walkers = [], {}
        members = {m for m in cl.members.values() if isinstance(m, FuncInfo)}
        for fi in sorted(members, key=lambda f: f.qual):
            todo.append(fi)
        seen = set()
        while todo:
            fi = todo.pop(0)
            if fi in seen or len(seen) > 400:
                continue
            seen.add(fi)
            if not concerns(fi, cl, fields, members):
                continue
            w = Ways(an, fi, cl)
            try:
                w.ends = w.run()
            except (TooMuch, RecursionError):
                skipped.append(fi.qual)
                continue
            walkers[fi] = w
            for _, t, args, kw, method, _e in w.inside_calls:
                if t not in seen and 'self' in t.all_params:
                    todo.append(t)
        entries = {fi for fi in walkers if fi in members and (fi.name == '__init__' or not fi.name.startswith('_'))}
        for f in fields:
            if not any(f'self.{f}' in t.env for w in walkers.values() for t in w.ends):
                raise AnalysisError(f'{name}.{f} is not stored by any constructor that was analysed')
        for fi, w in sorted(walkers.items(), key=lambda x: x[0].qual):
            ways += len(w.ends)
            for f, needs in fields.items():
                for need in needs:
                    j = Judge(an, cl, raw_params(an, cl, fi, walkers, entries, need))
                    bad = []
                    for t in w.ends:
                        v = t.env.get(f'self.{f}')
                        if v is None:
                            continue
                        judged += 1
                        if j.raw(v, need, t.conds) and not j.excused(v, need, t.conds):
                            bad.append((v, t.conds))
                    for s, field, x, e in w.adds:
                        if field != f or need not in ('representatives', 'pair order'):
                            continue
                        judged += 1
                        if j.pair(x, need, s.conds):
                            bad.append((x, s.conds))
                        elif need == 'representatives':
                            st = stale(x, s)
                            if st:
                                findings.append(Finding('stale-representative', f'{fi.qual}: {f}', 'the representative was chosen before the blocks were merged', fi.where(e)))
                    verdicts[f'{fi.qual}: {f} ({need})'] = 'kept' if bad else 'ok'
                    if bad:
                        findings.append(Finding('not-canonical', f'{name}.{f} ({need}) in {fi.qual}', f'{WHAT[need]} on {len(bad)} of {len(w.ends)} ways' + said(bad[0][1]), fi.where(fi.node)))
    if ways < MIN_WAYS or judged < MIN_STORES:
        raise AnalysisError(f'only {ways} ways and {judged} stores')
    more, reducers = repeated(prog)
    findings += more
    return findings, dict(
        classes=len(classes), canonical_fields=sum(len(v) for v in FIELDS.values()), ways=ways, stores_judged=judged, verdicts=verdicts, functions_that_reduce=reducers, not_analysed=skipped,
        rule='no argument reaches a canonical field without the step that removes what is redundant in it',
        explanation='The ways through the functions that store a canonical field are enumerated with value numbers; a stored value is judged for each requirement '
                    '(redundant entries, period, order, representatives). Values that are not understood count as canonical.')


def said(conds):
    return ''


def concerns(fi, cl, fields, members):
    """Stores a canonical field of its class, or passes values to a function that may."""
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Attribute) and x.attr in fields and isinstance(x.value, ast.Name) and x.value.id == 'self':
            if isinstance(x.ctx, ast.Store):
                return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and x.func.value.attr in fields and x.func.attr in ('add', 'append'):
            return True
    return fi.name == '__init__' or fi.name in ('set_equal', 'set_comp')


def raw_params(an, cl, fi, walkers, entries, need, depth=0):
    """Parameters that hold what the caller passed, as far as the requirement is concerned."""
    ps = [p for p in fi.all_params if p != 'self']
    if fi in entries and (fi.name == '__init__' or not any(t is fi for w in walkers.values() for _, t, *_ in w.inside_calls)):
        return set(ps)
    out = set()
    if depth > 3:
        return out
    for g, w in walkers.items():
        if g is fi:
            continue
        for s, t, args, kw, method, _e in w.inside_calls:
            if t is not fi:
                continue
            env = bound(fi, args, kw, method) or {}
            j = Judge(an, cl, raw_params(an, cl, g, walkers, entries, need, depth + 1))
            out |= {p for p in ps if p in env and j.raw(env[p], need, s.conds) and not j.excused(env[p], need, s.conds)}
    return out


def stale(x, s):
    """The pair contains a representative of an element whose block has been merged since."""
    now = s.env.get('#merged', c(0))[1]
    for t in terms(x):
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('element_to_block', 'get_block', 'get_repr'):
            then, args = version(t[1][1]), t[2:]
        elif t[0] == 'lib' and t[1].rsplit('.', 1)[-1] in ('_representative', 'get_block', 'get_repr') and t[-1][0] == 'at':
            then, args = t[-1][1], [y for y in t[2:-1] if y[0] != 'names']
        else:
            continue
        for n in range(then + 1, now + 1):
            if any(a == y for a in args if a != ('v', 'self') for y in s.env.get(f'#m{n}', ('vals',))[1:]):
                return True
    return False


def version(obj):
    return obj[2][1] if obj[0] == 'merged' else 0


def reducing(x):
    if isinstance(x, ast.Delete) or isinstance(x, (ast.BinOp, ast.AugAssign)) and isinstance(x.op, ast.FloorDiv):
        return True
    return isinstance(x, ast.Slice) and isinstance(x.upper, ast.UnaryOp)


def repeated(prog):
    """What reduces a period, matrix or truth table goes on until nothing is left to reduce."""
    out, count = [], 0
    for fi in sorted(prog.funcs.values(), key=lambda f: f.qual):
        if fi.name not in REDUCERS:
            continue
        count += 1
        nodes = list(own_nodes(fi.node))
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == fi.name for x in nodes):
            continue
        red = [x for x in nodes if reducing(x)]
        loops = [x for x in nodes if isinstance(x, (ast.While, ast.For)) and any(y in red for y in ast.walk(x))]
        outer = [x for x in loops if not any(x is not y and x in list(ast.walk(y)) for y in loops)]
        if red and not loops and not any(isinstance(x, (ast.While, ast.For)) for x in nodes):
            out.append(Finding('reduced-once', fi.qual, 'reduced once, although the result may be reducible again', fi.where(red[0])))
        elif red and not loops and all(once(prog, fi, x) for x in red):
            out.append(Finding('reduced-once', fi.qual, 'reduced once after the search, although the result may be reducible again', fi.where(red[0])))
        for lp in outer:
            for x in leaves(lp.body, False):
                if isinstance(lp, ast.While):
                    out.append(Finding('reduced-once', fi.qual, 'the loop is left after one reduction, although the result may be reducible again', fi.where(x)))
    return out, count


def once(prog, fi, x):
    return not isinstance(x, (ast.Delete, ast.Slice))


def leaves(stmts, done):
    """`break` and `return` statements that come after a reduction in the same round."""
    out = []
    for st in stmts:
        if isinstance(st, ast.If):
            a, b = leaves(st.body, done), leaves(st.orelse, done)
            out += a + b
            ra, rb = (any(reducing(x) for y in arm for x in ast.walk(y)) and not ends(arm) for arm in (st.body, st.orelse))
            done = done or ra or rb
        elif isinstance(st, (ast.Break, ast.Return)):
            if done:
                out.append(st)
            return out
        elif isinstance(st, (ast.Continue, ast.Raise)):
            return out
        elif isinstance(st, (ast.For, ast.While, ast.Try, ast.With)):
            return out                      # left open
        elif any(reducing(x) for x in ast.walk(st)):
            done = True
    return out


def ends(stmts):
    return bool(stmts) and isinstance(stmts[-1], (ast.Break, ast.Return, ast.Continue, ast.Raise))


def texts(prog):
    """The order in which the entries of a mapping were given leaves no trace in texts and cycles."""
    eng = Engine(prog, max_rounds=25)
    eng.shuffled = {'mapping'}
    roots = [r for r in api.roots(prog) if r.cls is not None and r.cls.name in ('Perm', 'WalshPerm', 'Vector', 'SigPerm')
             and r.member in ('__init__', '__str__', '__repr__', 'cycles')]
    seen = {(r.cls.name, r.member) for r in roots}
    if len([r for r in seen if r[1] != '__init__']) < 7:
        raise AnalysisError(f'only {len(seen)} texts found')
    findings = []
    for r, s in zip(roots, eng.run_roots([(r.fi, r.shapes, r.fresh) for r in roots])):
        tags = flowchecks.tags_in_result(s, 'unordered') | flowchecks.tags_in_stores(s, 'unordered')
        if any('@mapping' in t for t in tags) and r.member != '__init__':
            findings.append(Finding('order-of-entries', r.label, 'depends on the order in which the entries of the mapping were given', r.fi.where(r.fi.node)))
    return findings, dict(texts_analysed=len(seen), functions_analysed=len(eng.analysed_functions), function_contexts=len(eng.summaries))

"""
Typestate facts that travel with the dataflow.

Next to the values of the variables, every program point has a set of facts that hold on all paths (`must`) and a set
of facts that hold on some path (`may`):

must  ('def', object, field)      the field has been assigned
      ('has', object, field)      the field exists
      ('clr', object, field)      the field has been assigned (or the cache emptied) after everything it depends on changed
      ('empty', object, name)     the cached value is not stored
      ('eq', {a, b})              the two values (access paths) are equal;  ('ne', ...) they are not
      ('chk', parameter)          a guard that can raise has accepted the argument
may   ('w', parameter)            something reachable from the argument has been changed
      ('stale', object, field, why)   the field or cached value has not been renewed after a change it depends on
      ('cread', object, name)     the cached value has been read (and is stored now)

Exceptions that can leave a function after a change ("late") are recorded with the arguments they depend on.
"""
import ast

from .model import FuncInfo

E0 = frozenset()


class TS:
    __slots__ = ('must', 'may')
    t = p = fl = fn = E0        # looks like an empty value to code that walks over environments
    c = None

    def __init__(self, must=E0, may=E0):
        self.must, self.may = must, may

    def __eq__(self, o):
        return isinstance(o, TS) and self.must == o.must and self.may == o.may

    def __hash__(self):
        return hash((self.must, self.may))


START = TS()


def join_ts(a, b):
    if a is b or a == b:
        return a
    return TS(join_must(a.must, b.must), a.may | b.may)


def join_must(a, b):
    out = a & b
    for x, y in ((a, b), (b, a)):
        # the fields of a complete object have been copied: whatever the other path assigned exists here, too
        full = {f[:2] for f in y if f[0] in ('def', 'has') and f[2] == '*'}
        if full:
            out |= {f for f in x if f[:2] in full}
    return out


def is_field(step):
    return step[0] not in "[#<'@^~!" and step != '__dict__'


# fields of the relation that have to be renewed in two steps (an old entry removed, a new one added)
PAIRED = {('SetPartComp', 'comp_pairs'): ('comp_pairs (new pair)', 'comp_pairs (old pair)')}
# they matter only where a counterpart is known to exist: the operation whose result tells
COUNTERPART = {('SetPartComp', 'comp_pairs'): 'get_comp'}
ADDING = {'add()', 'update()', 'append()', 'augmented assignment', 'item assignment'}
REMOVING = {'remove()', 'discard()', 'pop()', 'clear()', 'difference_update()', 'augmented assignment', 'del item'}


# fields that exist only for some objects
CONDITIONAL = {('SetPart', 'length'): "the domain is 'N'"}


def own_names(comp):
    return {n.id for n in ast.walk(comp.target) if isinstance(n, ast.Name)}


def assigned_names(func):
    """Variables of the function itself (not of its comprehensions)."""
    out = {a.arg for a in func.args.args + func.args.kwonlyargs}
    inner = {id(x) for n in ast.walk(func) if isinstance(n, ast.comprehension) for x in ast.walk(n.target)}
    for n in ast.walk(func):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in inner:
            out.add(n.id)
    return out


def read_fields(node):
    return {n.attr for n in ast.walk(node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)
            and isinstance(n.value, ast.Name) and n.value.id == 'self'}


def fi_classes(frame, bound):
    v = bound.get('self')
    return [frame.eng.cls(t) for t in (v.t if v is not None else ()) if t.startswith('C:')]


class StateMixin:
    """The part of a frame that maintains the typestate facts."""

    # -- changes ----------------------------------------------------------------------------------------------------
    def wrote(self, path, field, env, node, how):
        """`how`: 'assigned', or the name of the in-place operation."""
        root, steps = path
        if root[0] != 'p':
            return
        ts = env['$']
        must, may = set(ts.must), set(ts.may)
        may.add(('w', root[1]))
        whole = how == 'assigned'
        classes = self.classes_at(path)
        paired = [PAIRED[(c.name, field)] for c in classes if (c.name, field) in PAIRED]
        if whole:
            must |= {('def', path, field), ('has', path, field)}
        renewed = {field} if not paired else set()
        for new, old in paired:
            if whole or how in ADDING:
                renewed.add(new)
            if whole or how in REMOVING:
                renewed.add(old)           # may happen before or after the change
        may = {f for f in may if not (f[0] == 'stale' and f[1] == path and f[2] in renewed)}
        if whole:
            for r in renewed:
                must.add(('clr', path, r))
        elif paired:
            for r in renewed:
                must.add(('clr', path, r))
        if not (root[1] == 'self' and not steps and self.fresh_self):
            for c in classes:
                cause = f'{self.fi.qual}: {field}'
                for name in self.eng.cached_dependents(c, field):
                    if ('empty', path, name) not in must:
                        may.add(('stale', path, '@' + name, cause))
                        must.discard(('clr', path, '@' + name))
                if self.fi not in self.eng.initialisers(c):
                    for g in self.eng.derived_fields(c).get(field, ()):
                        known = (c.name, g) not in PAIRED or self.counterpart_known(COUNTERPART[(c.name, g)], env)
                        for i, x in enumerate(PAIRED.get((c.name, g), (g,))):
                            if i == 1 and ('clr', path, x) in must:
                                continue
                            must.discard(('clr', path, x))
                            if known:
                                may.add(('stale', path, x, cause))
        env['$'] = TS(frozenset(must), frozenset(may))

    def counterpart_known(self, op, env):
        """Is there a variable that holds the (existing) result of the operation?"""
        for name in self.results_of(op):
            v = env.get(name)
            if v is not None and v.t and 'none' not in v.t:
                return True
        return False

    def results_of(self, op):
        cache = self.__dict__.setdefault('_results_of', {})
        if op not in cache:
            cache[op] = {t.id for n in ast.walk(self.fi.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call)
                         and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == op
                         for t in n.targets if isinstance(t, ast.Name)}
        return cache[op]

    def classes_at(self, path):
        sh = self.shape_at(path)
        if sh is None:
            return []
        return [c for c in (self.eng.cls(t) for t in sorted(sh.t) if t.startswith('C:')) if c is not None]

    def mutated(self, path, env, node, how, below=None):
        """A container or object at the path changes in place; `below`: only objects with fewer steps than that."""
        root, steps = path
        if root[0] != 'p' or '$' not in env:
            return
        if ('w', root[1]) not in env['$'].may:
            env['$'] = TS(env['$'].must, env['$'].may | {('w', root[1])})
        for i, st in enumerate(steps):
            if below is not None and i >= below:
                break
            if is_field(st) and self.classes_at((root, steps[:i])):
                self.wrote((root, steps[:i]), st, env, node, how)

    # -- cached values ----------------------------------------------------------------------------------------------
    def cache_read(self, paths, name, env):
        if '$' not in env:
            return
        for p in paths:
            if p[0][0] == 'p':
                ts = env['$']
                env['$'] = TS(ts.must - {('empty', p, name)}, ts.may | {('cread', p, name)})

    def stale_read(self, path, what, name, node, env):
        if '$' in env and any(f[0] == 'stale' and f[1] == path and f[2] == what for f in env['$'].may):
            self.eng.event('stale-read', self.fi, node, name)

    def cache_emptied(self, path, names, env):
        if '$' not in env or path[0][0] != 'p':
            return
        ts = env['$']
        may = frozenset(f for f in ts.may if not (f[0] == 'stale' and f[1] == path and f[2][1:] in names and f[2][0] == '@'))
        new = {('empty', path, n) for n in names} | {('clr', path, '@' + n) for n in names}
        env['$'] = TS(ts.must | new, may)

    def all_cached(self, path):
        return {n for c in self.classes_at(path) for n, m in c.all_members().items() if isinstance(m, FuncInfo) and m.kind == 'cached'}

    def add_must(self, env, *facts):
        if '$' in env and facts:
            env['$'] = TS(env['$'].must | frozenset(facts), env['$'].may)

    # -- what arguments an expression depends on -----------------------------------------------------------------------
    def sources(self):
        """variable -> expressions that flow into it"""
        src = self.__dict__.get('_sources')
        if src is not None:
            return src
        src = self._sources = {}
        outer = assigned_names(self.fi.node)

        def bind(t, *es):
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    src.setdefault(n.id, []).extend(es)
                    if isinstance(t, (ast.Subscript, ast.Attribute)):
                        break
        for n in ast.walk(self.fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                        for x, y in zip(t.elts, n.value.elts):
                            bind(x, y)
                        continue
                    if isinstance(t, ast.Subscript):
                        bind(t.value, n.value, t.slice)
                    elif not isinstance(t, ast.Attribute):
                        bind(t, n.value)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    bind(n.target, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                if isinstance(n, ast.For) or not own_names(n) & outer:
                    bind(n.target, n.iter)
            elif isinstance(n, ast.NamedExpr):
                bind(n.target, n.value)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in ('append', 'extend', 'add', 'update', 'insert', 'setdefault'):
                src.setdefault(n.func.value.id, []).extend(n.args)
        return src

    def class_call(self, e):
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name)):
            return False
        for n in ast.walk(self.fi.node):
            if isinstance(n, ast.ImportFrom) and any((a.asname or a.name) == e.func.id for a in n.names):
                return e.func.id[:1].isupper()
        b = self.prog.ns.get(self.mod.name, {}).get(e.func.id)
        return b is not None and b[0] == 'class'

    def deps(self, expr, before=None, content=False):
        """
        Arguments (other than the object itself) the value of an expression depends on.
        `before`: ignore assignments below that line;  `content`: not what only its type or length depends on.
        """
        params = set(self.fi.all_params) - {'self'}
        src = self.sources()
        if before is not None:
            src = {n: [e for e in es if getattr(e, 'lineno', 0) <= before] for n, es in src.items()}
        out, seen = set(), set()

        def objects(name):
            es = src.get(name)
            return bool(es) and all(self.class_call(x) for x in es)

        def visit(e):
            if self.class_call(e):
                return                      # a validated object
            if content and isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('len', 'type', 'isinstance'):
                return
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and (e.value.id == 'self' or objects(e.value.id)):
                return                      # state of a validated object
            if isinstance(e, ast.Name):
                if e.id in params:
                    out.add(e.id)
                if e.id not in seen:
                    seen.add(e.id)
                    for x in src.get(e.id, ()):
                        visit(x)
                return
            for c in ast.iter_child_nodes(e):
                visit(c)
        visit(expr)
        return out

    def checked(self, test, env):
        """The test has been passed, and its failure raises."""
        if env is not None:
            line = test.lineno
            for n in self.parents_of(test):
                if isinstance(n, (ast.For, ast.While)):
                    line = max(line, n.end_lineno)
            names = set()
            for e in self.tested(test):
                names |= self.deps(e, before=line, content=True)
            self.add_must(env, *(('chk', x) for x in names))

    def tested(self, test, depth=3):
        """The values a test asks the object about: arguments of methods, members of what the object holds."""
        out = []
        if depth == 0:
            return out
        for n in ast.walk(test):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                out += n.args
                if n.func.attr in ('issubset', 'issuperset', 'isdisjoint'):
                    out.append(n.func.value)
            elif isinstance(n, ast.Compare):
                if any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
                    out.append(n.left)
                elif any(isinstance(x, (ast.Set, ast.SetComp)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'set'
                         for x in [n.left, *n.comparators]):
                    out += [n.left, *n.comparators]        # set algebra
            elif isinstance(n, ast.Name):
                for e in self.sources().get(n.id, ()):
                    if isinstance(e, (ast.BoolOp, ast.Compare, ast.UnaryOp)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) \
                            and isinstance(test, (ast.Name, ast.BoolOp, ast.UnaryOp)):
                        if e.lineno <= test.lineno and e is not test:
                            out += self.tested(e, depth - 1)
        return out

    def arg_exprs(self, fi, node):
        """parameter -> argument expression at a call"""
        if not isinstance(node, ast.Call):
            return {}
        out = {}
        names = list(fi.params)
        if names and names[0] == 'self':
            f = node.func
            explicit = isinstance(f, ast.Name) and node.args and not fi.name == '__init__'
            if explicit and len(node.args) + len(node.keywords) >= len(names) - len(fi.defaults):
                pass                        # plain function call with `self` as an argument
            else:
                names = names[1:]
        for i, a in enumerate(node.args):
            if isinstance(a, ast.Starred):
                for n in names[i:]:
                    out[n] = a.value
                break
            if i < len(names):
                out[names[i]] = a
        for k in node.keywords:
            if k.arg:
                out[k.arg] = k.value
        return out

    # -- exceptions after changes -----------------------------------------------------------------------------------
    def exc_after_change(self, exc, env, chain):
        if '$' not in env:
            return
        for f in env['$'].may:
            if f[0] == 'w':
                self.add_late(f[1], exc, None, chain)

    def add_late(self, root, exc, cond, chain, node=None, s=None):
        if root == 'self' and self.fresh_self:
            return
        if self.fi.name == '__init__' and root == 'self':
            cond = self.init_condition(node, s)
        self.late_stack[-1].setdefault((root, exc, cond), chain)

    def init_condition(self, node, s):
        """Arguments of the initialisation an exception depends on."""
        every = frozenset(self.fi.all_params) - {'self'}
        if s is None or not isinstance(node, ast.Call):
            return every
        flows = self.field_arguments()
        out = set()
        for a in list(node.args) + [k.value for k in node.keywords]:
            out |= self.deps(a)
            out.update(*(flows.get(f, () if self.is_method(f) else every) for f in read_fields(a) | self.read_through(a)))
        out.update(*(flows.get(f, ()) for path, f in s.reads if path == (('p', 'self'), ())))
        return frozenset(out) or every

    def is_method(self, name):
        return any(isinstance(c.lookup(name), FuncInfo) for c in self.classes_at((('p', 'self'), ())))

    def read_through(self, expr):
        """Fields of the object that the methods called in an expression read."""
        out = set()
        for n in ast.walk(expr):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                for c in self.classes_at((('p', 'self'), ())):
                    m = c.lookup(n.func.attr)
                    if isinstance(m, FuncInfo):
                        out |= read_fields(m.node)
        return out

    def field_arguments(self):
        """field -> arguments of this function that flow into it"""
        res = self.__dict__.get('_field_arguments')
        if res is None:
            direct = {}
            for n in ast.walk(self.fi.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            d = direct.setdefault(t.attr, (set(), set()))
                            d[0].update(self.deps(n.value))
                            d[1].update(read_fields(n.value))
                            for name in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}:
                                for e in self.sources().get(name, ()):
                                    d[1].update(read_fields(e))
            res = {f: set(d[0]) for f, d in direct.items()}
            for _ in direct:
                for f, d in direct.items():
                    for g in d[1]:
                        res[f] |= res.get(g, set())
            self._field_arguments = res
        return res

    def apply_late(self, s, fi, bound, node, env, here):
        if '$' not in env:
            return
        must, may = env['$'].must, env['$'].may
        dirty = {f[1] for f in may if f[0] == 'w'}
        again = fi.name == '__init__' and bound.get('self') is not None and any(p[0][0] == 'p' for p in bound['self'].p)

        def depends(cond, root):
            """Arguments of this function the exception depends on, unless they have been checked."""
            out = set()
            exprs = self.arg_exprs(fi, node)
            for n in cond:
                if n in exprs:
                    out |= self.deps(exprs[n])
            if not cond:
                return frozenset()
            if root in dirty:
                out |= set(self.fi.all_params) - {'self', root}
            return frozenset(n for n in out if ('chk', n) not in must
                             and not (env.get(n) is not None and env[n].t and env[n].t <= {'none', 'bool'}))
        lates = dict(s.late)
        if again:
            # repeated initialisation: it can fail only because of its arguments
            args = frozenset(fi.all_params) - {'self'}
            for x, chain in s.raises.items():
                if not any(k[1] == x for k in lates):
                    lates[('self', x, args)] = chain
        for (root, x, cond), chain in lates.items():
            v = bound.get(root)
            for p in (v.p if v is not None else ()):
                if p[0][0] != 'p':
                    continue
                c = cond if cond is None else depends(cond, p[0][1])
                self.add_late(p[0][1], x, c, (here,) + chain, node, s)
        for x, chain in s.raises.items():
            mine = [k for k in lates if k[1] == x]
            if mine and all(k[2] is not None for k in mine):
                continue
            for r in dirty | ({'self'} if self.fi.name == '__init__' and not mine else set()):
                self.add_late(r, x, None, (here,) + chain, node, s)

    # -- reading fields ---------------------------------------------------------------------------------------------
    def tolerated(self, node, exc):
        """Is the node inside a `try` that handles the exception?"""
        inner = node
        for n in self.parents_of(node):
            if isinstance(n, ast.Try) and any(inner is b or any(inner is x for x in ast.walk(b)) for b in n.body):
                for h in n.handlers:
                    names = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} if h.type is not None else {exc}
                    if names & {exc, 'Exception', 'BaseException'}:
                        return True
        return False

    def need(self, p, c, field, node, env, chain):
        """A field is read that must have been assigned before."""
        if '$' in env and (('has', p, field) in env['$'].must or ('has', p, '*') in env['$'].must):
            return
        if len(p[1]) > 0 or p[0][0] != 'p':
            p = None                   # an object that has been constructed before
        key = (p, c.qual, field)
        if key not in self.needs and not self.tolerated(node, 'AttributeError'):
            self.needs[key] = chain

    def comp_facts(self, comp):
        """Facts that depend on the results of calls inside a comprehension."""
        for n in ast.walk(comp):
            if isinstance(n, ast.Call):
                yield from self.call_if.get(id(n), {}).values()

    def facts_if(self, test, outcome):
        """Facts established by a call whose result has the given truth value."""
        if isinstance(test, ast.Name):
            es = self.sources().get(test.id, ())
            test = es[0] if len(es) == 1 else test
        if isinstance(test, ast.Call):
            if isinstance(test.func, ast.Name) and test.func.id == 'hasattr' and outcome and len(test.args) == 2 \
                    and isinstance(test.args[0], ast.Name) and isinstance(test.args[1], ast.Constant):
                return {('has', (('p', test.args[0].id), ()), test.args[1].value)}
            return self.call_if.get(id(test), {}).get(outcome, ())
        return ()

    # -- calls ------------------------------------------------------------------------------------------------------
    def apply_needs(self, s, fi, bound, node, env, walk, here):
        for (path, c, field), chain in s.needs.items():
            if path is None:
                self.needs.setdefault((None, c, field), (here,) + chain)
                continue
            for p in walk(path):
                cl = self.eng.cls('C:' + c)
                self.need(p, cl, field, node, env, (here,) + chain)

    def map_fact(self, f, one):
        if f[0] in ('def', 'has'):
            p = one(f[1])
            return None if p is None else (f[0], p, f[2])
        ps = [one(x) for x in f[1]]
        return (f[0], frozenset(ps)) if all(x is not None for x in ps) and len(set(ps)) == 2 else None

    def apply_state(self, s, fi, bound, node, env, walk):
        if s.ts is None or '$' not in env:
            return
        ts = env['$']
        must, may = set(ts.must), set(ts.may)

        def one(path):
            ps = walk(path)
            p = next(iter(ps)) if len(ps) == 1 else None
            return p if p is not None and p[0][0] == 'p' else None
        if s.ts_if:
            self.call_if[id(node)] = {b: {m for m in (self.map_fact(f, one) for f in fs) if m is not None} for b, fs in s.ts_if.items()}
        renewed = set(s.ts.must)
        if fi.name == '__init__':
            # fields that exist under a condition only: the complete initialisation has renewed them
            for (path, kind, detail) in s.effects:
                if kind == 'setattr' and path == (('p', 'self'), ()) and any((c.name, detail) in CONDITIONAL for c in fi_classes(self, bound)):
                    renewed.add(('clr', path, detail))
        for f in renewed:
            if f[0] == 'clr':
                p = one(f[1])
                if p is not None:
                    may = {g for g in may if not (g[0] == 'stale' and g[1] == p and g[2] == f[2])}
                    must.add(('clr', p, f[2]))
            elif f[0] in ('def', 'has'):
                p = one(f[1])
                if p is not None:
                    must.add((f[0], p, f[2]))
        for f in s.ts.may:
            if f[0] == 'cread':
                for p in walk(f[1]):
                    must.discard(('empty', p, f[2]))
                    if p[0][0] == 'p':
                        may.add(('cread', p, f[2]))
        for f in s.ts.must:
            if f[0] == 'empty':
                p = one(f[1])
                if p is not None:
                    must.add((f[0], p, f[2]))
            elif f[0] in ('eq', 'ne'):
                ps = [one(x) for x in f[1]]
                if all(x is not None for x in ps) and len(set(ps)) == 2:
                    must.add((f[0], frozenset(ps)))
            elif f[0] == 'chk':
                e = self.arg_exprs(fi, node).get(f[1])
                if e is not None:
                    for x in self.deps(e):
                        must.add(('chk', x))
        for f in s.ts.may:
            if f[0] == 'stale':
                for p in walk(f[1]):
                    if p[0][0] == 'p' and not (p[0][1] == 'self' and not p[1] and self.fresh_self):
                        may.add(('stale', p, f[2], f[3]))
                        must.discard(('clr', p, f[2]))
        env['$'] = TS(frozenset(must), frozenset(may))
        for (path, kind, detail) in s.effects:
            if path[0][0] != 'p' or fi.name == '__init__' and path[0][1] == 'self' and path[1]:
                continue        # what an initialisation changes below its own fields is part of building them
            bases = [b for b in bound[path[0][1]].p] if path[0][1] in bound else []
            for p in walk(path):
                if p[0][0] != 'p':
                    continue
                n = max([len(b[1]) for b in bases if b[0] == p[0] and p[1][:len(b[1])] == b[1]], default=0)
                self.mutated(p, env, node, detail, below=n)
        for c in {c for (path, kind, detail) in s.effects if path[0][0] == 'p' and path[0][1] in bound
                  for b in bound[path[0][1]].p if b[0][0] == 'p' for c in self.classes_at(b)}:
            self.late_counterpart(c, s, bound, env)

    def late_counterpart(self, c, s, bound, env):
        """A called step changed a field whose paired field matters only if a counterpart exists, which is known here."""
        for (cn, g), op in COUNTERPART.items():
            if cn != c.name or not self.counterpart_known(op, env):
                continue
            for (path, kind, detail) in s.effects:
                if path[0][0] != 'p' or path[0][1] not in bound:
                    continue
                steps = path[1] + ((detail,) if kind == 'setattr' else ())
                if not steps or g not in self.eng.derived_fields(c).get(steps[0], ()):
                    continue
                for b in bound[path[0][1]].p:
                    if b[0][0] != 'p' or c not in self.classes_at(b):
                        continue
                    for x in PAIRED[(cn, g)]:
                        if ('clr', (path[0], ()), x) not in s.ts.must:
                            env['$'] = TS(env['$'].must - {('clr', b, x)},
                                          env['$'].may | {('stale', b, x, f'{self.fi.qual}: {steps[0]}')})


# -- dependences between the fields of a class --------------------------------------------------------------------------

def fills(node):
    """The function puts entries into a field of the object."""
    def of_self(x):
        return isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self'
    return any(isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and of_self(x.value)
               or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and of_self(x.func.value)
               and x.func.attr in ('append', 'add', 'update', 'setdefault', 'extend', 'insert') for x in ast.walk(node))


def initialiser_closure(cls):
    """`__init__` and the methods of the object it calls."""
    init = cls.lookup('__init__')
    if not isinstance(init, FuncInfo):
        return frozenset()
    done, todo = set(), [init]
    while todo:
        fi = todo.pop()
        if fi in done:
            continue
        done.add(fi)
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                m = cls.lookup(n.func.attr)
                if isinstance(m, FuncInfo) and m.kind == 'function':
                    if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)
                           and x.value.id == 'self' for x in ast.walk(m.node)) or fills(m.node):
                        todo.append(m)
    return frozenset(done)


def field_dependences(cls, initialisers):
    """field -> fields that are computed from it when the object is initialised"""
    direct = {}                    # field -> fields its value is computed from
    for fi in initialisers:
        src = {}

        def bind(t, e):
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    src.setdefault(n.id, []).append(e)
                    if isinstance(t, ast.Subscript):
                        break
        outer = assigned_names(fi.node)
        assigns = []
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self':
                        assigns.append((t.attr, n.value))
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
                        assigns.append((t.value.attr, n.value))
                        assigns.append((t.value.attr, t.slice))
                    elif not isinstance(t, ast.Attribute):
                        bind(t.value if isinstance(t, ast.Subscript) else t, n.value)
                        if isinstance(t, ast.Subscript):
                            bind(t.value, t.slice)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                bind(n.target, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                if isinstance(n, ast.For) or not own_names(n) & outer:
                    bind(n.target, n.iter)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in ('append', 'extend', 'add', 'update', 'insert'):
                for a in n.args:
                    bind(n.func.value, a)
        holders = {}               # local variable -> field it is stored in as it is
        for f, e in assigns:
            if isinstance(e, ast.Name):
                holders.setdefault(e.id, set()).add(f)

        def reads(e, seen):
            out = set()
            for n in ast.walk(e):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
                    m = cls.lookup(n.attr)
                    if not isinstance(m, FuncInfo):
                        out.add(n.attr)
                    elif m not in initialisers and n.attr not in seen:
                        seen.add(n.attr)
                        out |= {x for x in read_fields(m.node) if not isinstance(cls.lookup(x), FuncInfo)}
                if isinstance(n, ast.Name) and n.id != 'self' and n.id not in seen:
                    seen.add(n.id)
                    out |= holders.get(n.id, set())
                    for x in src.get(n.id, ()):
                        out |= reads(x, seen)
            return out
        for f, e in assigns:
            own = {e.id} if isinstance(e, ast.Name) else set()
            got = set()
            if isinstance(e, ast.Name):
                for x in src.get(e.id, ()):
                    got |= reads(x, own | {e.id})
            else:
                got = reads(e, set())
            direct.setdefault(f, set()).update(got - {f})
    fields = set(direct)
    res = {}
    for f in fields:
        # everything computed from f, directly or not; not what f itself is computed from
        out, todo = set(), [f]
        while todo:
            x = todo.pop()
            for g in fields:
                if x in direct[g] and g not in out and g != f:
                    out.add(g)
                    todo.append(g)
        ups, todo = set(), [f]
        while todo:
            x = todo.pop()
            for g in direct.get(x, ()):
                if g in fields and g not in ups:
                    ups.add(g)
                    todo.append(g)
        res[f] = out - ups
    return res

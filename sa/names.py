"""
Names: every name that is read refers to something, and every local variable has been assigned before.
"""
import ast
import builtins
import symtable

MODULE_NAMES = {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__loader__', '__path__', '__builtins__', '__debug__'}


def module_bindings(tree):
    """Names bound at module level, whatever the path (also by `global` in a function)."""
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for x in ast.walk(n):
                if isinstance(x, ast.Global):
                    out.update(x.names)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    visit(tree)
    return out


def undefined_names(source, tree, path, known):
    """(scope, name, line) of names that no scope binds."""
    names = module_bindings(tree) | known | MODULE_NAMES
    out = []
    count = 0

    def visit(t, qual):
        nonlocal count
        for sym in t.get_symbols():
            if not sym.is_referenced():
                continue
            count += 1
            glob = sym.is_global() or (t.get_type() == 'module' and not sym.is_assigned() and not sym.is_imported())
            if glob and sym.get_name() not in names and not hasattr(builtins, sym.get_name()):
                out.append((qual, sym.get_name(), t.get_lineno()))
        for c in t.get_children():
            visit(c, f'{qual}.{c.get_name()}' if c.get_name() not in ('listcomp', 'genexpr', 'setcomp', 'dictcomp', 'lambda') else qual)
    visit(symtable.symtable(source, path, 'exec'), '')
    lines = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            lines.setdefault(n.id, []).append(n.lineno)
    return [(q.lstrip('.'), n, next((x for x in lines.get(n, ()) if x >= ln), ln)) for q, n, ln in out], count


KNOWN_TESTS = {'have', 'type', 'len', 'isinstance', 'any', 'all', 'set', 'sorted', 'list', 'tuple', 'dict', 'int', 'bool', 'str', 'not', 'self'}


class Assigned:
    """Which local variables have been assigned at each place of one function."""

    def __init__(self, node):
        self.node = node
        self.problems = {}                 # (kind, name, line) -> node
        self.uses = 0
        a = node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        outer = set()
        self.locals = set()
        for n in self.scope(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                outer |= set(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.locals |= {(x.asname or x.name).split('.')[0] for x in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
        self.locals -= outer | params
        self.loops = []
        self.inside = []                   # loops around the present place: (number of tests at its beginning, names assigned in it)
        self.tests = []                    # tests of the branches around the present place
        self.assigned_under = {}           # name -> list of tests around its assignments
        self.block(node.body, (frozenset(), frozenset()))

    def scope(self, func):
        """Nodes that belong to the scope of the function."""
        stack = list(func.body)
        while stack:
            n = stack.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                stack += [x for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
                continue
            stack += ast.iter_child_nodes(n)

    def is_elif(self, s):
        return any(isinstance(n, ast.If) and n.orelse == [s] for n in ast.walk(self.node))

    # -- states: (surely assigned, possibly assigned), None: unreachable --------------------------------------------
    @staticmethod
    def join(a, b):
        if a is None or b is None:
            return a if b is None else b
        return a[0] & b[0], a[1] | b[1]

    def bind(self, st, *names):
        for n in names:
            self.assigned_under.setdefault(n, []).append(tuple(self.tests))
        names = frozenset(names)
        return st[0] | names, st[1] | names

    def use(self, node, st):
        if node.id not in self.locals:
            return
        self.uses += 1
        if node.id not in st[1]:
            self.problems.setdefault(('unbound', node.id), node)
        elif node.id not in st[0]:
            # an earlier iteration may have assigned it, which is what the condition may say
            if any(node.id in names and len(self.tests) > depth for depth, names in self.inside):
                return
            self.problems.setdefault(('maybe', node.id), (node, tuple(self.tests)))

    def expr(self, e, st, hidden=frozenset()):
        """Uses in an expression, in order of evaluation as far as it matters."""
        if e is None or st is None:
            return st
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in hidden:
                self.use(e, st)
            return st
        if isinstance(e, ast.NamedExpr):
            st = self.expr(e.value, st, hidden)
            return self.bind(st, e.target.id)
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                st = self.expr(d, st, hidden)
            return st
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = hidden
            for g in e.generators:
                st = self.expr(g.iter, st, inner)
                inner = inner | {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for i in g.ifs:
                    st = self.expr(i, st, inner)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                st = self.expr(x, st, inner)
            return st
        if isinstance(e, ast.BoolOp):
            st = self.expr(e.values[0], st, hidden)
            cur = st
            n = len(self.tests)
            for a, x in zip(e.values, e.values[1:]):
                self.tests.append(ast.unparse(a) if isinstance(e.op, ast.And) else 'not ' + ast.unparse(a))
                cur = self.expr(x, cur, hidden)
            del self.tests[n:]
            return (st[0], cur[1])
        if isinstance(e, ast.IfExp):
            st = self.expr(e.test, st, hidden)
            self.tests.append(ast.unparse(e.test))
            a = self.expr(e.body, st, hidden)
            self.tests[-1] = 'not ' + ast.unparse(e.test)
            b = self.expr(e.orelse, st, hidden)
            self.tests.pop()
            return self.join(a, b)
        for c in ast.iter_child_nodes(e):
            st = self.expr(c, st, hidden)
        return st

    def target(self, t, st):
        if isinstance(t, ast.Name):
            return self.bind(st, t.id)
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                st = self.target(x, st)
            return st
        if isinstance(t, ast.Starred):
            return self.target(t.value, st)
        return self.expr(t, st)

    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            st = self.expr(s.value, st)
            for t in s.targets:
                st = self.target(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.expr(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            st = self.expr(s.value, st)
            return self.target(s.target, st)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return st
            return self.target(s.target, self.expr(s.value, st))
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.bind(st, *[(x.asname or x.name).split('.')[0] for x in s.names])
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x] + s.decorator_list:
                st = self.expr(d, st)
            return self.bind(st, s.name)
        if isinstance(s, ast.ClassDef):
            return self.bind(st, s.name)
        if isinstance(s, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(s):
                self.expr(x, st)
            return None
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            text = ast.unparse(s.test)
            self.tests.append(text)
            a = self.block(s.body, st)
            self.tests[-1] = 'not ' + text
            b = self.block(s.orelse, st)
            self.tests.pop()
            if isinstance(s.test, ast.Constant):
                return a if s.test.value else b
            if not s.orelse and self.is_elif(s):
                return a            # a chain of cases is taken as complete
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.expr(s.iter, st)
            return self.loop(s, st, None)
        if isinstance(s, ast.While):
            return self.loop(s, st, s.test)
        if isinstance(s, ast.Break):
            self.loops[-1][0].append(st)
            return None
        if isinstance(s, ast.Continue):
            self.loops[-1][1].append(st)
            return None
        if isinstance(s, ast.Try):
            end = self.block(s.body, st)
            inside = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            inside |= {(a.asname or a.name).split('.')[0] for b in s.body for n in ast.walk(b) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
            if end is not None:
                end = self.block(s.orelse, end)
            for h in s.handlers:
                hs = (st[0], st[1] | inside)
                if h.type is not None:
                    hs = self.expr(h.type, hs)
                if h.name:
                    hs = self.bind(hs, h.name)
                end = self.join(end, self.block(h.body, hs))
            if s.finalbody:
                f = self.block(s.finalbody, (st[0], st[1] | inside) if end is None else end)
                return None if end is None else f
            return end
        if isinstance(s, ast.With):
            for i in s.items:
                st = self.expr(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.target(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.expr(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
                    st = (st[0] - {t.id}, st[1] - {t.id})
                else:
                    st = self.expr(t, st)
            return st
        if isinstance(s, ast.Assert):
            st = self.expr(s.test, st)
            return None if isinstance(s.test, ast.Constant) and not s.test.value else st
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                st = self.expr(c, st)
        return st

    def loop(self, s, st, test):
        may = st[1]
        stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for final in (False, True):
            # the first passage finds what an earlier iteration may have assigned
            saved = dict(self.problems), self.uses
            self.loops.append(([], []))
            cur = (st[0], may)
            if test is not None:
                cur = self.expr(test, cur)
                self.tests.append(ast.unparse(test))
            else:
                cur = self.target(s.target, cur)
            self.inside.append((len(self.tests), stored))
            end = self.block(s.body, cur)
            self.inside.pop()
            if test is not None:
                self.tests.pop()
            brk, cont = self.loops.pop()
            for c in cont:
                end = self.join(end, c)
            if end is not None:
                may = may | end[1]
            if not final:
                self.problems, self.uses = saved
        forever = isinstance(test, ast.Constant) and test.value
        out = None if forever else (end if end is not None else (st[0], may))     # assumed to run at least once
        if out is not None:
            out = self.block(s.orelse, (out[0], out[1] | may))
        for b in brk:
            out = self.join(out, b)
        if out is not None:
            out = (out[0] | (stored & out[1]), out[1])                 # what a loop looks for is assumed to be found
        return out


def unbound_locals(func):
    """[(kind, name, line)], number of uses examined."""
    a = Assigned(func)
    out = []
    for (kind, name), x in a.problems.items():
        if kind == 'unbound':
            out.append((kind, name, x.lineno))
            continue
        node, tests = x
        # assigned under the same condition as it is used
        if any(u and set(u) <= set(tests) for u in a.assigned_under.get(name, ())):
            continue
        if len(set(a.assigned_under.get(name, ()))) > 1:
            continue                       # complementary cases
        words = [{n.id for t in u for n in ast.walk(ast.parse(t)) if isinstance(n, ast.Name)} - KNOWN_TESTS for u in (tests, *a.assigned_under.get(name, ()))]
        if any(words[0] & w for w in words[1:]):
            continue                       # conditions about the same thing
        out.append((kind, name, node.lineno))
    return out, a.uses

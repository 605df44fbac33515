"""
The resolved program: what every name of every namespace refers to after all modules are initialised,
the classes with their members, and the exception hierarchy.
"""
import ast
import builtins

from . import program
from .importsim import Source, Simulator, State, ImportFail

EX = {}


class FuncInfo:
    """A function of the library (also methods, property getters and nested functions)."""

    def __init__(self, module, node, qual, kind='function', cls=None):
        self.module = module              # program.Module
        self.node = node
        self.qual = qual                  # e.g. discretehelpers.perm.Perm.__mul__ or discretehelpers.a.have.have
        self.kind = kind                  # function, property, cached, static, classmethod
        self.cls = cls                    # ClassInfo, if defined in a class body
        self.setter = None
        self.cached_function = False      # lru_cache / functools.cache
        self.is_generator = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.all_params = self.params + self.kwonly
        if self.vararg:
            self.all_params.append(self.vararg)
        if self.kwarg:
            self.all_params.append(self.kwarg)
        self.defaults = {}
        for name, d in zip(self.params[len(self.params) - len(a.defaults):], a.defaults):
            self.defaults[name] = d
        for name, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[name] = d

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def where(self, node=None):
        return f'{self.module.path}:{(node or self.node).lineno}'

    def __repr__(self):
        return f'<F {self.qual}>'


def own_nodes(func):
    """Nodes of a function body without those of nested functions (comprehensions included)."""
    body = func.body if isinstance(func.body, list) else [func.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.append(ch)


class ClassInfo:
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = f'{module.name}.{node.name}'
        self.bases = []          # ClassInfo or dotted external name
        self.members = {}        # name -> FuncInfo | ('value', expr, module)
        self.is_exception = False

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name]
        return None

    def ext_bases(self):
        """Base classes outside the repository."""
        return [b for c in self.mro() for b in c.bases if not isinstance(b, ClassInfo) and b != 'builtins.object']

    def all_members(self):
        res = {}
        for c in reversed(self.mro()):
            res.update(c.members)
        return res

    def __repr__(self):
        return f'<C {self.qual}>'


class Program:
    def __init__(self, repo=None):
        self.src = Source(repo)
        self.modules = self.src.library
        sim = Simulator(self.src)
        st = State()
        try:
            for name in sorted(self.modules):
                sim.import_module(st, name, name, [name])
        except ImportFail as e:
            raise program.AnalysisError(f'the modules cannot be initialised: {e.message} ({e.where})')
        self.ns = st.ns
        self.funcs = {}        # (module name, lineno, name) -> FuncInfo, module level
        self.classes = {}      # qual -> ClassInfo
        self.globals = {}      # (module, name) -> value expr
        for m in st.ns:
            mod = self.src.get(m)
            if mod is None:
                continue
            self._collect(mod, mod.tree.body)
        for c in list(self.classes.values()):
            self._class(c)
        for c in self.classes.values():
            c.is_exception = self._is_exc(c)
        self.by_name = {}
        for c in self.classes.values():
            self.by_name.setdefault(c.name, c)
        self.local_ns = {}

    # -- collection -------------------------------------------------------------------------------------------------
    def _collect(self, mod, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.func(mod, s)
            elif isinstance(s, ast.ClassDef):
                c = ClassInfo(mod, s)
                self.classes[c.qual] = c
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.globals.setdefault((mod.name, t.id), s.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                self.globals.setdefault((mod.name, n.id), None)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.globals.setdefault((mod.name, s.target.id), s.value)
            elif isinstance(s, ast.If):
                if Simulator.const_test(s.test) == 'main':
                    continue
                self._collect(mod, s.body)
                self._collect(mod, s.orelse)
            elif isinstance(s, ast.Try):
                self._collect(mod, s.body)
                for h in s.handlers:
                    self._collect(mod, h.body)
            elif isinstance(s, (ast.For, ast.While, ast.With)):
                self._collect(mod, s.body)

    def func(self, mod, node, cls=None):
        key = (mod.name, node.lineno, node.name)
        if key in self.funcs:
            return self.funcs[key]
        qual = f'{cls.qual}.{node.name}' if cls else f'{mod.name}.{node.name}'
        fi = FuncInfo(mod, node, qual, cls=cls)
        self.funcs[key] = fi
        for d in node.decorator_list:
            if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                fi.kind = {'getter': 'property', 'setter': 'setter', 'deleter': 'deleter'}[d.attr]
                continue
            e = d.func if isinstance(d, ast.Call) else d
            dotted = self.dotted(mod, e)
            if dotted in ('builtins.property',):
                fi.kind = 'property'
            elif dotted in ('functools.cached_property',):
                fi.kind = 'cached'
            elif dotted == 'builtins.staticmethod':
                fi.kind = 'static'
            elif dotted == 'builtins.classmethod':
                fi.kind = 'classmethod'
            elif dotted in ('functools.lru_cache', 'functools.cache'):
                fi.cached_function = True
        return fi

    def dotted(self, mod, e):
        if isinstance(e, ast.Name):
            b = self.ns[mod.name].get(e.id)
            if b is None:
                return f'builtins.{e.id}' if hasattr(builtins, e.id) else None
            if b[0] == 'external':
                return b[1]
            if b[0] == 'module':
                return b[1]
            return None
        if isinstance(e, ast.Attribute):
            d = self.dotted(mod, e.value)
            return f'{d}.{e.attr}' if d else None
        return None

    def binding_to_func(self, b):
        fi = self.funcs.get((b[1], b[3], b[2]))
        if fi is None:
            mod = self.src.get(b[1])
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.FunctionDef) and n.name == b[2] and n.lineno == b[3]:
                    fi = self.func(mod, n)
                    break
            else:
                raise program.AnalysisError(f'function {b} not found')
        if fi.kind in ('property', 'setter'):
            # the last definition wins, but getter and setter belong to the same property
            mod = fi.module
            getter = None
            for (m, ln, nm), f in sorted(self.funcs.items(), key=lambda kv: kv[0][1]):
                if m == mod.name and nm == fi.name and f.cls is fi.cls:
                    if f.kind == 'property':
                        getter = f
                    elif f.kind == 'setter':
                        fi.setter = f
            if getter is not None:
                getter.setter = fi.setter
                fi = getter
        return fi

    def _class(self, c):
        mod = c.module
        for b in c.node.bases:
            r = self.resolve_expr(mod, b)
            if isinstance(r, ClassInfo):
                c.bases.append(r)
            else:
                c.bases.append(self.dotted(mod, b) or ast.unparse(b))
        for s in c.node.body:
            if isinstance(s, ast.FunctionDef):
                self.func(mod, s, cls=c)
                fi = self.funcs[(mod.name, s.lineno, s.name)]
                if fi.kind in ('property', 'setter'):
                    fi = self.binding_to_func(('def', mod.name, s.name, s.lineno))
                c.members[s.name] = fi
            elif isinstance(s, ast.ImportFrom):
                target = program.resolve_relative(mod, s.level, s.module)
                ns = self.ns.get(target, {})
                for al in s.names:
                    names = [al.name] if al.name != '*' else [n for n in ns if not n.startswith('_')]
                    for n in names:
                        b = ns.get(n)
                        bound = (al.asname or n) if al.name != '*' else n
                        if b is None:
                            raise program.AnalysisError(f'{mod.path}: class {c.name} imports unknown name {n}')
                        if b[0] == 'def':
                            c.members[bound] = self.binding_to_func(b)
                        else:
                            c.members[bound] = ('binding', b)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(s.value, ast.Name) and s.value.id in c.members:
                            c.members[t.id] = c.members[s.value.id]
                        else:
                            r = self.resolve_expr(mod, s.value)
                            if isinstance(r, FuncInfo):
                                c.members[t.id] = r
                            else:
                                c.members[t.id] = ('value', s.value, mod)

    def resolve_expr(self, mod, e):
        if isinstance(e, ast.Name):
            return self.entity(self.ns[mod.name].get(e.id))
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(mod, e.value)
            if isinstance(r, tuple) and r[0] == 'module' and r[1] in self.ns:
                return self.entity(self.ns[r[1]].get(e.attr))
        return None

    def entity(self, b):
        """FuncInfo, ClassInfo or the binding itself."""
        if b is None:
            return None
        if b[0] == 'def':
            return self.binding_to_func(b)
        if b[0] == 'class':
            return self.classes.get(f'{b[1]}.{b[2]}')
        return b

    # -- exceptions -------------------------------------------------------------------------------------------------
    def _is_exc(self, c):
        for b in c.bases:
            if isinstance(b, ClassInfo):
                if self._is_exc(b):
                    return True
            elif isinstance(b, str):
                t = getattr(builtins, b.replace('builtins.', ''), None)
                if isinstance(t, type) and issubclass(t, BaseException):
                    return True
        return False

    def exc_ancestors(self, name):
        """Qualified names of an exception class and everything it inherits from."""
        c = self.classes.get(name)
        out = [name]
        if c is not None:
            for b in c.bases:
                out += self.exc_ancestors(b.qual if isinstance(b, ClassInfo) else b)
        else:
            t = getattr(builtins, name.replace('builtins.', ''), None)
            if isinstance(t, type):
                out += [f'builtins.{x.__name__}' for x in t.__mro__ if x is not object]
            else:
                out += ['builtins.Exception', 'builtins.BaseException']
        return list(dict.fromkeys(out))

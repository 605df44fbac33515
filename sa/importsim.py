"""
Module-initialisation analysis.

The top-level statements of every module are followed in execution order over an abstract state
(which modules are started / finished, and which names each namespace binds to what kind of thing).
No code of the library is executed: an expression is only inspected for the names it needs.
"""
import ast
import builtins
import importlib
import os
import symtable
import sys

from . import program
from .report import Finding

BUILTINS = set(dir(builtins)) | {'__name__', '__file__', '__doc__', '__package__', '__path__', '__spec__',
                                 '__loader__', '__builtins__', '__class__', '__qualname__', '__module__'}


class ImportFail(Exception):
    def __init__(self, kind, message, where, chain):
        super().__init__(message)
        self.kind, self.message, self.where, self.chain = kind, message, where, chain


class Source:
    """Parsed modules, looked up on demand (examples and tests are loaded only if something imports them)."""

    def __init__(self, repo=None):
        self.repo = repo or program.REPO
        self.library = program.load_modules(self.repo)
        self.cache = dict(self.library)
        self.requirements = set()
        req = os.path.join(self.repo, 'requirements.txt')
        if os.path.exists(req):
            with open(req) as fh:
                for line in fh:
                    n = line.split('=')[0].split('<')[0].split('>')[0].strip()
                    if n and not n.startswith('#'):
                        self.requirements.add(n.replace('-', '_').lower())
        self._tables = {}

    def get(self, name):
        if name in self.cache:
            return self.cache[name]
        base = os.path.join(self.repo, *name.split('.'))
        mod = None
        for path, is_pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
            if os.path.isfile(path):
                with open(path, encoding='utf-8') as fh:
                    mod = program.Module(name, os.path.relpath(path, self.repo), is_pkg, fh.read())
                break
        else:
            if os.path.isdir(base):    # namespace package
                mod = program.Module(name, os.path.relpath(base, self.repo), True, '')
        self.cache[name] = mod
        return mod

    def function_globals(self, mod):
        """{(lineno, function name): global names it loads} for all functions, nested ones included."""
        if mod.name not in self._tables:
            res = {}

            def walk(t):
                for ch in t.get_children():
                    if ch.get_type() == 'function':
                        names = {s.get_name() for s in ch.get_symbols() if s.is_global() and s.is_referenced()
                                 and not s.is_declared_global()}
                        res.setdefault((ch.get_lineno(), ch.get_name()), set()).update(names)
                    walk(ch)
            walk(symtable.symtable(mod.source, mod.path, 'exec'))
            self._tables[mod.name] = res
        return self._tables[mod.name]


def external_ok(name, src):
    top = name.split('.')[0]
    return top in sys.stdlib_module_names or top.lower() in src.requirements


_ext_cache = {}


def external_has(module, attr):
    """False only if a standard-library module is known not to have the name."""
    top = module.split('.')[0]
    if top not in sys.stdlib_module_names or top in ('this', 'antigravity', 'idlelib', 'test'):
        return True
    key = (module, attr)
    if key not in _ext_cache:
        try:
            m = importlib.import_module(module)
            ok = hasattr(m, attr)
            if not ok:
                try:
                    importlib.import_module(module + '.' + attr)
                    ok = True
                except Exception:
                    ok = False
        except Exception:
            ok = True
        _ext_cache[key] = ok
    return _ext_cache[key]


class State:
    __slots__ = ('status', 'ns')

    def __init__(self):
        self.status = {}
        self.ns = {}

    def copy(self):
        s = State()
        s.status = dict(self.status)
        s.ns = {k: dict(v) for k, v in self.ns.items()}
        return s

    def fingerprint(self):
        return hash(frozenset((m, self.status[m], frozenset(self.ns[m].items())) for m in self.status))


class Simulator:
    def __init__(self, src):
        self.src = src
        self.statements = 0
        self.names_checked = 0

    # -- importing ------------------------------------------------------------------------------------------------
    def import_module(self, st, name, where, chain):
        """Imports `a.b.c` with all parents; returns nothing, raises ImportFail."""
        parts = name.split('.')
        if parts[0] != program.TOP:
            if not external_ok(name, self.src):
                raise ImportFail('no-module', f'module {name} is neither in the standard library nor in requirements.txt', where, chain)
            return
        for i in range(1, len(parts) + 1):
            sub = '.'.join(parts[:i])
            if sub in st.status:
                continue
            mod = self.src.get(sub)
            if mod is None:
                raise ImportFail('no-module', f'no module named {sub}', where, chain)
            self.execute(st, mod, chain + [f'{mod.path}'])
            if i > 1:
                st.ns['.'.join(parts[:i - 1])][parts[i - 1]] = ('module', sub)

    def execute(self, st, mod, chain):
        st.status[mod.name] = 'started'
        st.ns[mod.name] = {}
        try:
            self.body(st, mod, mod.tree.body, st.ns[mod.name], None, chain)
        except ImportFail:
            st.status.pop(mod.name, None)
            st.ns.pop(mod.name, None)
            raise
        st.status[mod.name] = 'done'

    def from_import(self, st, mod, node, chain):
        """Yields (bound name, binding)."""
        where = f'{mod.path}:{node.lineno}'
        target = program.resolve_relative(mod, node.level, node.module)
        if target is None:
            raise ImportFail('no-module', 'relative import beyond the top-level package', where, chain)
        if target.split('.')[0] != program.TOP:
            self.import_module(st, target, where, chain)
            for al in node.names:
                if al.name != '*' and not external_has(target, al.name):
                    raise ImportFail('no-name', f'{target} has no name {al.name}', where, chain)
                yield al.asname or al.name, ('external', f'{target}.{al.name}')
            return
        self.import_module(st, target, where, chain)
        for al in node.names:
            ns = st.ns[target]
            if al.name == '*':
                allv = ns.get('__all__')
                if allv and allv[0] == 'names':
                    names = list(allv[1])
                else:
                    names = [n for n in ns if not n.startswith('_')]
                for n in names:
                    if n not in ns:
                        raise ImportFail('no-name', f'{target}.__all__ lists {n}, which is not bound', where, chain)
                    yield n, ns[n]
                continue
            if al.name not in ns:
                sub = f'{target}.{al.name}'
                tmod = self.src.get(target)
                if tmod is not None and tmod.is_pkg and self.src.get(sub) is not None:
                    if sub not in st.status:
                        self.import_module(st, sub, where, chain)
                        ns = st.ns[target]
                    if al.name not in ns:
                        ns[al.name] = ('module', sub)      # sys.modules fallback of a partially initialised package
                else:
                    partial = st.status.get(target) == 'started'
                    raise ImportFail('circular' if partial else 'no-name',
                                     f'cannot import name {al.name} from {"partially initialised " if partial else ""}{target}',
                                     where, chain)
            yield al.asname or al.name, ns[al.name]

    # -- statements -----------------------------------------------------------------------------------------------
    def body(self, st, mod, stmts, ns, outer, chain):
        for s in stmts:
            self.statements += 1
            self.stmt(st, mod, s, ns, outer, chain)

    def stmt(self, st, mod, s, ns, outer, chain):
        where = f'{mod.path}:{s.lineno}'
        if isinstance(s, ast.Import):
            for al in s.names:
                self.import_module(st, al.name, where, chain)
                if al.asname:
                    ns[al.asname] = ('module', al.name) if al.name.split('.')[0] == program.TOP else ('external', al.name)
                else:
                    top = al.name.split('.')[0]
                    ns[top] = ('module', top) if top == program.TOP else ('external', top)
        elif isinstance(s, ast.ImportFrom):
            if s.module == '__future__':
                return
            for name, b in list(self.from_import(st, mod, s, chain)):
                ns[name] = b
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for e in s.decorator_list + s.args.defaults + [d for d in s.args.kw_defaults if d]:
                self.expr(st, mod, e, ns, outer, chain)
            for a in s.args.args + s.args.kwonlyargs + s.args.posonlyargs + [x for x in (s.args.vararg, s.args.kwarg) if x]:
                if a.annotation:
                    self.expr(st, mod, a.annotation, ns, outer, chain)
            if s.returns:
                self.expr(st, mod, s.returns, ns, outer, chain)
            ns[s.name] = ('def', mod.name, s.name, s.lineno)
        elif isinstance(s, ast.ClassDef):
            for e in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.expr(st, mod, e, ns, outer, chain)
            cns = {}
            self.body(st, mod, s.body, cns, ns, chain)
            for n, b in cns.items():
                if b[0] == 'module':
                    raise ImportFail('module-for-member', f'member {n} of class {s.name} is bound to the module {b[1]} instead of the object it defines', where, chain)
            ns[s.name] = ('class', mod.name, s.name)
        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            if s.value is not None:
                self.expr(st, mod, s.value, ns, outer, chain)
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        b = ('value',)
                        if isinstance(s.value, ast.Name):
                            b = self.lookup(s.value.id, ns, outer, st, mod) or b
                        if n.id == '__all__' and isinstance(s.value, (ast.List, ast.Tuple)) and \
                                all(isinstance(e, ast.Constant) for e in s.value.elts):
                            b = ('names', tuple(e.value for e in s.value.elts))
                        ns[n.id] = b
                    elif isinstance(n, ast.Name):
                        self.need(st, mod, n, ns, outer, chain)
        elif isinstance(s, ast.Expr):
            self.expr(st, mod, s.value, ns, outer, chain)
        elif isinstance(s, ast.If):
            test = self.const_test(s.test)
            if test == 'main':
                return
            self.expr(st, mod, s.test, ns, outer, chain)
            if test is not False:
                self.body(st, mod, s.body, ns, outer, chain)
            if test is not True:
                self.body(st, mod, s.orelse, ns, outer, chain)
        elif isinstance(s, ast.Try):
            try:
                self.body(st, mod, s.body, ns, outer, chain)
                self.body(st, mod, s.orelse, ns, outer, chain)
            except ImportFail:
                for h in s.handlers:
                    text = '' if h.type is None else ast.unparse(h.type)
                    if h.type is None or any(k in text for k in ('ImportError', 'ModuleNotFoundError', 'Exception')):
                        self.body(st, mod, h.body, ns, outer, chain)
                        break
                else:
                    raise
            self.body(st, mod, s.finalbody, ns, outer, chain)
        elif isinstance(s, (ast.For, ast.While, ast.With)):
            for e in ([s.iter] if isinstance(s, ast.For) else [s.test] if isinstance(s, ast.While) else [i.context_expr for i in s.items]):
                self.expr(st, mod, e, ns, outer, chain)
            tg = [s.target] if isinstance(s, ast.For) else [i.optional_vars for i in s.items if i.optional_vars] if isinstance(s, ast.With) else []
            for t in tg:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        ns[n.id] = ('value',)
            self.body(st, mod, s.body, ns, outer, chain)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id not in ns:
                        raise ImportFail('unbound', f'del of unbound name {t.id}', where, chain)
                    del ns[t.id]
        elif isinstance(s, (ast.Pass, ast.Global, ast.Assert)):
            pass
        elif isinstance(s, ast.Raise):
            raise ImportFail('raises', 'module raises while it is imported', where, chain)
        else:
            raise program.AnalysisError(f'{where}: top-level statement {type(s).__name__} is not understood')

    @staticmethod
    def const_test(t):
        if isinstance(t, ast.Constant):
            return bool(t.value)
        text = ast.unparse(t)
        if '__name__' in text and '__main__' in text:
            return 'main'
        if text.endswith('TYPE_CHECKING'):
            return False
        return None

    # -- expressions ----------------------------------------------------------------------------------------------
    def lookup(self, name, ns, outer, st, mod):
        if name in ns:
            return ns[name]
        if outer is not None and name in outer:
            return outer[name]
        if name in BUILTINS:
            return ('builtin', name)
        return None

    def need(self, st, mod, n, ns, outer, chain):
        self.names_checked += 1
        b = self.lookup(n.id, ns, outer, st, mod)
        if b is None:
            raise ImportFail('unbound', f'name {n.id} is used at import time but not bound yet', f'{mod.path}:{n.lineno}', chain)
        return b

    def expr(self, st, mod, e, ns, outer, chain):
        bound = set()
        skip = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Lambda):
                for m in ast.walk(n):
                    skip.add(id(m))
            elif isinstance(n, ast.comprehension):
                for m in ast.walk(n.target):
                    if isinstance(m, ast.Name):
                        bound.add(m.id)
            elif isinstance(n, ast.NamedExpr):
                bound.add(n.target.id)
        for n in ast.walk(e):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in bound:
                self.need(st, mod, n, ns, outer, chain)
            elif isinstance(n, ast.Attribute):
                self.attribute(st, mod, n, ns, outer, chain)
            elif isinstance(n, ast.Call):
                b = self.resolve(st, mod, n.func, ns, outer)
                if b and b[0] == 'module':
                    raise ImportFail('module-called', f'{ast.unparse(n.func)} is a module at this moment, but is called', f'{mod.path}:{n.lineno}', chain)
                if b and b[0] == 'def':
                    self.call(st, b, f'{mod.path}:{n.lineno}', chain, set())

    def resolve(self, st, mod, e, ns, outer):
        if isinstance(e, ast.Name):
            return self.lookup(e.id, ns, outer, st, mod)
        if isinstance(e, ast.Attribute):
            b = self.resolve(st, mod, e.value, ns, outer)
            if b and b[0] == 'module' and b[1] in st.ns:
                return st.ns[b[1]].get(e.attr)
        return None

    def attribute(self, st, mod, n, ns, outer, chain):
        b = self.resolve(st, mod, n.value, ns, outer)
        if b and b[0] == 'module' and b[1] in st.ns and n.attr not in st.ns[b[1]] and not n.attr.startswith('__'):
            raise ImportFail('unbound', f'module {b[1]} has no attribute {n.attr} at this moment', f'{mod.path}:{n.lineno}', chain)

    def call(self, st, b, where, chain, seen):
        """A library function called while modules are being initialised: its imports run now."""
        if b in seen:
            return
        seen.add(b)
        fmod = self.src.get(b[1])
        fn = next((x for x in ast.walk(fmod.tree) if isinstance(x, ast.FunctionDef) and x.name == b[2] and x.lineno == b[3]), None)
        if fn is None:
            return
        local = {}
        for s in ast.walk(fn):
            if isinstance(s, ast.ImportFrom):
                for name, bb in list(self.from_import(st, fmod, s, chain + [f'{fmod.path}:{fn.name} called at import time'])):
                    local[name] = bb
            elif isinstance(s, ast.Import):
                for al in s.names:
                    self.import_module(st, al.name, f'{fmod.path}:{s.lineno}', chain)
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                bb = local.get(n.func.id) or st.ns.get(fmod.name, {}).get(n.func.id)
                if bb and bb[0] == 'def':
                    self.call(st, bb, where, chain, seen)

    # -- after import ---------------------------------------------------------------------------------------------
    def loaded_globals(self, st):
        """All global names loaded by functions of initialised modules must be bound, and callable where called."""
        for name in sorted(st.status):
            mod = self.src.get(name)
            ns = st.ns[name]
            for (line, fname), names in self.src.function_globals(mod).items():
                for n in sorted(names):
                    self.names_checked += 1
                    if n not in ns and n not in BUILTINS:
                        yield ImportFail('unbound-global', f'function {fname} uses the global name {n}, which its module does not bind', f'{mod.path}:{line}', [])
            called = {x.func.id for x in ast.walk(mod.tree) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
            for n in sorted(called):
                b = ns.get(n)
                if b and b[0] == 'module':
                    yield ImportFail('module-called', f'{n} is called, but is bound to the module {b[1]}', mod.path, [])


def lazy_imports(mod):
    """Import statements inside functions, with the qualified name of the function."""
    out = []

    def walk(node, qual, infunc):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                walk(ch, qual + [ch.name], ch)
            elif isinstance(ch, ast.ClassDef):
                walk(ch, qual + [ch.name], infunc)
            elif isinstance(ch, (ast.Import, ast.ImportFrom)):
                if infunc is not None:
                    out.append(('.'.join(qual), ch, infunc))
            else:
                walk(ch, qual, infunc)
    walk(mod.tree, [], None)
    return out


def analyse(repo=None):
    src = Source(repo)
    findings = {}
    lib = src.library
    entries = sorted(lib)
    sim = Simulator(src)

    def report(rule, construct, msg, where, chain, first):
        key = (rule, construct)
        if key not in findings:
            findings[key] = Finding(rule, construct, msg + f' (first import: {first})', where, chain)

    lazies = {name: lazy_imports(m) for name, m in lib.items()}
    n_lazy = sum(map(len, lazies.values()))
    lazy_checked = set()
    seen = set()
    work = []
    lazy_runs = 0
    for first in entries:
        st = State()
        try:
            sim.import_module(st, first, '<console>', [])
        except ImportFail as e:
            report('first-import-' + e.kind, f'{e.where.split(":")[0]} : {e.message}', f'importing {first} first fails: {e.message}', e.where, e.chain, first)
            continue
        fp = st.fingerprint()
        if fp not in seen:
            seen.add(fp)
            work.append((st, first))
    n_first_states = len(seen)
    # closure: from every state, every function-level import may run next
    while work:
        st, first = work.pop()
        for e in sim.loaded_globals(st):
            report(e.kind, f'{e.where.split(":")[0]} : {e.message}', e.message, e.where, e.chain, first)
        for name in sorted(st.status):
            if name not in lib:
                continue
            mod = lib[name]
            for qual, node, fn in lazies[name]:
                where = f'{mod.path}:{node.lineno}'
                st2 = st.copy()
                lazy_runs += 1
                lazy_checked.add((name, qual, node.lineno))
                bound = []
                try:
                    if isinstance(node, ast.Import):
                        for al in node.names:
                            sim.import_module(st2, al.name, where, [f'{mod.path}:{qual}'])
                    else:
                        bound = list(sim.from_import(st2, mod, node, [f'{mod.path}:{qual}']))
                except ImportFail as e:
                    report('lazy-import-' + e.kind, f'{mod.path}:{qual} : {e.message}', f'import inside {qual} fails: {e.message}', e.where, e.chain, first)
                    continue
                called = {x.func.id for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
                for n, b in bound:
                    if b[0] == 'module' and n in called:
                        report('lazy-import-module-called', f'{mod.path}:{qual} : {n}', f'{n} is called in {qual}, but the import binds the module {b[1]}', where, [], first)
                if len(st2.status) != len(st.status):
                    fp = st2.fingerprint()
                    if fp not in seen and len(seen) < 2000:
                        seen.add(fp)
                        work.append((st2, first))
    # every module is reached, every lazy import is looked at
    if not findings and len(lazy_checked) != n_lazy:
        raise program.AnalysisError(f'only {len(lazy_checked)} of {n_lazy} function-level imports analysed')
    public = [p for p in ('a', 'binv', 'perm', 'sig_perm', 'walsh_perm', 'set_part', 'set_part_comp', 'boolf')]
    for p in public:
        if f'{program.TOP}.{p}' not in lib:
            raise program.AnalysisError(f'package {p} vanished')
    if len(entries) < 300 or n_lazy < 50:
        raise program.AnalysisError(f'only {len(entries)} modules / {n_lazy} function-level imports found')
    coverage = dict(
        explanation='abstract module initialisation from every possible first import; distinct end states get the '
                    'check of all function-level imports and of all global names used by functions',
        first_imports=len(entries), states_after_first_import=n_first_states, states_explored=len(seen), function_level_imports=n_lazy,
        function_level_import_evaluations=lazy_runs, statements_followed=sim.statements, names_checked=sim.names_checked,
        samples=[f'{n}:{q} line {x.lineno}: {ast.unparse(x)}' for n in sorted(lib) for q, x, _ in lazies[n]][:5],
        rule='an import may not find its module missing, a name missing, a partially initialised package lacking the '
             'name, or a module object where a function/class is used')
    return list(findings.values()), coverage

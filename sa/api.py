"""
The public interface: what a user of the library can call, and with what kinds of arguments.
"""
import ast
from itertools import combinations

from .flow import AV, E0, BIG, Shape, TOPSHAPE
from .model import FuncInfo
from .program import AnalysisError

NONE_ARG = (Shape(frozenset(['none'])), frozenset([('none', None)]), E0)
TOP_ARG = (TOPSHAPE, None, E0)
BOOL_ARG = (Shape(frozenset(['bool'])), None, E0)
INT_ARG = (Shape(frozenset(['int']), frozenset([BIG])), None, E0)

MAX_COMBOS = 80


def self_arg(cls):
    return (Shape(frozenset(['C:' + cls.qual])), None, E0)


def value_classes(prog):
    return [c for _, c in sorted(prog.classes.items()) if not c.is_exception]


def public_functions(prog):
    """Functions exported by the helper packages (those named `a`)."""
    out = {}
    for m in sorted(prog.ns):
        if m.rsplit('.', 1)[-1] != 'a' or '.methods.' in m or '.metributes.' in m:
            continue
        for n, b in sorted(prog.ns[m].items()):
            if b[0] == 'def':
                fi = prog.binding_to_func(b)
                out.setdefault(fi, f'{m}.{n}')
    return out


def argument_contexts(prog, fi, cls=None):
    """All combinations of given and omitted optional arguments (up to two given at once, if there are many)."""
    fixed, optional = {}, []
    for name in fi.all_params:
        d = fi.defaults.get(name)
        if name == 'self' and cls is not None:
            fixed[name] = self_arg(cls)
        elif name == 'other' and cls is not None:
            fixed[name] = self_arg(cls)
        elif name == fi.vararg:
            fixed[name] = (Shape(frozenset(['tuple']), E0, TOPSHAPE), None, E0)
        elif name == fi.kwarg:
            fixed[name] = (Shape(frozenset(['dict']), E0, TOPSHAPE), None, E0)
        elif isinstance(d, ast.Constant) and d.value is None:
            optional.append(name)
        elif isinstance(d, ast.Constant) and isinstance(d.value, bool):
            fixed[name] = (BOOL_ARG[0], frozenset([('bool', d.value)]), E0) if recursion_flag(fi, name) else BOOL_ARG
        else:
            fixed[name] = TOP_ARG
    if 2 ** len(optional) <= 32:
        sizes = range(len(optional) + 1)
    else:
        sizes = range(0, 4)
    out = []
    for k in sizes:
        for given in combinations(optional, k):
            ctx = dict(fixed)
            for name in optional:
                ctx[name] = TOP_ARG if name in given else NONE_ARG
            out.append(ctx)
            if len(out) > 400:
                raise AnalysisError(f'{fi.qual}: too many argument combinations')
    return out


def recursion_flag(fi, name):
    """Is the argument given only by the module of the function itself, when the function calls itself?"""
    i = fi.params.index(name) if name in fi.params else None
    for n in ast.walk(fi.module.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == fi.name:
            args = ([n.args[i]] if i is not None and i < len(n.args) else []) + [k.value for k in n.keywords if k.arg == name]
            if any(isinstance(a, ast.Constant) for a in args):
                return True
    return False


class Root:
    def __init__(self, label, fi, cls, member, shapes, fresh):
        self.label, self.fi, self.cls, self.member, self.shapes, self.fresh = label, fi, cls, member, shapes, fresh


def called_names(prog):
    """Names of all methods the library itself calls or reads as attributes."""
    return {n.attr for mod in prog.modules.values() for n in ast.walk(mod.tree) if isinstance(n, ast.Attribute)}


def roots(prog):
    out = []
    called = called_names(prog)
    for c in value_classes(prog):
        for name, m in sorted(c.all_members().items()):
            if not isinstance(m, FuncInfo):
                continue
            if name.startswith('_') and not name.startswith('__') and name in called:
                continue        # internal step of other members, analysed where they use it
            for ctx in argument_contexts(prog, m, c):
                out.append(Root(f'{c.name}.{name}', m, c, name, ctx, name == '__init__'))
            if m.setter is not None:
                ctx = {p: TOP_ARG for p in m.setter.all_params}
                ctx['self'] = self_arg(c)
                out.append(Root(f'{c.name}.{name} (setter)', m.setter, c, name + '=', ctx, False))
    for fi, label in public_functions(prog).items():
        for ctx in argument_contexts(prog, fi):
            out.append(Root(label, fi, None, fi.name, ctx, False))
    return out

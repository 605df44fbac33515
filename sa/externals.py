"""
Models of builtins, standard library and numpy for the dataflow analysis.
"""
import builtins

from .flow import (AV, BOT, E0, TOP, INT, BIGINT, STR, FLOAT, BOOL, NONE, TRUE, FALSE, IMMUTABLE, MUTATORS, ALL_MUTATORS,
                   UNORDERED, INEXACT, BIG, NP, M_U, M_I, M_UI, M_NP, join, joinall, prim, const, _EXT_TYPES)
from .model import FuncInfo
from .flow import Mask

M_UIB = Mask(UNORDERED, INEXACT, BIG)
M_IB = Mask(INEXACT, BIG)

CLEARING = {'sum', 'any', 'all', 'len', 'set', 'frozenset'}

IO_CALLS = {
    'builtins.print': 'print', 'builtins.input': 'input', 'builtins.open': 'open',
}
IO_PREFIX = {
    'random.': 'random', 'numpy.random.': 'random', 'secrets.': 'random', 'uuid.': 'random',
    'time.': 'time', 'datetime.': 'time', 'os.': 'os', 'sys.std': 'stdio', 'sys.set': 'interpreter', 'subprocess.': 'os', 'shutil.': 'os', 'socket.': 'os',
    'warnings.': 'warn', 'logging.': 'log', 'pathlib.': 'os', 'tempfile.': 'os', 'glob.': 'os', 'pickle.dump': 'os', 'json.dump(': 'os',
    'numpy.save': 'os', 'numpy.set': 'interpreter', 'decimal.': 'interpreter', 'locale.': 'interpreter', 'gc.': 'interpreter',
    'atexit.': 'interpreter', 'signal.': 'interpreter', 'threading.': 'interpreter',
}
PURE_PREFIX = ('os.path.join', 'os.path.dirname', 'os.path.realpath', 'os.path.abspath', 'os.path.basename', 'os.path.split', 'os.sep', 'os.getcwd')

EXC_NAMES = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}

FLOAT_FUNCS = {'log', 'log2', 'log10', 'log1p', 'sqrt', 'exp', 'cbrt', 'sin', 'cos', 'tan', 'pow', 'fsum', 'hypot', 'exp2', 'gamma', 'lgamma', 'fmod', 'ldexp', 'frexp', 'modf', 'atan', 'asin', 'acos', 'dist'}
NP_FLOAT = {'log', 'log2', 'log10', 'sqrt', 'exp', 'exp2', 'divide', 'true_divide', 'mean', 'average', 'std', 'var', 'median', 'cbrt', 'linspace', 'float64', 'float32', 'float16', 'sin', 'cos', 'percentile', 'rint', 'round', 'around', 'floor', 'ceil'}
NP_GROW = {'lcm', 'prod', 'cumprod', 'power', 'left_shift', 'multiply', 'product', 'bitwise_shift'}
NP_FIXED = {'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'intc', 'uintc', 'short', 'longlong', 'int_', 'uint'}


def pos(args, i, kwargs=None, name=None):
    if i < len(args):
        a = args[i]
        return a[1] if isinstance(a, tuple) else a
    if kwargs and name and name in kwargs:
        return kwargs[name]
    return None


def fl_of(f, v, env):
    return f.flags(v, env)


def seq(f, node, typ, elem, src, env, tag='', extra=E0):
    """Fresh sequence made from the iterable `src`."""
    fl = set(extra)
    if src is not None:
        fl |= f.uflags(src, env, node)
    return f.alloc(node, typ, {'[]': elem}, tag=tag, fl=fl if typ not in ('set', 'frozenset') else E0, env=env)


def note_io(f, kind, detail, node):
    f.ext.setdefault((kind, detail), ((f.fi.qual, f.fi.where(node), kind, detail),))


def taint(*vs):
    fl = E0
    for v in vs:
        if v is not None:
            fl |= v.fl & M_UI
    return frozenset(fl)


def call_key(f, key, el, node, env):
    if key is not None:
        f.call_value(key, [el], {}, node, env)
        f.never_returns = False


def call(f, name, args, kwargs, node, env):
    f.never_returns = False
    short = name.rsplit('.', 1)[-1]
    a0 = pos(args, 0)
    a1 = pos(args, 1)
    for a in list(args) + list(kwargs.values()):
        v = a[1] if isinstance(a, tuple) else a
        if any(x[0] == 'closure' for x in v.fn):
            f.call_closures(v, env)
    if name.startswith('builtins.'):
        return builtin(f, short, args, kwargs, node, env)
    if name in PURE_PREFIX:
        return STR
    if name.startswith('numpy.'):
        if name.startswith('numpy.random.') or name.startswith('numpy.set'):
            note_io(f, 'random' if '.random.' in name else 'interpreter', name, node)
            return TOP
        return numpy_call(f, name[6:], args, kwargs, node, env)
    for pre, kind in IO_PREFIX.items():
        if name.startswith(pre):
            note_io(f, kind, name, node)
            return TOP
    if name in ('copy.deepcopy',):
        return deep(f, a0, node, env)
    if name in ('copy.copy',):
        return shallow(f, a0, node, env)
    if name.startswith('math.'):
        if short in ('floor', 'ceil', 'trunc'):
            if INEXACT in a0.fl:
                f.eng.sink(name, f.fi, node, a0.fl)
            return AV(frozenset(['int']), E0, None, a0.fl)
        if short in ('gcd', 'lcm', 'comb', 'perm', 'factorial', 'prod', 'isqrt'):
            return AV(frozenset(['int']), E0, None, frozenset([BIG]) | taint(*[pos(args, i) for i in range(len(args))]))
        if short in ('isclose', 'isnan', 'isinf', 'isfinite'):
            f.eng.event('float', f.fi, node, name)
            return BOOL.withflags(f.origin(INEXACT, node, name))
        big = any(BIG in (pos(args, i)).fl for i in range(len(args)))
        if big:
            f.eng.event('float', f.fi, node, name)
        return AV(frozenset(['float']), E0, None, (f.origin(INEXACT, node, name) if big else E0) | taint(a0))
    if name.startswith('itertools.'):
        return itertools_call(f, short, args, kwargs, node, env)
    if name == 'functools.reduce':
        el = f.elem(a1, env, node) if a1 is not None else TOP
        r = f.call_value(a0, [el, el], {}, node, env)
        f.never_returns = False
        init = pos(args, 2)
        r = joinall([r, el] + ([init] if init is not None else []))
        return AV(r.t, r.p, None, r.fl, r.fn)
    if name == 'functools.partial':
        held = (tuple(args[1:]), tuple(sorted(kwargs.items(), key=lambda kv: kv[0])))
        return AV(frozenset(['func']), E0, None, E0, frozenset(('partial', x, *held) for x in a0.fn) if a0 is not None else E0)
    if name.startswith('operator.'):
        return TOP.withflags(taint(a0, a1))
    if name == 'collections.defaultdict':
        r = f.alloc(node, 'dict', {}, env=env)
        if a0 is not None:
            factory = next((k for k in ('dict', 'list', 'set') if a0.fn == {('ext', 'builtins.' + k)}), None)
            # not the site of the default dict itself
            d = f.alloc(node, factory, {}, tag='default', env=env) if factory else f.call_value(a0, [], {}, node, env)
            f.never_returns = False
            for p in r.p:
                f.heap.setdefault(p, {})['!default'] = d
                f.heap_put(p, '[]', d)
        if a1 is not None:
            copy_dict_into(f, r, a1, env)
        return r
    if name in ('collections.OrderedDict', 'bidict.bidict', 'collections.Counter', 'bidict.frozenbidict'):
        r = f.alloc(node, 'dict', {}, env=env)
        if a0 is not None:
            if short == 'Counter':
                f.put_elem(r, INT, env, key=f.elem(a0, env, node))
                if f.is_unordered(a0, env):
                    f.set_container_flag(r, f.uflags(a0, env, node), env)
            else:
                copy_dict_into(f, r, a0, env)
        return r
    if name == 'collections.deque':
        return seq(f, node, 'list', f.elem(a0, env, node) if a0 is not None else BOT, a0, env)
    if name == 'fractions.Fraction':
        fl = taint(a0, a1)
        if a0 is not None and a0.t & {'float'}:
            f.eng.event('float', f.fi, node, 'Fraction of a float')
        return AV(frozenset(['Fraction']), E0, None, frozenset(fl | {BIG}))
    if name.startswith('string.'):
        return AV(frozenset(['top']))
    if name == 'decimal.Decimal':
        return TOP.withflags(f.origin(INEXACT, node, name))
    return TOP.withflags(taint(*[pos(args, i) for i in range(len(args))]))


def copy_dict_into(f, r, src, env):
    for q in src.p:
        if 'dict' in src.t or 'top' in src.t:
            f.put_elem(r, f.read(q, '[]', env), env, key=f.read(q, '<k>', env))
        if src.t & {'list', 'tuple', 'iter', 'set', 'top'}:
            el = f.read(q, '[]', env)
            if el is not BOT:
                f.put_elem(r, f.index(el, 1, env, None), env, key=f.index(el, 0, env, None))
    if f.is_unordered(src, env):
        f.set_container_flag(r, f.uflags(src, env, None), env)


def deep(f, v, node, env, depth=5, memo=None):
    """deepcopy: the same structure, everything in it fresh."""
    if v is None:
        return TOP
    memo = {} if memo is None else memo
    if v.t <= IMMUTABLE or not v.p:
        return AV(v.t, E0, v.c, v.fl, v.fn)
    if v in memo:
        return memo[v]
    site = (f.fi.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), f'deepcopy{depth}-{len(memo)}')
    f.site_nodes[site] = node
    path = (('a', site), ())
    res = AV(v.t, frozenset([path]), v.c, v.fl, v.fn)
    memo[v] = res
    d = f.heap.setdefault(path, {})
    d['!t'] = AV(v.t)
    fl = f.container_flags(v, env)
    if fl:
        env[(path, '!fl')] = AV(E0, E0, E0, fl)
    if depth == 0:
        d['[]'] = TOP
        return res
    for p in v.p:
        if p[0][0] == 'a':
            for step in list(f.heap.get(p, {})):
                if step.startswith('!') or step.startswith('~'):
                    continue
                f.heap_put(path, step, deep(f, f.read(p, step, env), node, env, depth - 1, memo))
        else:
            steps = ['[]']
            if 'dict' in v.t:
                steps.append('<k>')
            for t in v.t:
                if t.startswith('C:'):
                    for c in f.eng.cls(t).mro():
                        steps += [s for s in f.eng.field_shapes.get(c.qual, {}) if s not in steps]
            if all(t.startswith('C:') for t in v.t):
                steps.remove('[]')
            for step in steps:
                f.heap_put(path, step, deep(f, f.read(p, step, env), node, env, depth - 1, memo))
    return res


def shallow(f, v, node, env):
    if v is None or v.t <= IMMUTABLE:
        return v or TOP
    res = BOT
    for t in v.t:
        one = AV(frozenset([t]), f.paths(v, t), None, v.fl)
        if t in ('list', 'set', 'tuple', 'frozenset', 'iter'):
            res = join(res, f.alloc(node, t, {'[]': f.elem(one, env, node)}, fl=f.flags(one, env) & M_U, env=env))
        elif t == 'dict':
            r = f.alloc(node, 'dict', {}, env=env, tag='copy', fl=f.container_flags(one, env) & M_U)
            for p in v.p:
                for q in r.p:
                    if p[0][0] == 'a':
                        for step, x in list(f.heap.get(p, {}).items()):
                            if step != '!fl':
                                f.heap_put(q, step, x)
                    else:
                        f.heap_put(q, '[]', f.read(p, '[]', env))
                        f.heap_put(q, '<k>', f.read(p, '<k>', env))
            res = join(res, r)
        elif t == 'ndarray':
            el = f.elem(one, env, node)
            scalar = AV(el.t - {'ndarray'} or frozenset(['int']), E0, None, el.fl - M_NP)
            res = join(res, f.new_array(node, env, scalar, f.has_rows(one, env), tag='copy'))
        elif t.startswith('C:'):
            r = f.alloc(node, t, {}, tag='copy')
            c = f.eng.cls(t)
            for q in r.p:
                for cc in c.mro():
                    for s in list(f.eng.field_shapes.get(cc.qual, {})):
                        f.heap_put(q, s, joinall(f.read(p, s, env) for p in v.p))
            res = join(res, r)
        elif t == 'top':
            r = f.alloc(node, 'list', {'[]': f.elem(one, env, node)}, tag='topcopy', env=env)
            r = AV(frozenset(['top']), r.p)
            for p in v.p:
                for q in r.p:
                    f.heap_put(q, '<k>', f.read(p, '<k>', env))
            res = join(res, r)
        else:
            res = join(res, AV(frozenset([t]), E0, None, v.fl))
    return res


def itertools_call(f, short, args, kwargs, node, env):
    vals = [pos(args, i) for i in range(len(args))]
    iters = [v for v in vals if v is not None]
    un = E0.union(*[f.uflags(v, env, node) for v in iters])
    fl = un
    if short in ('product', 'combinations', 'permutations', 'combinations_with_replacement', 'zip_longest'):
        its = iters if short in ('product', 'zip_longest') else iters[:1]
        els = [f.elem(v, env, node) for v in its]
        content = {'[]': joinall(els)}
        if short == 'product' and 'repeat' not in kwargs:
            for i, x in enumerate(els):
                content[f'#{i}'] = x
        if short == 'product' and any(isinstance(a, tuple) for a in args):
            els2 = f.elem(els[0], env, node)
            content = {'[]': els[0] if els2 is BOT else els[0]}
        inner_fl = un if short in ('combinations', 'combinations_with_replacement') else E0
        tup = f.alloc(node, 'tuple', content, tag='tuple', fl=inner_fl, env=env)
        if inner_fl:
            tup = tup.withflags(frozenset(inner_fl))
        return f.alloc(node, 'iter', {'[]': tup}, tag='iter', fl=fl, env=env)
    if short in ('chain',):
        return f.alloc(node, 'iter', {'[]': joinall(f.elem(v, env, node) for v in iters)}, fl=fl, env=env)
    if short == 'from_iterable':
        inner = f.elem(iters[0], env, node)
        fl = fl | f.uflags(inner, env, node)
        return f.alloc(node, 'iter', {'[]': f.elem(inner, env, node)}, fl=fl, env=env)
    if short in ('repeat',):
        return f.alloc(node, 'iter', {'[]': iters[0]}, env=env)
    if short == 'count':
        return f.alloc(node, 'iter', {'[]': BIGINT}, env=env)
    if short == 'groupby':
        el = f.elem(iters[0], env, node)
        grp = f.alloc(node, 'iter', {'[]': el}, tag='group', fl=fl, env=env)
        tup = f.alloc(node, 'tuple', {'#0': TOP, '#1': grp, '[]': join(TOP, grp)}, tag='tuple', env=env)
        return f.alloc(node, 'iter', {'[]': tup}, tag='iter', fl=fl, env=env)
    src = iters[-1] if iters else None
    for v in iters:
        if v.t & {'list', 'tuple', 'set', 'iter', 'dict'}:
            src = v
    el = f.elem(src, env, node) if src is not None else TOP
    if short == 'accumulate':
        el = join(el, BIGINT)
    return f.alloc(node, 'iter', {'[]': el}, fl=fl, env=env)


def builtin(f, name, args, kwargs, node, env):
    vals = [pos(args, i) for i in range(len(args))]
    a0 = vals[0] if vals else None
    a1 = vals[1] if len(vals) > 1 else None
    if name in EXC_NAMES:
        return AV(frozenset(['exc']), E0, None, E0, frozenset([('excinst', 'builtins.' + name)]))
    if name in ('print',):
        note_io(f, 'print', 'print', node)
        f.eng.sink('print()', f.fi, node, frozenset(f.loop_flags()).union(*(f.str_flags(v, env) for v in vals)))
        return NONE
    if name in ('open', 'input', 'breakpoint'):
        mode = a1.c if a1 is not None and a1.c else frozenset([('str', 'r')])
        note_io(f, 'open' if name == 'open' else name, '|'.join(sorted(str(x[1]) for x in mode)), node)
        return TOP
    if name in ('exec', 'eval', 'globals', 'compile', '__import__'):
        note_io(f, 'dynamic', name, node)
        return TOP
    if name == 'len':
        for t in a0.t if a0 is not None else ():
            if t.startswith('C:'):
                m = f.eng.cls(t).lookup('__len__')
                if isinstance(m, FuncInfo):
                    f.call_func(m, [AV(frozenset([t]), f.paths(a0, t))], {}, node, env)
                    f.never_returns = False
        if a0 is not None and len(a0.p) == 1:
            return AV(frozenset(['int']), E0, None, E0, frozenset([('lenof', next(iter(a0.p)))]))
        return INT
    if name in ('range',):
        if any(INEXACT in v.fl for v in vals):
            f.eng.sink('range()', f.fi, node, frozenset().union(*[v.fl for v in vals]))
        return AV(frozenset(['range']), E0, None, joinall(vals).fl & M_UI if vals else E0)
    if name in ('int',):
        if not vals:
            return const(0)
        v = a0
        if INEXACT in v.fl:
            f.eng.sink('int()', f.fi, node, v.fl)
        c = None
        if v.c is not None and all(x[0] in ('int', 'bool') for x in v.c):
            c = frozenset(('int', int(x[1])) for x in v.c)
        big = {BIG} if (v.t - {'bool'}) and not (v.t <= {'int', 'bool'} and BIG not in v.fl) else set()
        if v.t <= {'float'} and BIG not in v.fl:
            big = set()
        return AV(frozenset(['int']), E0, c, frozenset(big) | taint(v) | (v.fl & {BIG}))
    if name == 'bool':
        if not vals:
            return FALSE
        tv = f.truth(a0, env)
        r = BOOL if len(tv) == 2 else const(next(iter(tv)))
        return r.withflags(a0.fl & M_UI if a0.t <= {'int', 'float', 'bool'} else E0)
    if name == 'float':
        if a0 is not None and (BIG in a0.fl or 'top' in a0.t):
            f.eng.event('float', f.fi, node, 'float()')
            return AV(frozenset(['float']), E0, None, f.origin(INEXACT, node, 'float()') | taint(a0))
        return FLOAT.withflags(taint(a0))
    if name == 'complex':
        f.eng.event('float', f.fi, node, 'complex()')
        return AV(frozenset(['complex']), E0, None, f.origin(INEXACT, node, 'complex()'))
    if name in ('str', 'repr', 'ascii', 'format'):
        if a0 is None:
            return const('')
        fl = f.str_flags(a0, env)
        if name == 'format' and a1 is not None and a1.c is not None and any(ch in str(x[1]) for x in a1.c for ch in 'feg%'):
            fl = fl - M_I
        if name == 'str' and a0.t == {'str'}:
            return a0
        return AV(frozenset(['str']), E0, None, frozenset(fl))
    if name in ('chr', 'hex', 'oct', 'bin'):
        return AV(frozenset(['str']), E0, None, taint(a0))
    if name in ('ord',):
        return INT
    if name == 'hash':
        for t in a0.t:
            if t.startswith('C:'):
                m = f.eng.cls(t).lookup('__hash__')
                if isinstance(m, FuncInfo):
                    f.call_func(m, [AV(frozenset([t]), f.paths(a0, t))], {}, node, env)
                    f.never_returns = False
        r = BIGINT
        if a0.t & {'str', 'top', 'tuple', 'none'} or any(t.startswith('C:') for t in a0.t):
            r = r.withflags(f.origin(UNORDERED, node, 'hash()'))
        return r.withflags(taint(a0))
    if name == 'id':
        return BIGINT.withflags(f.origin(UNORDERED, node, 'id()'))
    if name in ('list', 'tuple', 'set', 'frozenset', 'iter', 'reversed', 'sorted'):
        typ = {'iter': 'iter', 'reversed': 'iter', 'sorted': 'list'}.get(name, name)
        if a0 is None:
            r = f.alloc(node, typ, {}, env=env)
            for p in r.p:
                env[(p, '!one')] = AV(E0, E0, E0)
            return r
        el = f.elem(a0, env, node)
        if name == 'sorted':
            key = kwargs.get('key')
            fl = set()
            if key is not None and not (key.t == {'none'}):
                call_key(f, key, el, node, env)
                if f.is_unordered(a0, env):
                    f.eng.event('sort-key', f.fi, node, 'sorted with a key over an unordered collection')
                    if not _injective_key(f, node):
                        fl |= f.uflags(a0, env, node)
            return f.alloc(node, typ, {'[]': el}, fl=fl, env=env)
        content = {'[]': el}
        if typ in ('tuple', 'list') and a0.t == {'tuple'}:
            for p in a0.p:
                for s, v in list(f.heap.get(p, {}).items()):
                    if s.startswith('#') and len(a0.p) == 1 and typ == 'tuple':
                        content[s] = v
        r = f.alloc(node, typ, content, fl=f.uflags(a0, env, node) if typ not in ('set', 'frozenset') else E0, env=env)
        return r
    if name == 'dict':
        r = f.alloc(node, 'dict', {}, env=env)
        if a0 is not None:
            copy_dict_into(f, r, a0, env)
        for k, v in kwargs.items():
            f.put_elem(r, v, env, key=const(k))
        return r
    if name == 'enumerate':
        el = f.elem(a0, env, node)
        un = f.uflags(a0, env, node)
        i = INT.withflags(un)
        start = a1 or kwargs.get('start')
        tup = f.alloc(node, 'tuple', {'#0': i, '#1': el, '[]': join(i, el)}, tag='tuple', env=env)
        return f.alloc(node, 'iter', {'[]': tup}, tag='iter', fl=un, env=env)
    if name == 'zip':
        un = E0.union(*[f.uflags(v, env, node) for v in vals])
        content = {}
        if any(isinstance(a, tuple) for a in args):
            inner = f.elem(vals[0], env, node)
            content['[]'] = inner
        else:
            for i, v in enumerate(vals):
                content[f'#{i}'] = f.elem(v, env, node)
            content['[]'] = joinall(content.values())
        tup = f.alloc(node, 'tuple', content, tag='tuple', env=env)
        return f.alloc(node, 'iter', {'[]': tup}, tag='iter', fl=un, env=env)
    if name == 'map':
        els = [f.elem(v, env, node) for v in vals[1:]]
        r = f.call_value(a0, els, {}, node, env)
        f.never_returns = False
        un = E0.union(*[f.uflags(v, env, node) for v in vals[1:]])
        return f.alloc(node, 'iter', {'[]': r}, fl=un, env=env)
    if name == 'filter':
        el = f.elem(a1, env, node)
        if a0 is not None and a0.fn:
            f.call_value(a0, [el], {}, node, env)
            f.never_returns = False
        return f.alloc(node, 'iter', {'[]': el}, fl=f.uflags(a1, env, node), env=env)
    if name in ('sum',):
        el = f.elem(a0, env, node)
        init = a1 or kwargs.get('start') or const(0)
        fl = set(taint(el, init)) | (el.fl & M_NP)
        fl = set(fl - M_U)
        t = set()
        if el.t & {'bool', 'int'}:
            t.add('int')
            if BIG in el.fl:
                fl.add(BIG)
        if el.t & {'float'}:
            t.add('float')
        if 'Fraction' in el.t:
            t.add('Fraction')
        res = AV(frozenset(t or {'int'}), E0, None, frozenset(fl))
        if init.t & {'list', 'tuple'}:
            res = f.alloc(node, 'list', {'[]': f.elem(el, env, node)}, fl=f.uflags(a0, env, node), env=env)
        elif el.t & {'top'}:
            res = join(res, TOP.withflags(frozenset(fl)))
        elif 'ndarray' in el.t:
            res = join(res, f.alloc(node, 'ndarray', {'[]': INT}, env=env))
        return res
    if name in ('min', 'max'):
        key = kwargs.get('key')
        fl = set()
        if len(vals) == 1:
            el = f.elem(a0, env, node)
            if key is not None and key.t != {'none'}:
                call_key(f, key, el, node, env)
                if f.is_unordered(a0, env):
                    f.eng.event('sort-key', f.fi, node, f'{name} with a key over an unordered collection')
                    fl |= f.uflags(a0, env, node)
            if 'default' in kwargs:
                el = join(el, kwargs['default'])
            r = el
        else:
            r = joinall(vals)
            if key is not None:
                call_key(f, key, r, node, env)
        for t in r.t:
            if t.startswith('C:'):
                m = f.eng.cls(t).lookup('__lt__')
                if isinstance(m, FuncInfo):
                    one = AV(frozenset([t]), f.paths(r, t))
                    f.call_func(m, [one, one], {}, node, env)
                    f.never_returns = False
        return AV(r.t, r.p, r.c if r.c is not None and len(r.c) == 1 else None, r.fl | fl, r.fn)
    if name in ('any', 'all'):
        el = f.elem(a0, env, node)
        if el is BOT:
            return const(name == 'all')
        tv = f.truth(el, env)
        r = BOOL
        return r.withflags(el.fl & M_I | (el.fl & M_U if el.t & {'bool'} else E0))
    if name in ('abs',):
        if a0.t & {'ndarray', 'top'}:
            r = f.new_array(node, env, INT, f.has_rows(a0, env)) if 'ndarray' in a0.t else TOP
            return join(r, AV(a0.t - {'ndarray', 'top'}, E0, None, a0.fl)) if a0.t - {'ndarray', 'top'} else r.withflags(taint(a0))
        return AV(a0.t & {'int', 'float', 'Fraction'} or frozenset(['int']), E0, None, a0.fl)
    if name == 'round':
        if INEXACT in a0.fl:
            f.eng.sink('round()', f.fi, node, a0.fl)
        if a0.t <= {'int', 'bool'}:
            return a0
        return AV(frozenset(['int', 'float']) if a1 is not None else frozenset(['int']), E0, None, a0.fl)
    if name == 'divmod':
        fl = frozenset(a0.fl | a1.fl)
        r = AV(frozenset(['int']), E0, None, fl)
        return f.alloc(node, 'tuple', {'#0': r, '#1': r, '[]': r}, env=env)
    if name == 'pow':
        if len(vals) == 2:
            import ast as _ast
            return f.binop(_ast.Pow, a0, a1, node, env)
        return BIGINT.withflags(taint(*vals))
    if name == 'isinstance' or name == 'issubclass':
        return isinstance_(f, a0, a1, env) if name == 'isinstance' else BOOL
    if name == 'type':
        if len(vals) == 1:
            return AV(frozenset(['type']), E0, None, E0, frozenset([('typeof', a0.t)]))
        return TOP
    if name == 'callable':
        return BOOL
    if name == 'next':
        el = f.elem(a0, env, node)
        un = f.is_unordered(a0, env) and id(node) not in f.taking
        if a1 is not None:
            el = join(el, a1)
        if un and not el.t <= {'none'}:
            f.eng.event('choice', f.fi, node, 'next() of an unordered collection')
            return el.withflags(f.uflags(a0, env, node))
        return el
    if name == 'hasattr':
        return BOOL
    if name == 'getattr':
        if a1 is not None and a1.c is not None:
            r = BOT
            for t, x in a1.c:
                if t == 'str':
                    r = join(r, f.getattr(a0, x, node, env))
            if len(vals) > 2:
                r = join(r, vals[2])
            return r
        return TOP
    if name == 'setattr':
        if a1 is not None and a1.c is not None and len(vals) > 2:
            for t, x in a1.c:
                if t == 'str':
                    if len(a1.c) == 1:
                        f.setattr(a0, x, vals[2], env, node)
                    else:
                        weak(f, a0, x, vals[2], env, node)
                        f.dynamic |= a0.p
        else:
            f.set_unknown(a0, vals[2] if len(vals) > 2 else TOP, env)
            f.mutate(a0, node, 'setattr', '?', env)
        return NONE
    if name == 'delattr':
        f.mutate(a0, node, 'delattr', '|'.join(sorted(str(x[1]) for x in a1.c)) if a1 is not None and a1.c else '?', env)
        return NONE
    if name == 'vars':
        if a0 is not None:
            return f.getattr(a0, '__dict__', node, env)
        return TOP
    if name == 'super':
        if len(vals) == 2:
            cl = [x[1] for x in a0.fn if x[0] == 'class']
            if cl:
                return AV(frozenset(['ext']), E0, None, E0, frozenset([('super', cl[0], a1)]))
        elif not vals:
            c = f.fi.cls
            if c is not None and 'self' in env:
                return AV(frozenset(['ext']), E0, None, E0, frozenset([('super', c, env['self'])]))
        return TOP
    if name == 'slice':
        return prim('slice')
    if name == 'object':
        return AV(frozenset(['top']))
    if name in ('bytes', 'bytearray', 'memoryview'):
        return prim('bytes')
    if name in ('property', 'staticmethod', 'classmethod'):
        return TOP
    return TOP


def _injective_key(f, node):
    return False


def weak(f, obj, attr, v, env, node):
    """One of several attributes is set."""
    saved = {k: x for k, x in env.items() if isinstance(k, tuple) and k[1] == attr}
    f.setattr(obj, attr, v, env, node)


def isinstance_(f, a0, a1, env):
    names = set()
    for av in ([a1] + ([f.elem(a1, env)] if 'tuple' in a1.t else [])):
        names |= {x for x in f.type_names(av) if isinstance(x, str)}
    if not names or '?' in names or 'top' in a0.t or not a0.t:
        return BOOL
    yes = no = False
    for t in a0.t:
        if t in names or (t == 'bool' and 'int' in names):
            yes = True
        elif t.startswith('C:') and any(n.startswith('C:') and f.eng.cls(n) in f.eng.cls(t).mro() for n in names):
            yes = True
        elif any(n not in _EXT_TYPES.values() and not n.startswith('C:') for n in names):
            yes = no = True
        else:
            no = True
    if yes and not no:
        return TRUE
    if no and not yes:
        return FALSE
    return BOOL


def numpy_call(f, name, args, kwargs, node, env):
    vals = [pos(args, i) for i in range(len(args))]
    a0 = vals[0] if vals else None
    a1 = vals[1] if len(vals) > 1 else None
    short = name.rsplit('.', 1)[-1]
    dtype = kwargs.get('dtype') or (a1 if name in ('array', 'asarray', 'zeros', 'ones', 'empty', 'full') and a1 is not None and a1.fn else None)
    exact_dtype = dtype is not None and any(x[0] == 'ext' and x[1] == 'builtins.object' for x in dtype.fn)
    fl = set()
    for v in vals:
        if v is not None:
            fl |= nested_flags(f, v, env) & M_UIB
    un = fl & M_U
    if name.startswith('linalg.'):
        f.eng.event('float', f.fi, node, 'numpy.' + name)
        el = AV(frozenset(['float']), E0, None, f.origin(INEXACT, node, 'numpy.' + name))
        if short in ('det', 'norm', 'matrix_rank', 'cond'):
            return el
        return f.new_array(node, env, el, True)
    if short in ('array', 'asarray', 'copy', 'asanyarray', 'ascontiguousarray'):
        elfl = set(fl - M_U)
        if dtype is not None and any(x[0] == 'ext' and x[1] in ('builtins.float',) or x[0] == 'ext' and 'float' in x[1] for x in dtype.fn):
            if BIG in elfl:
                f.eng.event('float', f.fi, node, 'array of floats')
                elfl |= f.origin(INEXACT, node, 'array of floats')
        if dtype is not None and any(x[0] == 'ext' and x[1].rsplit('.', 1)[-1] in NP_FIXED for x in dtype.fn) and BIG in elfl:
            f.eng.event('fixed-width', f.fi, node, 'explicit dtype')
            elfl |= f.origin(INEXACT, node, 'fixed-width dtype')
        r = f.new_array(node, env, AV(frozenset(['int']), E0, None, frozenset(elfl) - M_NP), a0 is not None and f.has_rows(a0, env), fl=un)
        if short.startswith('as') and a0 is not None:
            r = join(r, AV(frozenset(['ndarray']), a0.p))
        return r
    if short in ('zeros', 'ones', 'empty', 'eye', 'identity', 'full', 'arange', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'indices'):
        elfl = {BIG} if short.startswith('full') and a1 is not None and BIG in a1.fl else set()
        rows = short in ('eye', 'identity', 'indices') or short.endswith('_like') or (a0 is not None and bool(a0.t & {'tuple', 'list', 'top', 'ndarray'}))
        return f.new_array(node, env, AV(frozenset(['int']), E0, None, frozenset(elfl)), rows and short != 'arange')
    if short in ('array_equal', 'all', 'any', 'array_equiv', 'isscalar'):
        return BOOL.withflags(frozenset(fl & M_I))
    if short in ('allclose', 'isclose'):
        f.eng.event('float', f.fi, node, 'numpy.' + short)
        return BOOL.withflags(f.origin(INEXACT, node, 'numpy.' + short))
    if short in ('transpose', 'reshape', 'ravel', 'fliplr', 'flipud', 'flip', 'rot90', 'swapaxes', 'moveaxis', 'squeeze', 'atleast_2d', 'expand_dims', 'broadcast_to', 'diagonal'):
        t = AV(frozenset(['ndarray']), a0.p if a0 is not None else E0)
        if a0 is not None and not a0.t <= {'ndarray'}:
            t = join(t, f.new_array(node, env, AV(frozenset(['int']), E0, None, frozenset(fl - M_U)), True))
        return t
    if short in NP_GROW:
        if not exact_dtype:
            f.eng.event('fixed-width', f.fi, node, 'numpy.' + short)
            fl |= f.origin(INEXACT, node, 'fixed-width numpy.' + short)
        return join(f.alloc(node, 'ndarray', {'[]': AV(frozenset(['int']), E0, None, frozenset(fl | {BIG}) - M_U)}, env=env),
                    AV(frozenset(['int']), E0, None, frozenset(fl | {BIG}) - M_U))
    if short in NP_FLOAT:
        f.eng.event('float', f.fi, node, 'numpy.' + short)
        return join(f.alloc(node, 'ndarray', {'[]': AV(frozenset(['float']), E0, None, f.origin(INEXACT, node, 'numpy.' + short))}, env=env),
                    AV(frozenset(['float']), E0, None, f.origin(INEXACT, node, 'numpy.' + short)))
    if short in NP_FIXED:
        if a0 is not None and BIG in fl:
            f.eng.event('fixed-width', f.fi, node, 'numpy.' + short)
            return AV(frozenset(['int']), E0, None, f.origin(INEXACT, node, 'numpy.' + short) | {BIG})
        return INT
    if short in ('fill_diagonal', 'put', 'copyto', 'place', 'putmask'):
        f.mutate(a0, node, 'mutate', 'numpy.' + short, env)
        return NONE
    if short in ('dot', 'matmul', 'sum', 'cumsum', 'inner', 'outer', 'kron', 'add', 'subtract', 'vdot', 'tensordot'):
        if BIG in fl and not exact_dtype:
            f.eng.event('fixed-width', f.fi, node, 'numpy.' + short)
            fl |= f.origin(INEXACT, node, 'fixed-width numpy.' + short)
        r = f.new_array(node, env, AV(frozenset(['int']), E0, None, frozenset(fl - M_U)), True)
        if short in ('sum', 'dot', 'inner', 'vdot', 'add'):
            r = join(r, AV(frozenset(['int']), E0, None, frozenset(fl - M_U) | f.origin(NP, node)))
        return r
    if short in ('nonzero', 'where', 'unravel_index', 'meshgrid'):
        arr = f.alloc(node, 'ndarray', {'[]': INT}, tag='arr', env=env)
        return f.alloc(node, 'tuple', {'[]': arr}, env=env)
    if short in ('ndarray',):
        return f.alloc(node, 'ndarray', {'[]': INT}, env=env)
    r = f.alloc(node, 'ndarray', {'[]': AV(frozenset(['int']), E0, None, frozenset(fl - M_U))}, fl=un, env=env)
    if short in ('max', 'min', 'argmax', 'argmin', 'count_nonzero', 'trace', 'gcd'):
        r = join(r, AV(frozenset(['int']), E0, None, frozenset(fl - M_U)))
    return r


def nested_flags(f, v, env, depth=3):
    fl = set(f.flags(v, env))
    if v.t & {'set'}:
        fl |= f.uflags(v, env, None)
    if v.t & {'list', 'tuple', 'ndarray', 'iter'} and depth:
        # the flag "big" of the container itself says nothing
        fl.discard(BIG)
        el = joinall(f.read(p, '[]', env) for p in v.p)
        if el is not BOT:
            fl |= nested_flags(f, el, env, depth - 1)
    return fl


NEW_SET = {'union', 'intersection', 'difference', 'symmetric_difference'}


def method(f, recv, name, args, kwargs, node, env):
    f.never_returns = False
    vals = [pos(args, i) for i in range(len(args))]
    a0 = vals[0] if vals else None
    a1 = vals[1] if len(vals) > 1 else None
    for v in list(vals) + list(kwargs.values()):
        if v is not None and any(x[0] == 'closure' for x in v.fn):
            f.call_closures(v, env)
    (t,) = recv.t
    top = t == 'top'
    # in-place changes
    muts = MUTATORS.get(t, E0) if not top else ALL_MUTATORS
    if name in muts:
        if '__dict__' in [p[1][-1] for p in recv.p if p[1]]:
            names = '|'.join(sorted(str(x[1]) for x in a0.c)) if a0 is not None and a0.c else '?'
            paths = frozenset(p for p in recv.p if p[0][0] != 'a')
            if name in ('update', '__setitem__', 'setdefault'):
                for p in recv.p:
                    one = f.heap.get(p, {}).get('~src') if p[0][0] == 'a' else None
                    if one is not None and name == 'update' and a0 is not None:
                        if any('~src' in f.heap.get(q, {}) for q in a0.p):
                            f.copy_dict(one, a0, env, node)
                        else:
                            f.set_unknown(one, joinall([f.read(q, '[]', env) for q in a0.p] or [TOP]), env)
                    elif one is not None:
                        f.set_unknown(one, a1 or TOP, env)
            for p in paths:
                owner = (p[0], p[1][:-1])
                if len(paths) == 1 and a0 is not None and a0.c and len(a0.c) == 1 and name in ('pop', '__delitem__'):
                    f.cache_emptied(owner, {str(next(iter(a0.c))[1])}, env)
                if len(paths) == 1 and name == 'clear':
                    f.cache_emptied(owner, f.all_cached(owner), env)
                f.effects.setdefault((owner, 'dictattr', f'{name}:{names}'), ((f.fi.qual, f.fi.where(node), 'changes __dict__', f'{name}:{names}'),))
            return TOP
        f.mutate(recv, node, 'mutate', name + '()', env)
    if t in ('list',) or top and name in MUTATORS['list']:
        if name in ('append',):
            f.put_elem(recv, a0, env)
            f.note_order(recv, node, env)
            return NONE
        if name == 'insert':
            f.put_elem(recv, a1 or BOT, env)
            f.note_order(recv, node, env)
            return NONE
        if name == 'extend':
            f.put_elem(recv, f.elem(a0, env, node), env)
            if f.is_unordered(a0, env):
                f.set_container_flag(recv, f.uflags(a0, env, node), env)
            f.note_order(recv, node, env)
            return NONE
        if name == 'sort':
            if 'key' not in kwargs or not UNORDERED in f.flags(recv, env):
                f.set_container_flag(recv, E0, env, strong=True)
            if 'key' in kwargs:
                call_key(f, kwargs['key'], f.elem(recv, env, node), node, env)
            return NONE
        if name in ('reverse', 'remove', 'clear') and t == 'list':
            return NONE
        if name == 'pop' and t == 'list':
            r = f.index(recv, None, env, node)
            return AV(r.t, r.p, r.c, f.elem(recv, env, node).fl, r.fn) if id(node) in f.taking else r
    if t == 'list':
        if name == 'copy':
            return shallow(f, recv, node, env)
        if name in ('index', 'count'):
            r = INT
            if name == 'index' and UNORDERED in f.flags(recv, env):
                r = r.withflags(f.flags(recv, env) & M_U)
            return r
        return TOP
    if t in ('tuple', 'range'):
        return INT
    if t in ('dict',) or top and name in ('keys', 'values', 'items', 'get', 'setdefault', 'update', 'popitem'):
        fl = f.container_flags(recv, env) & M_U
        ks = joinall(f.read(p, '<k>', env) for p in recv.p)
        vs = joinall(f.read(p, '[]', env) for p in recv.p)
        if top and not recv.p:
            ks = vs = TOP
        if name == 'keys':
            return f.alloc(node, 'iter', {'[]': ks}, fl=fl, env=env)
        if name == 'values':
            return f.alloc(node, 'iter', {'[]': vs}, fl=fl, env=env)
        if name == 'items':
            tup = f.alloc(node, 'tuple', {'#0': ks, '#1': vs, '[]': join(ks, vs)}, tag='tuple', env=env)
            return f.alloc(node, 'iter', {'[]': tup}, tag='iter', fl=fl, env=env)
        if name == 'get':
            return join(vs, a1 if a1 is not None else NONE)
        if name in ('pop', 'setdefault'):
            if name == 'setdefault':
                f.put_elem(recv, a1 if a1 is not None else NONE, env, key=a0)
                f.note_order(recv, node, env)
            return join(vs, a1) if a1 is not None else vs
        if name == 'popitem':
            r = f.alloc(node, 'tuple', {'#0': ks, '#1': vs, '[]': join(ks, vs)}, env=env)
            return r if id(node) in f.taking else r.withflags(frozenset(fl))
        if name in ('update', 'putall', 'forceupdate'):
            if a0 is not None:
                copy_dict_into(f, recv, a0, env)
            f.note_order(recv, node, env)
            return NONE
        if name in ('put', 'forceput'):
            f.put_elem(recv, a1, env, key=a0)
            f.note_order(recv, node, env)
            return NONE
        if name == 'copy':
            return shallow(f, recv, node, env)
        if name in ('clear',):
            return NONE
        if name == 'fromkeys':
            r = f.alloc(node, 'dict', {}, env=env)
            f.put_elem(r, a1 or NONE, env, key=f.elem(a0, env, node))
            if f.is_unordered(a0, env):
                f.set_container_flag(r, f.uflags(a0, env, node), env)
            return r
        if not top:
            return TOP
    if t in ('set', 'frozenset') or top and name in ('add', 'discard', 'union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint'):
        el = f.elem(recv, env, node)
        if name == 'add':
            f.put_elem(recv, a0, env)
            return NONE
        if name in ('update',) or name.endswith('_update'):
            for v in vals:
                f.put_elem(recv, f.elem(v, env, node), env)
            return NONE
        if name in ('discard', 'remove', 'clear'):
            return NONE
        if name == 'pop':
            if id(node) in f.taking:
                return el
            if f.is_unordered(recv, env):
                f.eng.event('choice', f.fi, node, 'pop() of a set')
            return el.withflags(f.uflags(recv, env, node))
        if name in NEW_SET:
            els = [el] + [f.elem(v, env, node) for v in vals if v is not None]
            return f.alloc(node, 'set', {'[]': joinall(els)}, env=env)
        if name == 'copy':
            return shallow(f, recv, node, env)
        return BOOL
    if t == 'str':
        if name in ('split', 'splitlines', 'rsplit', 'partition', 'rpartition'):
            return f.alloc(node, 'list', {'[]': AV(frozenset(['str']), E0, None, recv.fl)}, env=env)
        if name == 'join':
            fl = set(recv.fl & M_UI)
            if a0 is not None:
                fl |= f.uflags(a0, env, node)
                fl |= f.elem(a0, env, node).fl & M_UI
            return AV(frozenset(['str']), E0, None, frozenset(fl))
        if name in ('index', 'find', 'count', 'rfind', 'rindex'):
            return INT
        if name.startswith('is') or name in ('startswith', 'endswith'):
            return BOOL
        if name == 'format':
            fl = set(recv.fl & M_UI)
            for v in vals + list(kwargs.values()):
                if v is not None:
                    fl |= f.str_flags(v, env)
            return AV(frozenset(['str']), E0, None, frozenset(fl))
        if name == 'encode':
            return prim('bytes')
        return AV(frozenset(['str']), E0, None, recv.fl | taint(a0, a1))
    if t == 'ndarray':
        el = joinall(f.read(p, '[]', env) for p in recv.p)
        elv = AV(frozenset(['int']), E0, None, el.fl | f.origin(NP, node))
        if name in ('transpose', 'reshape', 'ravel', 'swapaxes', 'view', 'squeeze', 'diagonal'):
            return AV(frozenset(['ndarray']), recv.p)
        if name in ('flatten', 'copy', 'astype', 'repeat', 'take', 'round', 'clip', 'nonzero'):
            r = f.new_array(node, env, elv, name != 'flatten' and f.has_rows(recv, env))
            if name == 'nonzero':
                return f.alloc(node, 'tuple', {'[]': r}, tag='t', env=env)
            if name == 'astype' and a0 is not None and any(x[0] == 'ext' and ('float' in x[1] or x[1].rsplit('.', 1)[-1] in NP_FIXED) for x in a0.fn) and BIG in el.fl:
                f.eng.event('fixed-width', f.fi, node, 'astype')
                for p in r.p:
                    f.heap_put(p, '[]', elv.withflags(f.origin(INEXACT, node, 'astype')))
            if name == 'astype' and INEXACT in el.fl:
                f.eng.sink('astype()', f.fi, node, el.fl)
            return r
        if name == 'tolist':
            elv = AV(elv.t, E0, None, elv.fl - M_NP)
            inner = f.alloc(node, 'list', {'[]': elv}, tag='inner', env=env) if f.has_rows(recv, env) else BOT
            return f.alloc(node, 'list', {'[]': join(elv, inner)}, env=env)
        if name in ('prod', 'cumprod'):
            f.eng.event('fixed-width', f.fi, node, 'ndarray.' + name)
            return AV(frozenset(['int', 'ndarray']), E0, None, f.origin(INEXACT, node, 'fixed-width ndarray.' + name) | {BIG})
        if name in ('mean', 'std', 'var'):
            f.eng.event('float', f.fi, node, 'ndarray.' + name)
            return AV(frozenset(['float']), E0, None, f.origin(INEXACT, node, 'ndarray.' + name))
        if name in ('sum', 'dot', 'cumsum'):
            fl = set(el.fl & M_IB)
            if a0 is not None and name == 'dot':
                fl |= nested_flags(f, a0, env) & M_IB
            if BIG in fl:
                f.eng.event('fixed-width', f.fi, node, 'ndarray.' + name)
                fl |= f.origin(INEXACT, node, 'fixed-width ndarray.' + name)
            r = f.alloc(node, 'ndarray', {'[]': AV(frozenset(['int']), E0, None, frozenset(fl))}, env=env)
            return join(r, AV(frozenset(['int']), E0, None, frozenset(fl)))
        if name in ('any', 'all'):
            return BOOL
        if name in ('max', 'min', 'item', 'argmax', 'argmin'):
            return elv
        return AV(frozenset(['top']))
    if t in ('int', 'bool'):
        if name == 'bit_length':
            return INT.withflags(taint(recv))
        return BIGINT.withflags(taint(recv))
    if t == 'float':
        if name == 'is_integer':
            return BOOL.withflags(recv.fl & M_I)
        return FLOAT.withflags(taint(recv))
    if top:
        if name == 'copy':
            return shallow(f, recv, node, env)
        if name in ('transpose', 'reshape', 'ravel', 'view'):
            return AV(frozenset(['top']), recv.p)
        if name in ('pop',):
            return f.elem(recv, env, node)
        if name in ('index', 'count', 'bit_length', 'find'):
            return INT
        if name in ('join', 'replace', 'zfill', 'strip', 'lower', 'upper', 'ljust', 'rjust', 'format'):
            return AV(frozenset(['str']), E0, None, recv.fl & M_UI)
        if name in ('flatten', 'astype', 'tolist', 'nonzero', 'dot', 'sum', 'max', 'min'):
            return TOP
        if name == 'write':
            note_io(f, 'open', 'write', node)
            return TOP
        if name in MUTATORS['list'] | MUTATORS['dict'] | MUTATORS['set']:
            if name in ('add',):
                f.put_elem(recv, a0, env)
            return TOP
        return TOP
    return TOP

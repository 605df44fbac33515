"""
Whole-program dataflow analysis.

Every function is abstractly interpreted for each abstract calling context (types, shapes and small constants of the
arguments).  A value is described by its possible types, the access paths it may alias (rooted at a parameter,
at a module-level variable or at an allocation site), constants, flags (unordered, inexact, big) and the functions
and classes it may be.  The result of a function is a summary: returned value, objects changed in place, references
stored, exceptions, effects on the outside world.  Summaries are applied at call sites until nothing changes.

No code of the library is executed.
"""
import ast
import collections
import builtins

from .model import Program, FuncInfo, ClassInfo
from .program import AnalysisError
from .typestate import join_must, TS, START, StateMixin, join_ts, initialiser_closure, field_dependences

MAX_DEPTH = 5
MAX_CONST = 48

UNORDERED = 'unordered'
INEXACT = 'inexact'
BIG = 'big'
NP = 'fixed'        # fixed-width integer of numpy

IMMUTABLE = {'int', 'bool', 'float', 'str', 'none', 'range', 'slice', 'bytes', 'Fraction', 'func', 'class', 'module',
             'ext', 'exc', 'complex', 'type', 'ellipsis'}
MUTABLE = {'list', 'dict', 'set', 'ndarray', 'top', 'bytearray'}
NUMERIC = {'int', 'bool', 'float', 'Fraction', 'complex'}

E0 = frozenset()


class Mask:
    """Flags of some kinds, with the tags saying where they come from (`unordered@place`)."""

    def __init__(self, *kinds):
        self.kinds = kinds

    def has(self, x):
        return x.split('@', 1)[0] in self.kinds

    def __rand__(self, fl):
        return frozenset(x for x in fl if self.has(x))

    def __rsub__(self, fl):
        return frozenset(x for x in fl if not self.has(x))


M_U = Mask(UNORDERED)
M_I = Mask(INEXACT)
M_UI = Mask(UNORDERED, INEXACT)
M_NP = Mask(NP)


def strip_wrap(fl):
    """Without the inexactness that comes from the overflow of fixed-width integers."""
    rest = frozenset(x for x in fl if not (x.startswith(INEXACT + '@') and ': fixed-width' in x))
    if rest != fl and not any(x.startswith(INEXACT + '@') for x in rest):
        rest = rest - {INEXACT}
    return rest


class AV:
    """Abstract value."""
    __slots__ = ('t', 'p', 'c', 'fl', 'fn', '_h')

    def __init__(self, t=E0, p=E0, c=None, fl=E0, fn=E0):
        self.t, self.p, self.c, self.fl, self.fn = t, p, c, fl, fn
        self._h = None

    def __eq__(self, o):
        return self is o or (isinstance(o, AV) and self.t == o.t and self.p == o.p and self.c == o.c
                             and self.fl == o.fl and self.fn == o.fn)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.p, self.c, self.fl, self.fn))
        return self._h

    def __repr__(self):
        return f'AV({"|".join(sorted(self.t))} p={set(self.p)} c={self.c if self.c is None else set(self.c)} {set(self.fl) or ""})'

    def withflags(self, fl):
        if fl <= self.fl:
            return self
        return AV(self.t, self.p, self.c, self.fl | fl, self.fn)


BOT = AV(c=E0)


def join(a, b):
    if a is b or b is BOT:
        return a
    if a is BOT:
        return b
    if a == b:
        return a
    if not a.t and not a.fl and not a.p:
        return b
    if not b.t and not b.fl and not b.p:
        return a
    c = None
    if a.c is not None and b.c is not None:
        c = a.c | b.c
        if len(c) > MAX_CONST:
            c = None
    return AV(a.t | b.t, a.p | b.p, c, a.fl | b.fl, a.fn | b.fn)


def joinall(avs):
    r = BOT
    for a in avs:
        r = join(r, a)
    return r


def const(v):
    t = 'none' if v is None else type(v).__name__
    fl = frozenset([BIG]) if t == 'int' and abs(v) >= 2 ** 31 else E0
    return AV(frozenset([t]), E0, frozenset([(t, v)]), fl)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def prim(*types, fl=E0):
    return AV(frozenset(types), E0, None, fl)


BOOL = AV(frozenset(['bool']), E0, frozenset([('bool', True), ('bool', False)]))
INT = prim('int')
BIGINT = prim('int', fl=frozenset([BIG]))
STR = prim('str')
FLOAT = prim('float')
TOP = prim('top', fl=frozenset([BIG]))


class Shape:
    """Types of a value and of its contents, without identities."""
    __slots__ = ('t', 'fl', 'elem', 'key', 'idx', '_h')

    def __init__(self, t, fl=E0, elem=None, key=None, idx=()):
        self.t, self.fl, self.elem, self.key, self.idx = t, fl, elem, key, idx
        self._h = None

    def tup(self):
        return (self.t, self.fl, self.elem, self.key, self.idx)

    def __eq__(self, o):
        return self is o or (isinstance(o, Shape) and self.tup() == o.tup())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.tup())
        return self._h

    def __repr__(self):
        s = '|'.join(sorted(self.t))
        if self.elem:
            s += f'[{self.elem}]'
        if self.fl:
            s += '!' + ','.join(sorted(self.fl))
        return s


TOPSHAPE = Shape(frozenset(['top']), frozenset([BIG]))


def join_shape(a, b):
    if a is None or a is b:
        return b
    if b is None:
        return a
    if a == b:
        return a
    idx = {}
    if a.idx and b.idx and len(a.idx) == len(b.idx):
        idx = {k: join_shape(dict(a.idx).get(k), dict(b.idx).get(k)) for k in dict(a.idx)}
    return Shape(a.t | b.t, a.fl | b.fl, join_shape(a.elem, b.elem), join_shape(a.key, b.key), tuple(sorted(idx.items(), key=lambda x: x[0])))


def limit_shape(s, depth):
    if s is None:
        return None
    if depth == 0:
        if s.elem or s.key or s.idx:
            return Shape(s.t, s.fl)
        return s
    return Shape(s.t, s.fl, limit_shape(s.elem, depth - 1), limit_shape(s.key, depth - 1),
                 tuple((k, limit_shape(v, depth - 1)) for k, v in s.idx))


class Closure:
    __slots__ = ('node', 'frame', 'fi', 'env')

    def __init__(self, node, frame, env):
        self.node, self.frame, self.env = node, frame, env
        self.fi = FuncInfo(frame.fi.module, node, frame.fi.qual + '.' + getattr(node, 'name', '<lambda>'))


class Summary:
    def __init__(self):
        self.ret = BOT              # BOT: never returns normally
        self.heap = {}              # contents of allocation sites reachable from ret / stores
        self.effects = {}           # (path, kind, detail) -> call chain
        self.stores = {}            # (path, step) -> AV
        self.raises = {}            # exception qual -> call chain
        self.ext = {}               # (kind, detail) -> call chain
        self.reads = frozenset()    # (path, field) of objects given as arguments
        self.ts = None              # typestate facts when it returns
        self.late = {}              # (parameter, exception, arguments it depends on) -> call chain
        self.needs = {}             # (path, class, field) read without having been assigned before -> call chain
        self.ts_if = {}             # outcome (True/False) -> facts that hold when such a value is returned
        self.done = False

    def fingerprint(self):
        return (self.ret, frozenset((k, s, v) for k, d in self.heap.items() for s, v in d.items()),
                frozenset(self.effects), frozenset(self.stores.items()), frozenset(self.raises), frozenset(self.ext),
                self.reads, self.ts, frozenset(self.late), frozenset(self.needs), frozenset(self.ts_if.items()))


MUTATORS = {
    'list': {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__', '__iadd__'},
    'dict': {'pop', 'popitem', 'clear', 'update', 'setdefault', '__setitem__', '__delitem__', 'put', 'forceput', 'putall', 'forceupdate', 'move_to_end'},
    'set': {'add', 'discard', 'remove', 'pop', 'clear', 'update', 'difference_update', 'intersection_update', 'symmetric_difference_update'},
    'ndarray': {'sort', 'fill', 'put', 'resize', 'itemset', 'partition', 'setfield', 'setflags', 'byteswap'},
    'bytearray': {'append', 'extend'},
}
ALL_MUTATORS = set().union(*MUTATORS.values())


def picks_one(s):
    """The loop does something only for the element (or key) that equals a given value."""
    if len(s.body) != 1 or not isinstance(s.body[0], ast.If) or s.body[0].orelse or s.orelse:
        return False
    if isinstance(s.target, ast.Name):
        key = s.target.id
    elif isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) and isinstance(s.iter, ast.Call) \
            and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr == 'items':
        key = s.target.elts[0].id
    else:
        return False
    bound = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
    test = s.body[0].test
    for t in test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]:
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq):
            for a, b in ((t.left, t.comparators[0]), (t.comparators[0], t.left)):
                if isinstance(a, ast.Name) and a.id == key and not any(isinstance(n, ast.Name) and n.id in bound for n in ast.walk(b)):
                    return True
    return False


def drained(s):
    """The collection a loop visits element by element without being a for loop over it, and the expressions that fetch the element."""
    inner = [n for b in s.body for n in ast.walk(b)]
    breaks = [n for n in inner if isinstance(n, ast.Break)]

    def fetches(name, key=None):
        """name.pop() or, with a running index, name[key]"""
        text = ast.dump(name)
        if key is None:
            return [n for n in inner if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                    and n.func.attr in ('pop', 'popitem', 'popleft') and ast.dump(n.func.value) == text]
        return [n for n in inner if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and ast.dump(n.value) == text
                and isinstance(n.slice, ast.Name) and n.slice.id == key]

    def length_of(e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('len', 'bool') and len(e.args) == 1 \
                and isinstance(e.args[0], (ast.Name, ast.Attribute)):
            return e.args[0]

    if isinstance(s, ast.For):
        e = s.iter
        if breaks or not isinstance(s.target, ast.Name) or not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'range' and len(e.args) == 1):
            return None, ()
        name = length_of(e.args[0])
        found = fetches(name, s.target.id) if name is not None else []
        return (name, found) if found else (None, ())

    t = s.test
    nexts = [n for n in inner + list(ast.walk(t)) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'next' and n.args
             and isinstance(n.args[0], ast.Name)]
    if len(nexts) == 1:
        stops = {id(x) for n in inner if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Name) and n.type.id == 'StopIteration' for x in ast.walk(n)}
        if all(id(n) in stops for n in breaks):
            return nexts[0].args[0], nexts
    if breaks:
        return None, ()
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        for k, n in ((t.left, t.comparators[0]), (t.comparators[0], t.left)):
            name = length_of(n)
            if isinstance(k, ast.Name) and name is not None:
                found = fetches(name, k.id)
                return (name, found) if found else (None, ())
        if isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value in (0, 1):
            t = t.left
    t = length_of(t) or t
    if not isinstance(t, (ast.Name, ast.Attribute)):
        return None, ()
    found = fetches(t)
    return (t, found) if len(found) == 1 else (None, ())


class Engine:
    def __init__(self, program=None, max_rounds=8):
        self.shuffled = set()       # fields whose order of entries counts as accidental
        self.opaque = set()         # (class name, attribute): properties whose own reads do not count
        self.prog = program or Program()
        self.summaries = {}
        self.contexts = {}             # FuncInfo -> list of keys
        self.in_progress = set()
        self.serial = 0
        self.words = None
        self.judged = {}
        self.field_shapes = {}         # class qual -> field -> Shape
        self.field_owner = {}
        self.events = {}
        self.sinks = {}
        self.raise_facts = {}          # (exception, function, place) -> facts that hold there
        self.changed = False
        self.parents = {}
        self.stats = dict(calls=0, unresolved=0, resolved=0)
        self.guard_cache = {}
        self.loop_members = {}
        self.max_rounds = max_rounds
        self.analysed_functions = set()
        self.global_cache = {}
        self.object_details = False    # keep constant fields in contexts, and the constructor arguments of objects
        self.cache_reads = {}          # FuncInfo of a cached property -> fields of the object it reads
        self._initialisers, self._derived = {}, {}

    # -- classes ----------------------------------------------------------------------------------------------------
    def cls(self, t):
        return self.prog.classes.get(t[2:])

    def record_field(self, cls, field, shape):
        d = self.field_shapes.setdefault(cls.qual, {})
        new = join_shape(d.get(field), shape)
        if new != d.get(field):
            d[field] = new
            self.changed = True
        self.field_owner.setdefault(field, set()).add(cls.qual)

    def field_shape(self, cls, field):
        res = None
        for c in cls.mro():
            d = self.field_shapes.get(c.qual, {})
            res = join_shape(res, d.get(field))
            if '?' in d and self.is_word(field):
                res = join_shape(res, d['?'])
        return res

    def is_word(self, field):
        """Does the name of the field occur as a string, so that it can be computed?"""
        if self.words is None:
            self.words = {n.value for m in self.prog.modules.values() for n in ast.walk(m.tree)
                          if isinstance(n, ast.Constant) and isinstance(n.value, str)}
        return field in self.words or field.lstrip('_') in self.words

    def has_field(self, cls, field):
        return any(field in d or '?' in d and self.is_word(field) for d in (self.field_shapes.get(c.qual, {}) for c in cls.mro()))

    # -- dependences between fields ---------------------------------------------------------------------------------
    def initialisers(self, cls):
        if cls not in self._initialisers:
            self._initialisers[cls] = initialiser_closure(cls)
        return self._initialisers[cls]

    def derived_fields(self, cls):
        if cls not in self._derived:
            self._derived[cls] = field_dependences(cls, self.initialisers(cls))
        return self._derived[cls]

    def cached_dependents(self, cls, field):
        """Cached properties of the class that read the field."""
        return sorted(n for n, m in cls.all_members().items() if isinstance(m, FuncInfo) and m.kind == 'cached'
                      and field in self.cache_reads.get(m, ()))

    def next_serial(self):
        self.serial += 1
        return self.serial

    def event(self, kind, fi, node, detail, chain=()):
        key = (kind, fi.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), detail)
        if key not in self.events:
            self.events[key] = (fi, node, tuple(chain))

    def sink(self, kind, fi, node, fl):
        """A flagged value is used where it decides something."""
        for x in fl:
            if '@' in x:
                self.sinks.setdefault(x, {}).setdefault((kind, fi.qual, fi.where(node)), node)

    # -- contexts ---------------------------------------------------------------------------------------------------
    def summary(self, fi, args, shapes, fresh_self, chain):
        """`args`: dict param -> (Shape, consts, fns)."""
        key = (fi, tuple(sorted(shapes.items(), key=lambda kv: kv[0])), fresh_self)
        lst = self.contexts.setdefault(fi, {})
        if key not in lst and len(lst) > 30:
            # widen: forget constants other than None/bool, and deep shapes
            def widen(v):
                sh, c, fn = v
                if c is not None and not all(x[0] in ('none', 'bool') for x in c):
                    c = None
                if len(lst) > 60:
                    sh = limit_shape(sh, 1)
                if len(lst) > 90:
                    sh = limit_shape(sh, 0)
                if len(lst) > 600:
                    fn = E0
                    if c is not None and not all(x[0] == 'none' for x in c):
                        c = None
                return (sh, c, fn)
            shapes = {k: widen(v) for k, v in shapes.items()}
            key = (fi, tuple(sorted(shapes.items(), key=lambda kv: kv[0])), fresh_self)
        lst[key] = True
        s = self.summaries.get(key)
        if s is None:
            s = self.summaries[key] = Summary()
            self.changed = True
        if key in self.in_progress or key in self.fresh_round:
            return s
        self.in_progress.add(key)
        try:
            fr = Frame(self, fi, shapes, fresh_self)
            fr.run()
            new = fr.finish()
            if new.fingerprint() != s.fingerprint():
                self.changed = True
            if fi.kind == 'cached':
                got = frozenset(f for path, f in new.reads if path == (('p', 'self'), ()))
                if not got <= self.cache_reads.get(fi, frozenset()):
                    self.cache_reads[fi] = self.cache_reads.get(fi, frozenset()) | got
                    self.changed = True
            self.summaries[key] = new
        finally:
            self.in_progress.discard(key)
        self.fresh_round.add(key)
        self.analysed_functions.add(fi)
        return self.summaries[key]

    def run_roots(self, roots):
        """`roots`: list of (FuncInfo, shapes, fresh_self). Iterates to a fixpoint and returns the summaries."""
        for rnd in range(self.max_rounds):
            self.changed = False
            self.contexts = {}
            self.fresh_round = set()
            self.events = {}
            self.judged = {}
            self.sinks = {}
            self.raise_facts = {}
            out = []
            for fi, shapes, fresh in roots:
                out.append(self.summary(fi, None, dict(shapes), fresh, ()))
            self.rounds = rnd + 1
            if not self.changed:
                for (_, kind, node, detail), (fi, bad) in self.judged.items():
                    if bad:
                        self.event(kind, fi, node, detail)
                return out
        raise AnalysisError(f'no fixpoint after {self.max_rounds} rounds')


def loops_around(func_node):
    """id(node) -> set of ids of the loops (and comprehensions) around the node, for one function."""
    res = {}

    def walk(n, loops):
        res[id(n)] = loops
        if isinstance(n, (ast.For, ast.AsyncFor)):
            walk(n.target, loops)
            walk(n.iter, loops)
            inner = loops | {id(n)}
            for s in n.body:
                walk(s, inner)
            for s in n.orelse:
                walk(s, loops)
            return
        if isinstance(n, ast.While):
            inner = loops | {id(n)}
            for ch in ast.iter_child_nodes(n):
                walk(ch, inner)
            return
        for ch in ast.iter_child_nodes(n):
            walk(ch, loops)
    walk(func_node, frozenset())
    return res


NOT_CALLABLE = {'int', 'bool', 'float', 'str', 'none', 'list', 'tuple', 'set', 'frozenset', 'dict', 'Fraction', 'range', 'ndarray'}


class Frame(StateMixin):
    """Abstract interpretation of one function in one context."""

    def __init__(self, eng, fi, shapes, fresh_self):
        self.eng = eng
        self.serial = eng.next_serial()
        self.prog = eng.prog
        self.fi = fi
        self.mod = fi.module
        self.shapes = shapes
        self.fresh_self = fresh_self
        self.heap = {}
        self.effects = {}
        self.stores = {}
        self.ext = {}
        self.raise_stack = [{}]
        self.late_stack = [{}]
        self.reads = set()
        self.needs = {}
        self.dynamic = set()          # objects whose attributes are set by computed names
        self.ret_if = {}
        self.call_if = {}
        self.ret = BOT
        self.ret_env = None
        self.yields = BOT
        self.shape_cache = {}
        self.ubase = 0
        self.uloops = []                # ids of surrounding loops over unordered collections
        self.taking = set()             # calls that take the next element of a collection emptied by a loop
        self.loops = []                 # (break envs, continue envs)
        if fi not in eng.loop_members:
            eng.loop_members[fi] = loops_around(fi.node)
        self.node_loops = eng.loop_members[fi]
        self.globals_declared = set()
        self.site_nodes = {}
        self.closure_depth = 0
        self.locals = None

    # -- entry ------------------------------------------------------------------------------------------------------
    def run(self):
        env = {'$': START}
        for i, name in enumerate(self.fi.all_params):
            sh, c, fn = self.shapes.get(name, (TOPSHAPE, None, E0))
            for f in fn:
                if f[0] == 'fconst':
                    env[((('p', name), ()), f[1])] = const(f[2][1])
            env[name] = self.av_from_shape(sh, (('p', name), ()), c, frozenset(f for f in fn if f[0] != 'fconst'))
        body = self.fi.node.body
        if isinstance(self.fi.node, ast.Lambda):
            v = self.eval(self.fi.node.body, env)
            self.do_return(v, env)
            return
        out = self.block(body, env)
        if out is not None:
            self.do_return(NONE, out)

    def do_return(self, v, env):
        if '$' in env and not self.closure_depth:
            must = frozenset(f for f in env['$'].must if f[0] in ('def', 'has', 'eq', 'ne'))
            for b in self.truth(v, env):
                self.ret_if[b] = join_must(must, self.ret_if[b]) if b in self.ret_if else must
        self.ret = join(self.ret, self.settle(v, env))
        self.ret_env = dict(env) if self.ret_env is None else self.join_env(self.ret_env, env)

    def settle(self, v, env):
        return v

    def finish(self):
        s = Summary()
        ret = self.ret
        env = self.ret_env or {}
        # flow-sensitive contents go back to the heap for export
        for k, v in env.items():
            if isinstance(k, tuple) and k[1] != '!one':
                path, step = k
                d = self.heap.setdefault(path, {})
                d[step] = join(d.get(step, BOT), v) if step != '!fl' else v
        if self.fi.is_generator:
            it = self.alloc(self.fi.node, 'iter', {}, tag='gen')
            self.heap_put(next(iter(it.p)), '[]', self.yields)
            ret = it
        s.ret = ret
        s.reads = frozenset(self.reads)
        s.ts = env.get('$') if self.ret_env is not None else None
        anything = frozenset((k, p, '*') for p in self.dynamic if p[0][0] == 'p' for k in ('def', 'has'))
        if anything and s.ts is not None:
            s.ts = TS(s.ts.must | anything, s.ts.may)
            self.ret_if = {b: fs | anything for b, fs in self.ret_if.items()}
            self.needs = {k: v for k, v in self.needs.items() if k[0] not in self.dynamic}
        s.late = dict(self.late_stack[0])
        s.needs = dict(self.needs)
        s.ts_if = dict(self.ret_if) if len(set(self.ret_if.values())) > 1 else {}
        s.effects = dict(self.effects)
        s.ext = dict(self.ext)
        s.raises = dict(self.raise_stack[0])
        s.stores = {}
        todo = list(ret.p)
        for path, d in self.heap.items():
            if path[0][0] != 'a':
                for step, v in d.items():
                    if v is BOT:
                        continue
                    s.stores[(path, step)] = v
                    todo += list(v.p)
        seen = set()
        while todo:
            path = todo.pop()
            if path in seen or path[0][0] != 'a':
                continue
            seen.add(path)
            d = self.heap.get(path, {})
            s.heap[path] = dict(d)
            for v in d.values():
                todo += list(v.p)
        return s

    # -- shapes -----------------------------------------------------------------------------------------------------
    def av_from_shape(self, sh, path, c=None, fn=E0):
        if sh is None:
            return BOT
        p = E0
        if not (sh.t <= IMMUTABLE):
            p = frozenset([path])
        return AV(sh.t, p, c, sh.fl - M_U if p else sh.fl, fn) if UNORDERED not in sh.fl else AV(sh.t, p, c, sh.fl, fn)

    def shape_at(self, path):
        if path in self.shape_cache:
            return self.shape_cache[path]
        root, steps = path
        if not steps:
            if root[0] == 'p':
                sh = self.shapes.get(root[1], (TOPSHAPE, None, E0))[0]
            elif root[0] == 'g':
                sh = self.global_shape(root)
            else:
                sh = None
        else:
            sh = self.child_shape(self.shape_at((root, steps[:-1])), steps[-1])
        self.shape_cache[path] = sh
        return sh

    def child_shape(self, sh, step):
        if sh is None:
            return TOPSHAPE
        eng = self.eng
        if step.startswith("'") and 'top' not in sh.t:
            for k, v in sh.idx:
                if k == step:
                    return v
        if step == '[]' or step.startswith("'"):
            res = sh.elem
            if 'top' in sh.t:
                res = join_shape(res, TOPSHAPE)
            return res or TOPSHAPE
        if step == '<k>':
            return sh.key or TOPSHAPE
        if step.startswith('#'):
            for k, v in sh.idx:
                if k == step:
                    return v
            return sh.elem or TOPSHAPE
        res = None
        for t in sh.t:
            if t.startswith('C:'):
                c = eng.cls(t)
                res = join_shape(res, eng.field_shape(c, step))
                if step.startswith('@'):
                    m = c.lookup(step[1:])
                    res = join_shape(res, eng.field_shapes.get(c.qual, {}).get(step))
        if 'top' in sh.t:
            for q in eng.field_owner.get(step, ()):
                res = join_shape(res, eng.field_shapes[q].get(step))
            if res is None:
                res = TOPSHAPE
        return res

    def shape_of(self, av, env, depth=3, seen=()):
        """Shape of an abstract value, for contexts and for field types."""
        if av is BOT:
            return Shape(E0)
        fl = av.fl | self.container_flags(av, env)
        if depth == 0 or av.t <= IMMUTABLE or not av.p:
            return Shape(av.t, fl)
        elem = key = None
        idx = {}
        first = True
        for path in av.p:
            if path in seen:
                continue
            if path[0][0] == 'a':
                d = self.heap.get(path, {})
                e = d.get('[]')
                k = d.get('<k>')
                e2 = env.get((path, '[]'))
                if e2 is not None:
                    e = join(e or BOT, e2)
                if e is not None and e is not BOT:
                    elem = join_shape(elem, self.shape_of(e, env, depth - 1, seen + (path,)))
                if k is not None and k is not BOT:
                    key = join_shape(key, self.shape_of(k, env, depth - 1, seen + (path,)))
                here = {s: self.shape_of(v, env, depth - 1, seen + (path,)) for s, v in d.items() if s[0] in "#'" and v is not BOT}
                if first:
                    idx = here
                elif set(idx) == set(here):
                    idx = {s: join_shape(idx[s], here[s]) for s in idx}
                else:
                    idx = {}
                first = False
            else:
                sh = limit_shape(self.shape_at(path), depth)
                if sh is not None:
                    elem = join_shape(elem, sh.elem)
                    key = join_shape(key, sh.key)
                d = self.heap.get(path, {})
                if '[]' in d:
                    elem = join_shape(elem, self.shape_of(d['[]'], env, depth - 1, seen + (path,)))
                if '<k>' in d:
                    key = join_shape(key, self.shape_of(d['<k>'], env, depth - 1, seen + (path,)))
                idx = {} if not first and idx else dict(sh.idx) if sh is not None and first else {}
                first = False
        return Shape(av.t, fl, elem, key, tuple(sorted(idx.items(), key=lambda x: x[0])))

    def global_shape(self, root):
        av = self.global_value(root[1], root[2])
        return av[1]

    def global_value(self, mod, name):
        key = (mod, name)
        if key in self.eng.global_cache:
            return self.eng.global_cache[key]
        self.eng.global_cache[key] = (TOP, TOPSHAPE)
        expr = self.prog.globals.get(key)
        if expr is not None:
            m = self.prog.src.get(mod)
            fake = ast.parse('def _module_(): pass').body[0]
            fr = Frame(self.eng, FuncInfo(m, fake, mod + '.<module>'), {}, False)
            env = {}
            v = fr.eval(expr, env)
            sh = fr.shape_of(v, env)
            self.eng.global_cache[key] = (AV(v.t, E0, v.c, v.fl, v.fn), sh)
        return self.eng.global_cache[key]

    # -- heap -------------------------------------------------------------------------------------------------------
    def alloc(self, node, typ, content, tag='', fl=E0, env=None):
        site = (self.fi.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), type(node).__name__ + tag)
        self.site_nodes[site] = node
        path = (('a', site), ())
        d = self.heap.setdefault(path, {})
        d['!t'] = join(d.get('!t', BOT), AV(frozenset([typ])))
        for k, v in content.items():
            d[k] = join(d.get(k, BOT), v)
        if env is not None:
            if fl:
                env[(path, '!fl')] = AV(E0, E0, E0, frozenset(fl))
            else:
                env.pop((path, '!fl'), None)
                for k in [k for k in env if isinstance(k, tuple) and k[0] == path]:
                    del env[k]
        return AV(frozenset([typ]), frozenset([path]), None, frozenset(fl) if env is None else E0)

    def new_array(self, node, env, scalar, rows, tag='', fl=E0):
        """A numpy array with the given entries; `rows` if it may have more than one dimension."""
        r = self.alloc(node, 'ndarray', {'[]': scalar}, tag=tag, fl=fl, env=env)
        if rows:
            for p in r.p:
                self.heap_put(p, '[]', AV(frozenset(['ndarray']), r.p))
        return r

    def has_rows(self, av, env):
        """May the value be a sequence of sequences?"""
        if 'top' in av.t:
            return True
        if not av.t & {'list', 'tuple', 'ndarray', 'iter', 'set'}:
            return False
        el = BOT
        for p in self.paths(av, 'list', 'tuple', 'ndarray', 'iter', 'set'):
            el = join(el, self.read(p, '[]', env))
        return bool(el.t & {'ndarray', 'list', 'tuple', 'top', 'iter'}) or any(t.startswith('C:') for t in el.t)

    def paths(self, av, *types):
        """The paths of a value that may be objects of one of the types."""
        if len(av.t) <= 1 or not av.p:
            return av.p
        return frozenset(p for p in av.p if self.path_may_be(p, types))

    def path_may_be(self, path, types):
        if path[0][0] == 'a' and not path[1]:
            d = self.heap.get(path)
            known = d.get('!t') if d else None
            if known is None:
                return True
            t = known.t
        else:
            sh = self.shape_at(path)
            if sh is None or not sh.t:
                return True
            t = sh.t
        return 'top' in t or any(x in t for x in types)

    def only(self, av, t):
        """The part of a value with one type."""
        return AV(frozenset([t]), self.paths(av, t), None, av.fl)

    def heap_put(self, path, step, v):
        d = self.heap.setdefault(path, {})
        d[step] = join(d.get(step, BOT), v)

    def read(self, path, step, env):
        k = (path, step)
        if k in env:
            return env[k]
        d = self.heap.get(path, {})
        over = d.get(step)
        root, steps = path
        if root[0] == 'a':
            if over is None and (step.startswith('#') or step.startswith("'")):
                over = d.get('[]')
            return over if over is not None else BOT
        if root[0] == 'p' and root[1] == 'self' and not steps and self.fresh_self:
            return over if over is not None else BOT
        if len(steps) >= MAX_DEPTH:
            sh = self.shape_at(path)
            base = AV(frozenset(['top']) if sh is None else self.child_shape(sh, step).t if self.child_shape(sh, step) else frozenset(['top']),
                      frozenset([path]), None, frozenset([BIG]))
        else:
            child = (root, steps + (step,))
            sh = self.shape_at(child)
            if sh is None:
                return over if over is not None else BOT
            base = self.av_from_shape(sh, child)
        return join(base, over) if over is not None else base

    def container_flags(self, av, env):
        fl = E0
        for path in av.p:
            v = env.get((path, '!fl'))
            if v is None:
                v = self.heap.get(path, {}).get('!fl')
            if v is not None:
                fl = fl | v.fl
            if path[0][0] != 'a':
                sh = self.shape_at(path)
                if sh is not None and UNORDERED in sh.fl and (path, '!fl') not in env:
                    fl = fl | (sh.fl & M_U)
                if self.eng.shuffled:
                    root, steps = path
                    for x in (steps[-1] if steps else None, (self.fi.qual, root[1])):
                        if x in self.eng.shuffled and (path, '!fl') not in env:
                            fl = fl | frozenset([UNORDERED, f'{UNORDERED}@{x if isinstance(x, str) else x[1]}'])
        return fl

    def flags(self, av, env):
        return av.fl | self.container_flags(av, env)

    def set_container_flag(self, av, fl, env, strong=False):
        for path in av.p:
            if strong and len(av.p) == 1:
                env[(path, '!fl')] = AV(E0, E0, E0, frozenset(fl))
            else:
                old = env.get((path, '!fl'))
                if old is None:
                    old = self.heap.get(path, {}).get('!fl', BOT)
                env[(path, '!fl')] = AV(E0, E0, E0, old.fl | fl)

    def is_unordered(self, av, env):
        return bool(av.t & {'set', 'frozenset'}) and not self.at_most_one(av, env, 'set', 'frozenset') or UNORDERED in self.flags(av, env)

    def origin(self, kind, node, what=''):
        return frozenset([kind, f'{kind}@{self.fi.where(node if node is not None else self.fi.node)} {self.fi.qual.replace("discretehelpers.", "")}{": " if what else ""}{what}'])

    def uflags(self, av, env, node):
        """Flags saying that the order of the value is accidental (empty: it is not)."""
        fl = self.flags(av, env) & M_U
        if av.t & {'set', 'frozenset'} and not self.at_most_one(av, env, 'set', 'frozenset'):
            fl = fl | self.origin(UNORDERED, node, 'order of a set')
        return fl

    def loop_flags(self):
        fl = E0
        for _, f in self.uloops:
            fl = fl | f
        return fl

    def mutate(self, av, node, kind, detail, env):
        if not (av.t & MUTABLE) and not any(t.startswith('C:') for t in av.t) and av.t:
            return
        for path in av.p:
            if path[0][0] == 'a':
                continue
            key = (path, kind, detail)
            if key not in self.effects:
                self.effects[key] = ((self.fi.qual, self.fi.where(node), kind, detail),)
            if kind == 'setattr' and detail == '?':
                self.dynamic.add(path)
            elif path[1] and path[1][-1] == '__dict__':
                self.dynamic.add((path[0], path[1][:-1]))
            self.mutated(path, env, node, detail)

    def note_order(self, av, node, env):
        """A sequence or dict grows inside a loop over an unordered collection."""
        if not self.uloops:
            return
        for path in av.p:
            root = path[0]
            inside = E0
            if root[0] == 'a':
                n = self.site_nodes.get(root[1])
                if n is not None:
                    inside = self.node_loops.get(id(n), E0)
            outer = [f for u, f in self.uloops if u not in inside]
            if outer:
                old = env.get((path, '!fl')) or self.heap.get(path, {}).get('!fl', BOT)
                env[(path, '!fl')] = AV(E0, E0, E0, old.fl.union(*outer))

    def put_elem(self, av, v, env, key=None):
        self.forget_one(av.p, env)
        for path in av.p:
            self.heap_put(path, '[]', v)
            if (path, '[]') in env:
                env[(path, '[]')] = join(env[(path, '[]')], v)
            if key is not None:
                self.heap_put(path, '<k>', key)
                if key.c is not None and len(key.c) <= 12:
                    for t, x in key.c:
                        if t == 'str':
                            self.heap_put(path, f"'{x}'", v)
                elif 'str' in key.t or 'top' in key.t:
                    for st in [st for st in self.heap.get(path, ()) if st[0] == "'"]:
                        self.heap_put(path, st, v)

    def elem(self, av, env, node=None):
        """What iterating over the value yields."""
        res = BOT
        t = av.t
        if 'str' in t:
            res = join(res, STR)
        if 'range' in t:
            res = join(res, INT)
        if 'bytes' in t:
            res = join(res, INT)
        if t & {'list', 'tuple', 'set', 'frozenset', 'iter', 'top'}:
            for path in self.paths(av, 'list', 'tuple', 'set', 'frozenset', 'iter', 'top'):
                res = join(res, self.read(path, '[]', env))
            if not av.p and 'top' in t:
                res = join(res, TOP)
        if 'dict' in t:
            for path in self.paths(av, 'dict'):
                res = join(res, self.read(path, '<k>', env))
        if 'ndarray' in t:
            r = BOT
            ps = self.paths(av, 'ndarray')
            for path in ps:
                r = join(r, self.read(path, '[]', env))
            if not r.t:
                r = INT
            if r.t & {'ndarray', 'list', 'tuple', 'top'}:
                res = join(res, AV(frozenset(['ndarray']), ps))       # a row is a view
            scalar = r.t & {'int', 'bool', 'float'}
            others = r.t - {'int', 'bool', 'float', 'ndarray', 'list', 'tuple', 'top'}
            if others:
                res = join(res, AV(others, r.p - ps, None, r.fl))          # an array of objects
            if scalar or 'top' in r.t:
                res = join(res, AV(frozenset(scalar or ['int']), E0, None, r.fl | self.origin(NP, node)))
        for ty in t:
            if ty.startswith('C:'):
                c = self.eng.cls(ty)
                one = AV(frozenset([ty]), self.paths(av, ty))
                m = c.lookup('__iter__')
                if isinstance(m, FuncInfo):
                    res = join(res, self.elem(self.call_func(m, [one], {}, node, env), env, node))
                else:
                    m = c.lookup('__getitem__')
                    if isinstance(m, FuncInfo):
                        res = join(res, self.call_func(m, [one, INT], {}, node, env))
        if INEXACT in av.fl:
            res = res.withflags(av.fl & M_I)
        return res

    # -- environments -------------------------------------------------------------------------------------------------
    def join_env(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in a.keys() | b.keys():
            if k in a and k in b:
                if k == '$':
                    out[k] = join_ts(a[k], b[k])
                    continue
                if isinstance(k, str) and k[0] == '?':
                    out[k] = join(a[k], b[k])
                    continue
                if isinstance(k, tuple) and k[1] == '!one' and a[k] != b[k]:
                    if not a[k].fn or not b[k].fn:
                        out[k] = a[k] if a[k].fn else b[k]
                    elif a[k].fn & b[k].fn:
                        out[k] = AV(E0, E0, E0, E0, a[k].fn & b[k].fn)
                    continue
                out[k] = join(a[k], b[k])
            else:
                v = a.get(k) if k in a else b.get(k)
                if isinstance(k, tuple):
                    if k[1] == '!fl':
                        out[k] = v
                    elif k[1] == '!one':
                        cond = self.discriminate(v, a, b) if k in a else self.discriminate(v, b, a)
                        if cond is not None:
                            out[k] = cond
                    else:
                        other = b if k in a else a
                        out[k] = join(v, self.read(k[0], k[1], other))
                elif k[0] == '?':
                    # "if flag n has that value, then x is v"
                    other = b if k in a else a
                    n, val, x = k[1:].split('?')
                    w = other.get(n)
                    if w is not None and w.c is not None and w.c and all(str(c[1]) != val for c in w.c):
                        out[k] = v
                    elif x in other:
                        out[k] = join(v, other[x])
                else:
                    out[k] = v
        flags = []
        for n, v in a.items():
            if isinstance(n, str) and n[0] not in '?$' and v.c is not None and len(v.c) == 1 and n in b:
                w = b[n]
                if w.c is not None and len(w.c) == 1 and v.c != w.c and {x[0] for x in v.c | w.c} == {'bool'}:
                    flags.append((n, next(iter(v.c))[1], next(iter(w.c))[1]))
        if flags:
            for x, v in a.items():
                if isinstance(x, str) and x[0] not in '?$' and x in b and v.t != b[x].t:
                    for n, va, vb in flags:
                        if n != x:
                            out[f'?{n}?{va}?{x}'] = v
                            out[f'?{n}?{vb}?{x}'] = b[x]
        return out

    def discriminate(self, fact, a, b):
        """A fact that holds in `a` only: keep it for the case that some flag has the value it has in `a`."""
        conds = set()
        if fact.fn:
            # it holds under a condition already: still true if the condition is false in `b`
            for c in fact.fn:
                w = b.get(c[1])
                if w is not None and w.c and c[2] not in w.c:
                    conds.add(c)
            return AV(E0, E0, E0, E0, frozenset(conds)) if conds else None
        for n, v in a.items():
            if isinstance(n, str) and n[0] not in '?$' and v.c is not None and len(v.c) == 1 and n in b:
                w = b[n]
                if w.c is not None and len(w.c) >= 1 and not v.c & w.c and all(x[0] in ('bool', 'none') for x in v.c | w.c):
                    conds.add(('if', n, next(iter(v.c))))
        return AV(E0, E0, E0, E0, frozenset(conds)) if conds else None

    def at_most_one(self, av, env, *types):
        """Is it known that the collection has at most one element?"""
        ps = self.paths(av, *types)
        return bool(ps) and all((p, '!one') in env and not env[(p, '!one')].fn for p in ps)

    def forget_one(self, paths, env):
        for p in paths:
            env.pop((p, '!one'), None)

    def rebound(self, name, env):
        for k in [k for k, v in env.items() if isinstance(k, tuple) and k[1] == '!one' and any(c[1] == name for c in v.fn)]:
            del env[k]
        for k in [k for k in env if isinstance(k, str) and k[0] == '?' and name in k[1:].split('?')[::2]]:
            del env[k]

    def promote(self, name, env):
        v = env.get(name)
        if v is None or v.c is None or len(v.c) != 1:
            return
        c = ('if', name, next(iter(v.c)))
        for k, f in list(env.items()):
            if isinstance(k, tuple) and k[1] == '!one' and c in f.fn:
                env[k] = AV(E0, E0, E0)
        pre = f'?{name}?{next(iter(v.c))[1]}?'
        for k, f in list(env.items()):
            if isinstance(k, str) and k.startswith(pre):
                x = k[len(pre):]
                if x in env and f.t <= env[x].t:
                    env[x] = f

    # -- statements -----------------------------------------------------------------------------------------------
    def block(self, stmts, env):
        for s in stmts:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError(f'{self.fi.where(s)}: statement {type(s).__name__} is not understood')
        return m(s, env)

    def st_Expr(self, s, env):
        v = self.eval(s.value, env)
        if v is BOT and isinstance(s.value, ast.Call) and self.never_returns:
            self.never_returns = False
            return None
        if isinstance(s.value, ast.Call):
            env2 = self.assume_guard(s.value, env)
            if env2 is not None and '$' in env2 and id(s.value) in self.call_if:
                # a step whose outcome is not asked for is taken to succeed
                self.add_must(env2, *self.facts_if(s.value, True))
            return env2
        return env

    never_returns = False

    def st_Pass(self, s, env):
        return env

    def st_Assign(self, s, env):
        if (len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List))
                and len(s.targets[0].elts) == len(s.value.elts)
                and not any(isinstance(e, ast.Starred) for e in s.targets[0].elts + s.value.elts)):
            vals = [self.eval(e, env) for e in s.value.elts]
            if self.dead():
                return None
            for t, v in zip(s.targets[0].elts, vals):
                self.assign(t, v, env, s)
            return env
        v = self.eval(s.value, env)
        if self.dead():
            return None
        for t in s.targets:
            self.assign(t, v, env, s)
        return env

    def dead(self):
        if self.never_returns:
            self.never_returns = False
            return True
        return False

    def st_AnnAssign(self, s, env):
        if s.value is not None:
            v = self.eval(s.value, env)
            if self.dead():
                return None
            self.assign(s.target, v, env, s)
        return env

    def st_AugAssign(self, s, env):
        load = _as_load(s.target)
        cur = self.eval(load, env)
        rhs = self.eval(s.value, env)
        if self.dead():
            return None
        # in place for lists, sets, dicts and arrays
        rt = self.flat_types(rhs)
        inplace = cur.t & {'list', 'set', 'dict', 'ndarray'}
        if 'top' in cur.t and rt <= {'int', 'bool', 'float'}:
            inplace = frozenset()
        if 'top' in cur.t and rt & {'list', 'set', 'dict'} and not rt & {'top', 'int', 'str'}:
            inplace = inplace | {'top'}
        if inplace:
            part = AV(frozenset(inplace), cur.p, None, cur.fl)
            self.mutate(part, s, 'mutate', 'augmented assignment', env)
            if 'list' in inplace or 'top' in inplace or 'set' in inplace:
                self.put_elem(part, self.elem(rhs, env, s), env)
            if 'list' in inplace:
                if self.is_unordered(rhs, env):
                    self.set_container_flag(part, self.uflags(rhs, env, s), env)
                self.note_order(part, s, env)
        rest = cur.t - {'list', 'set', 'dict', 'ndarray'}
        res = BOT
        if inplace:
            res = AV(frozenset(inplace), cur.p, None, cur.fl)
        if rest or not cur.t:
            res = join(res, self.binop(type(s.op), AV(rest, cur.p, cur.c, cur.fl, cur.fn), rhs, s, env))
            if 'str' in rest and self.uloops and isinstance(s.op, ast.Add):
                if self.assigned_before_loops(s.target, env):
                    res = res.withflags(self.loop_flags())
        self.assign(s.target, res, env, s, aug=bool(inplace))
        return env

    def assigned_before_loops(self, target, env):
        return True

    def flat_types(self, av):
        return av.t

    def assign(self, t, v, env, node, aug=False):
        if isinstance(t, ast.Name):
            if t.id in self.globals_declared:
                self.ext.setdefault(('global', f'{self.mod.name}.{t.id}'), ((self.fi.qual, self.fi.where(node), 'writes global', t.id),))
            self.rebound(t.id, env)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    ev = self.elem(v, env, node)
                    self.assign(e.value, self.alloc(e, 'list', {'[]': ev}, env=env), env, node)
                else:
                    self.assign(e, self.index(v, i if star is None or i < star else None, env, node), env, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, node)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, env)
            if not aug:
                self.setattr(obj, t.attr, v, env, node)
            else:
                self.setattr(obj, t.attr, v, env, node, effect=False)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            if aug:
                return
            self.setitem(obj, k, v, env, node)
        else:
            raise AnalysisError(f'{self.fi.where(node)}: assignment target {type(t).__name__}')

    def setitem(self, obj, k, v, env, node):
        self.mutate(obj, node, 'mutate', 'item assignment', env)
        for t in obj.t:
            if t.startswith('C:'):
                m = self.eng.cls(t).lookup('__setitem__')
                if isinstance(m, FuncInfo):
                    self.call_func(m, [AV(frozenset([t]), self.paths(obj, t)), k, v], {}, node, env)
        isslice = k.t == {'slice'}
        val = self.elem(v, env, node) if isslice else v
        if isslice and 'ndarray' in obj.t:
            val = join(val, v)                                             # one value for all entries
        self.put_elem(obj, val, env, key=k if obj.t & {'dict', 'top'} else None)
        if isslice and self.is_unordered(v, env):
            self.set_container_flag(obj, self.uflags(v, env, node), env)
        if 'dict' in obj.t:
            self.note_order(AV(frozenset(['dict']), self.paths(obj, 'dict')), node, env)
        if obj.t & {'list', 'ndarray'}:
            kfl = self.flags(k, env) & M_U
            if 'tuple' in k.t:
                kfl = kfl | (self.elem(k, env).fl & M_U)
            if kfl:
                self.set_container_flag(obj, kfl, env)

    def setattr(self, obj, attr, v, env, node, effect=True):
        for t in obj.t:
            if t.startswith('C:'):
                c = self.eng.cls(t)
                m = c.lookup(attr)
                if isinstance(m, FuncInfo) and m.kind == 'property':
                    if m.setter is not None:
                        self.call_func(m.setter, [AV(frozenset([t]), self.paths(obj, t)), v], {}, node, env)
                    else:
                        self.eng.event('no-setter', self.fi, node, f'{c.name}.{attr}')
                    continue
                if attr == '__dict__':
                    self.copy_dict(obj, v, env, node)
                else:
                    self.eng.record_field(c, attr, self.shape_of(v, env))
                self.write_field(AV(frozenset([t]), self.paths(obj, t)), attr, v, env, node, effect)
        if not any(t.startswith('C:') for t in obj.t):
            if obj.t & {'func', 'class', 'module'}:
                for f in obj.fn:
                    self.ext.setdefault(('global', f'attribute {attr} of {_fname(f)}'),
                                        ((self.fi.qual, self.fi.where(node), 'writes attribute', attr),))
                return
            self.write_field(obj, attr, v, env, node, effect)

    def copy_dict(self, obj, v, env, node):
        """self.__dict__ = other.__dict__.copy()"""
        if not v.p:
            self.dynamic |= obj.p
        for path in v.p:
            src = None
            if path[0][0] == 'a':
                for s, x in self.heap.get(path, {}).items():
                    if s.startswith('~'):
                        src = x
            if src is None:
                self.dynamic |= obj.p
                continue
            for t in src.t:
                if not t.startswith('C:'):
                    continue
                c = self.eng.cls(t)
                for p in obj.p if '$' in env else ():
                    if len(obj.p) == 1 and p[0][0] == 'p':
                        self.add_must(env, ('def', p, '*'))
                        self.add_must(env, ('has', p, '*'))
                for cc in c.mro():
                    for f in list(self.eng.field_shapes.get(cc.qual, {})):
                        if f == '__dict__':
                            continue
                        val = joinall(self.read(p, f, env) for p in src.p)
                        if val is not BOT:
                            for tt in obj.t:
                                if tt.startswith('C:'):
                                    self.eng.record_field(self.eng.cls(tt), f, self.shape_of(val, env))
                            for p in obj.p:
                                self.heap_put(p, f, val)

    def write_field(self, obj, attr, v, env, node, effect=True):
        if effect:
            for path in obj.p:
                if path[0][0] == 'a':
                    continue
                key = (path, 'setattr', attr)
                if key not in self.effects:
                    self.effects[key] = ((self.fi.qual, self.fi.where(node), 'setattr', attr),)
        for path in obj.p:
            if '$' in env:
                self.mutated(path, env, node, 'assigned below')
                self.wrote(path, attr, env, node, 'assigned' if len(obj.p) == 1 and effect else 'augmented assignment')
            if len(obj.p) == 1:
                env[(path, attr)] = v
                self.heap.setdefault(path, {}).setdefault(attr, BOT)
                self.heap_put(path, attr, v)
            else:
                self.heap_put(path, attr, v)
                if (path, attr) in env:
                    env[(path, attr)] = join(env[(path, attr)], v)

    def st_Return(self, s, env):
        v = self.eval(s.value, env) if s.value is not None else NONE
        if self.dead():
            return None
        if len(self.uloops) > self.ubase and s.value is not None and not isinstance(s.value, ast.Constant) \
                and not self.looked_up(s, env):
            if v.c is None or len(v.c) > 1:
                self.eng.event('choice', self.fi, s, 'return inside a loop over an unordered collection')
        self.do_return(v, env)
        return None

    def looked_up(self, s, env):
        """
        Is the statement reached only for the entry that matches a key fixed before the loop (`==` or `in`)?
        The order of the loop does not matter then, because only one entry matches.
        """
        loop_ids = {u for u, _ in self.uloops[self.ubase:]}
        chain = self.parents_of(s)
        loops = [n for n in chain if id(n) in loop_ids]
        if not loops:
            return False
        outer = loops[-1]
        bound = {n.id for n in ast.walk(outer) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        for n in chain[:chain.index(outer)]:
            if not isinstance(n, ast.If) or not any(x is s for b in n.body for x in ast.walk(b)):
                continue
            for t in (n.test.values if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) else [n.test]):
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.In)):
                    sides = [{x.id for x in ast.walk(e) if isinstance(x, ast.Name)} & bound for e in (t.left, t.comparators[0])]
                    if bool(sides[0]) != bool(sides[1]) and not (isinstance(t.ops[0], ast.In) and sides[0]):
                        return True
        return False

    def parents_of(self, node):
        """The surrounding nodes in the function, innermost first."""
        par = self.eng.parents.get(self.fi)
        if par is None:
            par = self.eng.parents[self.fi] = {}
            for n in ast.walk(self.fi.node):
                for c in ast.iter_child_nodes(n):
                    par[id(c)] = n
        out = []
        n = par.get(id(node))
        while n is not None:
            out.append(n)
            n = par.get(id(n))
        return out

    def st_Raise(self, s, env):
        if s.exc is None:
            for x in getattr(self, 'handler_stack', [[]])[-1] if getattr(self, 'handler_stack', None) else []:
                self.raise_(x, s, env=env)
            return None
        v = self.eval(s.exc, env)
        self.never_returns = False
        self.raise_value(v, s, env)
        return None

    def raise_value(self, v, node, env):
        names = set()
        for f in v.fn:
            if f[0] == 'class':
                names.add(f[1].qual)
            elif f[0] == 'ext':
                names.add(f[1])
            elif f[0] == 'excinst':
                names.add(f[1])
        if not names:
            names = {'?'}
        for n in names:
            self.raise_(n, node, env=env)

    def raise_(self, name, node, chain=None, env=None):
        chain = chain or ((self.fi.qual, self.fi.where(node), 'raise', name),)
        self.raise_stack[-1].setdefault(name, chain)
        if env is not None:
            self.exc_after_change(name, env, chain)
            self.note_raise(name, node, env)

    def st_Assert(self, s, env):
        t, f = self.branch(s.test, env)
        if f is not None:
            self.raise_('builtins.AssertionError', s, env=f)
            self.checked(s.test, t)
        return t

    def st_If(self, s, env):
        t, f = self.branch(s.test, env)
        t0, f0 = t, f
        if t is not None:
            t = self.block(s.body, t)
        if f is not None:
            f = self.block(s.orelse, f)
        if t0 is not None and t is None and f is not None and self.only_raises(s.body):
            self.checked(s.test, f)
        if f0 is not None and f is None and t is not None and self.only_raises(s.orelse):
            self.checked(s.test, t)
        return self.join_env(t, f)

    def only_raises(self, stmts):
        """A block that is left by an exception only."""
        return not any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for s in stmts for n in ast.walk(s))

    def st_While(self, s, env):
        entry = env
        emptied, takes = drained(s)
        unordered = None
        if emptied is not None:
            it = self.eval(emptied, dict(env))
            if self.is_unordered(it, env):
                unordered = self.uflags(it, env, s)
                self.uloops.append((id(s), unordered))
                self.taking |= {id(n) for n in takes}
        self.loops.append(([], []))
        out_exit = None
        cur = entry
        for i in range(12):
            t, f = self.branch(s.test, dict(cur))
            out_exit = self.join_env(out_exit, f)
            end = self.block(s.body, t) if t is not None else None
            for c in self.loops[-1][1]:
                end = self.join_env(end, c)
            self.loops[-1][1].clear()
            new = self.widen(cur, self.join_env(dict(cur), end), i)
            if new == cur:
                break
            cur = new
        brk, _ = self.loops.pop()
        if unordered is not None:
            self.uloops.pop()
        if s.orelse and out_exit is not None:
            out_exit = self.block(s.orelse, out_exit)
        for b in brk:
            out_exit = self.join_env(out_exit, b)
        return out_exit

    def widen(self, old, new, i):
        if i < 1:
            return new
        for k, v in new.items():
            if k == '$':
                continue
            o = old.get(k)
            if o is not None and v.c is not None and v.c != o.c and any(x[0] in ('int', 'str', 'float') for x in v.c):
                new[k] = AV(v.t, v.p, None, v.fl, v.fn)
            if len(v.p) > 24:
                new[k] = v
        return new

    def st_For(self, s, env):
        it = self.eval(s.iter, env)
        if self.dead():
            return None
        vals = self.few_constants(it, fields=any(isinstance(n, ast.Name) and n.id in ('setattr', 'delattr') for b in s.body for n in ast.walk(b)))
        if vals is None and isinstance(s.iter, (ast.List, ast.Tuple)) and 1 <= len(s.iter.elts) <= 4 \
                and not any(isinstance(x, ast.Starred) for x in s.iter.elts):
            vals = [self.eval(x, env) for x in s.iter.elts]
        if vals is not None:
            return self.unrolled(s, vals, env)
        unordered = self.is_unordered(it, env) and not picks_one(s)
        if unordered:
            self.uloops.append((id(s), self.uflags(it, env, s)))
        else:
            visited, takes = drained(s)
            if visited is not None:
                seen = self.eval(visited, dict(env))
                if self.is_unordered(seen, env):
                    unordered = True
                    self.uloops.append((id(s), self.uflags(seen, env, s)))
                    self.taking |= {id(n) for n in takes}
        self.loops.append(([], []))
        cur = dict(env)
        for i in range(12):
            body_env = dict(cur)
            el = self.elem(it, body_env, s)
            if unordered and i == 0:
                pass
            self.never_returns = False
            self.assign(s.target, el, body_env, s)
            end = self.block(s.body, body_env)
            for c in self.loops[-1][1]:
                end = self.join_env(end, c)
            self.loops[-1][1].clear()
            new = self.widen(cur, self.join_env(dict(cur), end), i)
            if new == cur:
                break
            cur = new
        brk, _ = self.loops.pop()
        if unordered:
            self.uloops.pop()
        out = cur
        if s.orelse:
            out = self.block(s.orelse, out)
        for b in brk:
            out = self.join_env(out, b)
        return out

    def few_constants(self, it, fields=False):
        """The elements of a short list or tuple of constants.  `fields`: they are names of attributes."""
        if len(it.p) != 1 or not it.t <= {'list', 'tuple'}:
            return None
        p = next(iter(it.p))
        if p[1]:
            return None
        if p[0][0] == 'a':
            n = self.site_nodes.get(p[0][1])
            if not isinstance(n, (ast.List, ast.Tuple)):
                return None
            known = self.heap.get(p, {}).get('[]', BOT).c
        elif p[0][0] == 'g':
            n = self.prog.globals.get((p[0][1], p[0][2]))
            known = None
        else:
            return None
        if not isinstance(n, (ast.List, ast.Tuple)) or not 1 <= len(n.elts) <= (64 if fields else 8) or not all(isinstance(x, ast.Constant) for x in n.elts):
            return None
        vals = [const(x.value) for x in n.elts]
        if known is not None and known != joinall(vals).c:
            return None
        return vals

    def unrolled(self, s, vals, env):
        self.loops.append(([], []))
        cur = dict(env)
        for v in vals:
            self.never_returns = False
            self.assign(s.target, v, cur, s)
            end = self.block(s.body, cur)
            for c in self.loops[-1][1]:
                end = self.join_env(end, c)
            self.loops[-1][1].clear()
            cur = end
            if cur is None:
                break
        brk, _ = self.loops.pop()
        if s.orelse and cur is not None:
            cur = self.block(s.orelse, cur)
        for b in brk:
            cur = self.join_env(cur, b)
        return cur

    def st_Break(self, s, env):
        self.loops[-1][0].append(env)
        return None

    def st_Continue(self, s, env):
        self.loops[-1][1].append(env)
        return None

    def st_Try(self, s, env):
        self.raise_stack.append({})
        self.late_stack.append({})
        exc_env = dict(env)
        cur = dict(env)
        pre = env.get('$')
        for st in s.body:
            if cur is None:
                break
            if pre is not None:
                pre = join_ts(pre, cur['$'])
            cur = self.stmt(st, cur)
            if cur is not None:
                exc_env = self.join_env(exc_env, dict(cur))
        raised = self.raise_stack.pop()
        late = self.late_stack.pop()
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur)
        out = cur
        remaining = dict(raised)
        for h in s.handlers:
            names = self.handler_names(h, env)
            caught = {}
            for x in list(remaining):
                anc = self.prog.exc_ancestors(x) if x != '?' else ['?']
                if names is None or any(n in anc for n in names):
                    caught[x] = remaining.pop(x)
                elif x == '?' and names is not None:
                    caught[x] = remaining[x]
            self.eng.event('handler', self.fi, h, (tuple(sorted(names)) if names else ('*',), tuple(sorted(caught))))
            self.handlers_info = getattr(self.eng, 'handlers', None)
            henv = dict(exc_env)
            if pre is not None:
                gone = {k for k in late if k[1] in caught}
                henv['$'] = TS(pre.must, pre.may | {('w', k[0]) for k in gone})
                for k in gone:
                    if k[1] not in remaining:
                        late.pop(k)
            if h.name:
                henv[h.name] = AV(frozenset(['exc']), E0, None, E0, frozenset(('excinst', x) for x in (caught or names or ())))
            self.handler_stack = getattr(self, 'handler_stack', [])
            self.handler_stack.append(list(caught) or list(names or ()))
            out = self.join_env(out, self.block(h.body, henv))
            self.handler_stack.pop()
        for x, chain in remaining.items():
            self.raise_stack[-1].setdefault(x, chain)
        for k, chain in late.items():
            self.late_stack[-1].setdefault(k, chain)
        if s.finalbody:
            if out is not None:
                out = self.block(s.finalbody, out)
            else:
                self.block(s.finalbody, dict(exc_env))
        return out

    def handler_names(self, h, env):
        if h.type is None:
            return None
        v = self.eval(h.type, dict(env))
        names = set()

        def collect(av):
            for f in av.fn:
                if f[0] == 'class':
                    names.add(f[1].qual)
                elif f[0] == 'ext':
                    names.add(f[1])
        collect(v)
        if 'tuple' in v.t:
            collect(self.elem(v, env))
        if not names:
            return {'?unknown'}
        return names

    def st_With(self, s, env):
        for item in s.items:
            v = self.eval(item.context_expr, env)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env, s)
        return self.block(s.body, env)

    def st_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                obj = self.eval(t.value, env)
                key = self.eval(t.slice, env)
                self.mutate(obj, s, 'mutate', 'del item', env)
                owners = [(p[0], p[1][:-1]) for p in obj.p if p[1] and p[1][-1] == '__dict__']
                if len(owners) == 1 and key.c is not None and len(key.c) == 1:
                    self.cache_emptied(owners[0], {str(next(iter(key.c))[1])}, env)
            elif isinstance(t, ast.Attribute):
                obj = self.eval(t.value, env)
                self.mutate(obj, s, 'delattr', t.attr, env)
                if len(obj.p) == 1:
                    self.cache_emptied(next(iter(obj.p)), {t.attr}, env)
            elif isinstance(t, ast.Name):
                env.pop(t.id, None)
        return env

    def st_Global(self, s, env):
        self.globals_declared |= set(s.names)
        return env

    def st_Nonlocal(self, s, env):
        return env

    def st_Import(self, s, env):
        for al in s.names:
            name = al.name
            if name.split('.')[0] == 'discretehelpers':
                env[al.asname or name.split('.')[0]] = AV(frozenset(['module']), E0, None, E0, frozenset([('module', name if al.asname else name.split('.')[0])]))
            else:
                env[al.asname or name.split('.')[0]] = self.ext_av(name if al.asname else name.split('.')[0])
        return env

    def st_ImportFrom(self, s, env):
        from .program import resolve_relative
        target = resolve_relative(self.mod, s.level, s.module)
        for al in s.names:
            if target.split('.')[0] != 'discretehelpers':
                env[al.asname or al.name] = self.ext_av(f'{target}.{al.name}')
                continue
            ns = self.prog.ns.get(target, {})
            if al.name == '*':
                for n, b in ns.items():
                    if not n.startswith('_'):
                        env[n] = self.binding_av(b, target, n)
            else:
                b = ns.get(al.name)
                env[al.asname or al.name] = self.binding_av(b, target, al.name)
        return env

    def st_FunctionDef(self, s, env):
        env[s.name] = AV(frozenset(['func']), E0, None, E0, frozenset([('closure', self.closure(s, env))]))
        return env

    def closure(self, node, env):
        cache = self.__dict__.setdefault('closures', {})
        if id(node) not in cache:
            cache[id(node)] = Closure(node, self, env)
        c = cache[id(node)]
        c.env = env
        return c

    def st_ClassDef(self, s, env):
        env[s.name] = TOP
        return env

    # -- names --------------------------------------------------------------------------------------------------------
    def ext_av(self, dotted):
        return AV(frozenset(['ext']), E0, None, E0, frozenset([('ext', dotted)]))

    def binding_av(self, b, mod=None, name=None):
        if b is None:
            return TOP
        if b[0] == 'def':
            return AV(frozenset(['func']), E0, None, E0, frozenset([('def', self.prog.binding_to_func(b))]))
        if b[0] == 'class':
            return AV(frozenset(['class']), E0, None, E0, frozenset([('class', self.prog.classes[f'{b[1]}.{b[2]}'])]))
        if b[0] == 'module':
            return AV(frozenset(['module']), E0, None, E0, frozenset([('module', b[1])]))
        if b[0] == 'external':
            return self.ext_av(b[1])
        if b[0] == 'builtin':
            return self.ext_av('builtins.' + b[1])
        if b[0] == 'value' and mod:
            return self.global_av(mod, name)
        return TOP

    def global_av(self, mod, name):
        v, sh = self.global_value(mod, name)
        return AV(v.t, E0 if v.t <= IMMUTABLE else frozenset([(('g', mod, name), ())]), v.c, v.fl, v.fn)

    def ex_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        ns = self.prog.ns.get(self.mod.name, {})
        if e.id in ns:
            b = ns[e.id]
            if b[0] in ('value', 'names'):
                return self.global_av(self.mod.name, e.id)
            return self.binding_av(b, self.mod.name, e.id)
        if hasattr(builtins, e.id):
            return self.ext_av('builtins.' + e.id)
        return TOP

    # -- expressions --------------------------------------------------------------------------------------------------
    def eval(self, e, env):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError(f'{self.fi.where(e)}: expression {type(e).__name__} is not understood')
        return m(e, env)

    def ex_Constant(self, e, env):
        if e.value is Ellipsis:
            return prim('ellipsis')
        return const(e.value)

    def ex_JoinedStr(self, e, env):
        fl = E0
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                x = self.eval(v.value, env)
                fmt = ast.unparse(v.format_spec) if v.format_spec is not None else ''
                fl |= self.str_flags(x, env)
                if fmt and any(ch in fmt for ch in 'feg%'):
                    fl = fl - M_I
        return AV(frozenset(['str']), E0, None, frozenset(fl))

    def ex_FormattedValue(self, e, env):
        self.eval(e.value, env)
        return STR

    def str_flags(self, x, env, depth=3):
        """Flags of the text of a value: order of every set inside shows up."""
        fl = set(self.flags(x, env)) & M_UI
        fl = set(fl)
        if x.t & {'set', 'frozenset'}:
            fl |= self.origin(UNORDERED, None, 'text of a set')
        for t in x.t:
            if t.startswith('C:'):
                m = self.eng.cls(t).lookup('__str__') or self.eng.cls(t).lookup('__repr__')
                if isinstance(m, FuncInfo):
                    r = self.call_func(m, [AV(frozenset([t]), self.paths(x, t))], {}, None, env)
                    fl |= set(r.fl) & M_UI
        if depth and x.t & {'list', 'tuple', 'dict', 'iter'} and not x.t & {'set'}:
            el = self.elem(AV(x.t & {'list', 'tuple'}, x.p), env) if x.t & {'list', 'tuple'} else BOT
            if 'dict' in x.t:
                for p in x.p:
                    el = join(el, join(self.read(p, '[]', env), self.read(p, '<k>', env)))
            if el is not BOT and el != x:
                fl |= self.str_flags(el, env, depth - 1)
        return frozenset(fl)

    def ex_List(self, e, env):
        return self.display(e, 'list', env)

    def ex_Tuple(self, e, env):
        return self.display(e, 'tuple', env)

    def ex_Set(self, e, env):
        return self.display(e, 'set', env)

    def display(self, e, typ, env):
        vals, content = [], {}
        fl = set()
        star = False
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                vals.append(self.elem(v, env, e))
                if self.is_unordered(v, env):
                    fl |= self.uflags(v, env, e)
                star = True
            else:
                v = self.eval(x, env)
                vals.append(v)
                if typ in ('tuple', 'list') and not star and len(e.elts) <= 8:
                    content[f'#{i}'] = v
        if typ == 'list':
            content = {}
        content['[]'] = joinall(vals)
        if typ == 'set':
            fl = set()
        return self.alloc(e, typ, content, fl=fl, env=env)

    def ex_Dict(self, e, env):
        content = {'[]': BOT, '<k>': BOT}
        fl = set()
        for k, v in zip(e.keys, e.values):
            val = self.eval(v, env)
            if k is None:
                for p in val.p:
                    content['[]'] = join(content['[]'], self.read(p, '[]', env))
                    content['<k>'] = join(content['<k>'], self.read(p, '<k>', env))
                if self.is_unordered(val, env):
                    fl |= self.uflags(val, env, e)
                continue
            key = self.eval(k, env)
            content['[]'] = join(content['[]'], val)
            content['<k>'] = join(content['<k>'], key)
            if key.c is not None and len(key.c) == 1:
                t, x = next(iter(key.c))
                if t == 'str':
                    content[f"'{x}'"] = val
        return self.alloc(e, 'dict', content, fl=fl, env=env)

    def comp(self, e, env, typ):
        env2 = dict(env)
        unordered = E0
        for g in e.generators:
            it = self.eval(g.iter, env2)
            if self.is_unordered(it, env2):
                unordered = unordered | self.uflags(it, env2, e)
            self.assign(g.target, self.elem(it, env2, e), env2, e)
            for c in g.ifs:
                t, f = self.branch(c, env2)
                if t is not None:
                    env2 = t
        if unordered:
            self.uloops.append((id(e), unordered))
        if typ == 'dict':
            k = self.eval(e.key, env2)
            v = self.eval(e.value, env2)
            content = {'<k>': k, '[]': v}
        else:
            content = {'[]': self.eval(e.elt, env2)}
        if unordered:
            self.uloops.pop()
        self.never_returns = False
        if '$' in env:
            self.dynamic |= {f[1] for f in env2['$'].must - env['$'].must if f[0] == 'def'}
            self.dynamic |= {f[1] for fs in self.comp_facts(e) for f in fs if f[0] == 'def'}
            env['$'] = join_ts(env['$'], env2['$'])
        # keep what is known about objects, drop the comprehension's own names
        for k in [k for k in env if isinstance(k, tuple) and k[1] == '!one' and k not in env2]:
            del env[k]
        for k, v in env2.items():
            if isinstance(k, tuple):
                if k[1] == '!one':
                    continue
                if k in env:
                    env[k] = join(env[k], v)
                elif k[1] == '!fl':
                    env[k] = v
                elif k[0][0][0] == 'a':
                    pass
        fl = unordered if typ != 'set' else E0
        return self.alloc(e, typ, content, fl=fl, env=env)

    def ex_ListComp(self, e, env):
        return self.comp(e, env, 'list')

    def ex_SetComp(self, e, env):
        return self.comp(e, env, 'set')

    def ex_GeneratorExp(self, e, env):
        return self.comp(e, env, 'iter')

    def ex_DictComp(self, e, env):
        return self.comp(e, env, 'dict')

    def ex_Lambda(self, e, env):
        return AV(frozenset(['func']), E0, None, E0, frozenset([('closure', self.closure(e, env))]))

    def ex_Starred(self, e, env):
        return self.eval(e.value, env)

    def ex_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        env[e.target.id] = v
        return v

    def ex_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else NONE
        self.yields = join(self.yields, v)
        return NONE

    def ex_YieldFrom(self, e, env):
        v = self.eval(e.value, env)
        self.yields = join(self.yields, self.elem(v, env, e))
        return NONE

    def ex_Slice(self, e, env):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.eval(x, env)
        return prim('slice')

    def ex_IfExp(self, e, env):
        t, f = self.branch(e.test, dict(env))
        r = BOT
        if t is not None:
            r = join(r, self.eval(e.body, t))
        if f is not None:
            r = join(r, self.eval(e.orelse, f))
        if '$' in env and (t or f):
            env['$'] = join_ts((t or f)['$'], (f or t)['$'])
        for k in set(t or ()) | set(f or ()):
            if isinstance(k, tuple) and k not in env:
                src = t if t is not None and k in t else f
                if k[1] == '!one':
                    continue
                if k[1] == '!fl' or k[0][0][0] == 'a':
                    env[k] = src[k]
        return r

    def ex_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            tv = self.truth(v, env)
            if tv == {True}:
                r = FALSE
            elif tv == {False}:
                r = TRUE
            else:
                r = BOOL
            return r.withflags(v.fl & M_UI)
        name = {ast.Invert: '__invert__', ast.USub: '__neg__', ast.UAdd: '__pos__'}[type(e.op)]
        res = BOT
        for t in v.t:
            if t.startswith('C:'):
                m = self.eng.cls(t).lookup(name)
                if isinstance(m, FuncInfo):
                    res = join(res, self.call_func(m, [AV(frozenset([t]), self.paths(v, t))], {}, e, env))
        if v.t & {'int', 'bool'}:
            c = None
            if v.c is not None and all(x[0] in ('int', 'bool') for x in v.c):
                f = {ast.Invert: lambda x: ~int(x), ast.USub: lambda x: -x, ast.UAdd: lambda x: +x}[type(e.op)]
                c = frozenset(('int', int(f(x[1]))) for x in v.c)
            res = join(res, AV(frozenset(['int']), E0, c, v.fl))
        if v.t & {'float', 'Fraction', 'complex'}:
            res = join(res, AV(v.t & {'float', 'Fraction', 'complex'}, E0, None, v.fl))
        if 'ndarray' in v.t:
            res = join(res, self.new_array(e, env, INT, self.has_rows(v, env)))
        if 'top' in v.t:
            res = join(res, TOP.withflags(v.fl))
        return res

    def ex_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        cur = dict(env)
        res = BOT
        states = []
        for i, x in enumerate(e.values):
            v = self.eval(x, cur)
            tv = self.truth(v, cur)
            last = i == len(e.values) - 1
            if last:
                res = join(res, v)
                states.append(cur.get('$'))
                break
            stop = False if is_and else True
            if stop in tv:
                # value that ends the evaluation
                res = join(res, self.restrict_truth(v, stop, cur))
            if (not stop) not in tv:
                states.append(cur.get('$'))
                break
            t, f = self.branch(x, cur)
            cur, end = (t, f) if is_and else (f, t)
            if end is not None:
                states.append(end.get('$'))
            if cur is None:
                break
        if '$' in env and states:
            env['$'] = states[0]
            for x in states[1:]:
                env['$'] = join_ts(env['$'], x)
        return res

    def restrict_truth(self, v, val, env):
        if v.c is not None:
            return AV(v.t if len(v.t) == 1 else v.t, v.p, frozenset(x for x in v.c if bool(x[1]) == val), v.fl, v.fn)
        if val is False:
            t = frozenset(x for x in v.t if not (x in ('func', 'class', 'module', 'ext')))
            return AV(t, v.p, None, v.fl)
        return AV(v.t - {'none'}, v.p, None, v.fl, v.fn)

    def ex_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        self.data(a, e.left, 'operand')
        self.data(b, e.right, 'operand')
        name = self.OPNAMES[type(e.op)]
        self.supports(a, name, e, other=b, reflected='__r' + name[2:])
        return self.binop(type(e.op), a, b, e, env)

    def judge(self, kind, node, bad, detail):
        """What is said about a use is said about all values it can see, so the last look at it counts."""
        self.eng.judged[(self.serial, kind, node, detail)] = (self.fi, bad)

    def data(self, v, node, use):
        """The value is used as data, so it should not be a function (a property that is none, or a missing call)."""
        self.judge('function-as-value', node, v.t == {'func'} and all(f[0] in ('bound', 'def') for f in v.fn), (use, ast.unparse(node)))

    def supports(self, v, op, node, other=None, reflected=None):
        """The object is one of the library, and its class should define the operation."""
        if v.t:
            self.judge('no-operation', node, not self.supported(v, op, other, reflected) and not self.tolerated(node, 'TypeError'), op)

    def supported(self, v, op, other, reflected):
        for t in v.t:
            if not t.startswith('C:') or self.eng.cls(t).lookup(op) is not None or self.eng.cls(t).ext_bases():
                return True
        if other is not None:
            for t in other.t or ('top',):
                if t not in NOT_CALLABLE and not t.startswith('C:') or t == 'ndarray':
                    return True
                if t.startswith('C:') and (self.eng.cls(t).lookup(reflected) is not None or self.eng.cls(t).ext_bases()):
                    return True
        return False

    OPNAMES = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Pow: '__pow__', ast.BitAnd: '__and__',
               ast.BitOr: '__or__', ast.BitXor: '__xor__', ast.Div: '__truediv__', ast.FloorDiv: '__floordiv__',
               ast.Mod: '__mod__', ast.LShift: '__lshift__', ast.RShift: '__rshift__', ast.MatMult: '__matmul__'}

    def binop(self, op, a, b, node, env):
        res = BOT
        # library classes
        for t in a.t:
            if t.startswith('C:'):
                m = self.eng.cls(t).lookup(self.OPNAMES[op])
                if isinstance(m, FuncInfo):
                    res = join(res, self.call_func(m, [AV(frozenset([t]), self.paths(a, t)), b], {}, node, env))
        at = {x for x in a.t if not x.startswith('C:')}
        bt = b.t
        wraps = self.keeps_low_bits(op, b)
        if wraps:
            a = AV(a.t, a.p, a.c, strip_wrap(a.fl), a.fn)
        taint = (a.fl | b.fl) & M_UI
        if not at or not bt:
            return res.withflags(frozenset(taint)) if res.t else res
        ai, bi = at & {'int', 'bool'}, bt & {'int', 'bool'}
        num_a, num_b = at & NUMERIC, bt & NUMERIC
        big = bool((BIG in a.fl) or (BIG in b.fl))
        if num_a and num_b:
            res = join(res, self.arith(op, a, b, num_a, num_b, taint, node))
        if 'ndarray' in at or 'ndarray' in bt:
            fl = set(taint)
            ea = self.elem_flags(a, env) | self.elem_flags(b, env)
            if wraps:
                ea = strip_wrap(ea)
            fl |= ea & M_I
            if op in (ast.Div,):
                fl |= self.origin(INEXACT, node, 'true division')
            definite = (at == {'ndarray'} and self.own_array(a)) or (bt == {'ndarray'} and self.own_array(b))
            if definite and (op in (ast.Pow, ast.LShift) or (op in (ast.Mult, ast.Add, ast.Sub, ast.MatMult) and BIG in ea)):
                self.eng.event('fixed-width', self.fi, node, op.__name__)
                fl |= self.origin(INEXACT, node, 'fixed-width ' + op.__name__)
            res = join(res, self.new_array(node, env, AV(frozenset(['int']), E0, None, frozenset(fl) | (ea & {BIG})),
                                           self.has_rows(a, env) or self.has_rows(b, env)))
        if op is ast.Add:
            if 'str' in at and ('str' in bt or 'top' in bt):
                c = None
                if a.c is not None and b.c is not None and len(a.c) * len(b.c) <= MAX_CONST and a.t == {'str'} and b.t == {'str'}:
                    c = frozenset(('str', x[1] + y[1]) for x in a.c for y in b.c)
                res = join(res, AV(frozenset(['str']), E0, c, frozenset(taint)))
            for ty in ('list', 'tuple'):
                if ty in at and (ty in bt or 'top' in bt) or ('top' in at and ty in bt):
                    content = {'[]': join(self.elem(AV(frozenset([ty if ty in at else 'top']), a.p, None, a.fl), env, node),
                                          self.elem(AV(frozenset([ty if ty in bt else 'top']), b.p, None, b.fl), env, node))}
                    fl = (self.flags(a, env) | self.flags(b, env)) & M_U
                    res = join(res, self.alloc(node, ty, content, fl=fl, env=env))
        if op is ast.Mult:
            for x, y in ((a, b), (b, a)):
                for ty in ('list', 'tuple', 'str'):
                    if ty in x.t and y.t & {'int', 'bool', 'top'}:
                        if ty == 'str':
                            res = join(res, AV(frozenset(['str']), E0, None, frozenset(taint)))
                        else:
                            res = join(res, self.alloc(node, ty, {'[]': self.elem(AV(frozenset([ty]), self.paths(x, ty), None, x.fl), env, node)},
                                                       fl=self.flags(x, env) & M_U, env=env))
        if op is ast.Mod and 'str' in at:
            res = join(res, AV(frozenset(['str']), E0, None, self.str_flags(b, env)))
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub):
            for ty in ('set', 'frozenset'):
                if ty in at and bt & {'set', 'frozenset', 'top', 'iter'} or ('top' in at and ty in bt):
                    content = {'[]': join(self.elem(a, env, node), self.elem(b, env, node))}
                    res = join(res, self.alloc(node, ty, content, env=env))
            if op is ast.BitOr and 'dict' in at:
                r = self.alloc(node, 'dict', {}, env=env)
                for p in r.p:
                    for q in a.p | b.p:
                        self.heap_put(p, '[]', self.read(q, '[]', env))
                        self.heap_put(p, '<k>', self.read(q, '<k>', env))
                res = join(res, r)
        if 'top' in at or 'top' in bt:
            done = (at - {'top'}) and not ('top' in at)
            fl = set(taint) | {BIG}
            if op is ast.Div:
                other = (at | bt) - {'top'}
                if not other & {'Fraction', 'str'}:
                    fl |= self.origin(INEXACT, node, 'true division')
                    self.eng.event('float', self.fi, node, 'true division')
            elif (at == {'float'} or bt == {'float'}) and big:
                fl |= self.origin(INEXACT, node, 'float arithmetic with an unbounded integer')
            if op is ast.Mod and BIG not in b.fl:
                fl -= {BIG}
            if op is ast.BitAnd and (BIG not in a.fl or BIG not in b.fl):
                fl -= {BIG}
            if at & {'top'} or bt & {'top'}:
                if not (('list' in bt or 'tuple' in bt) and op is ast.Add) or 'top' in bt:
                    t = {'top'}
                    # an integer operand keeps arithmetic inside numbers / arrays
                    res = join(res, AV(frozenset(t), E0, None, frozenset(fl)))
        for t in b.t:
            if t.startswith('C:') and at:
                m = self.eng.cls(t).lookup(self.OPNAMES[op].replace('__', '__r', 1))
                if isinstance(m, FuncInfo):
                    res = join(res, self.call_func(m, [AV(frozenset([t]), self.paths(b, t)), a], {}, node, env))
        if not res.t and res is not BOT:
            res = TOP
        return res.withflags(frozenset(taint)) if res.t else res

    def keeps_low_bits(self, op, b):
        """Reduction modulo a power of two: exact even after the overflow of a fixed-width integer."""
        if b.c is None or not b.c or not all(x[0] == 'int' for x in b.c):
            return False
        if op is ast.Mod:
            return all(0 < x[1] <= 2 ** 31 and x[1] & (x[1] - 1) == 0 for x in b.c)
        if op is ast.BitAnd:
            return all(0 <= x[1] < 2 ** 31 for x in b.c)
        return False

    def own_array(self, av):
        """An array made by the library, not one the caller chose to pass."""
        return any(p[0][0] != 'p' or (p[1] and self.shape_at(p) is not None and 'top' not in self.shape_at(p).t) for p in av.p)

    def elem_flags(self, av, env):
        if 'ndarray' in av.t:
            fl = set(av.fl)
            for p in av.p:
                fl |= self.read(p, '[]', env).fl
            return frozenset(fl)
        if av.t & {'list', 'tuple'}:
            return self.elem(AV(av.t & {'list', 'tuple'}, av.p), env).fl
        return av.fl

    def arith(self, op, a, b, num_a, num_b, taint, node):
        fl = set(taint)
        t = set()
        c = None
        if (a.c is not None and b.c is not None and len(a.c) == 1 and len(b.c) == 1 and op in _CONST_OPS):
            (ta, xa), = a.c
            (tb, xb), = b.c
            if ta in ('int', 'bool') and tb in ('int', 'bool') and abs(xa) <= 64 and abs(xb) <= 64:
                try:
                    v = _CONST_OPS[op](xa, xb)
                    if isinstance(v, (int, bool)) and abs(v) < 2 ** 31:
                        return const(v).withflags(frozenset(taint))
                except Exception:
                    pass
        bigs = (BIG in a.fl, BIG in b.fl)
        if (NP in a.fl or NP in b.fl) and num_a <= {'int', 'bool'} and num_b <= {'int', 'bool'}:
            # fixed width is contagious: 2 ** numpy integer is a numpy integer
            fl |= (a.fl | b.fl) & M_NP
            if op in (ast.Pow, ast.LShift) or (op in (ast.Mult, ast.Add, ast.Sub) and any(bigs)):
                self.eng.event('fixed-width', self.fi, node, op.__name__ + ' with a numpy integer')
                fl |= self.origin(INEXACT, node, 'fixed-width ' + op.__name__ + ' with a numpy integer')
        if op is ast.Div:
            if 'Fraction' in num_a or 'Fraction' in num_b:
                t.add('Fraction')
            if num_a - {'Fraction'} and num_b - {'Fraction'}:
                t.add('float')
                if any(bigs):
                    fl |= self.origin(INEXACT, node, 'true division')
                    self.eng.event('float', self.fi, node, 'true division')
        else:
            if num_a & {'int', 'bool'} and num_b & {'int', 'bool'}:
                if op in (ast.BitAnd, ast.BitOr, ast.BitXor) and num_a == {'bool'} and num_b == {'bool'}:
                    t.add('bool')
                else:
                    t.add('int')
                if op is ast.Pow:
                    neg = b.c is not None and any(x[1] < 0 for x in b.c)
                    if neg:
                        t.add('float')
                        fl |= self.origin(INEXACT, node, 'negative power')
                        self.eng.event('float', self.fi, node, 'negative power')
                    fl.add(BIG)
                elif op is ast.LShift:
                    fl.add(BIG)
                elif op is ast.Mod:
                    if bigs[1]:
                        fl.add(BIG)
                elif op is ast.BitAnd:
                    if all(bigs):
                        fl.add(BIG)
                elif any(bigs):
                    fl.add(BIG)
            if 'float' in num_a or 'float' in num_b:
                if op is ast.Pow or any(bigs) or INEXACT in taint:
                    if num_a & {'int', 'bool', 'float'} and any(bigs):
                        fl |= self.origin(INEXACT, node, 'float arithmetic with an unbounded integer')
                        self.eng.event('float', self.fi, node, 'float arithmetic with an unbounded integer')
                t.add('float')
            if 'Fraction' in num_a or 'Fraction' in num_b:
                t.add('Fraction')
        return AV(frozenset(t), E0, c, frozenset(fl))

    # -- comparisons and branching --------------------------------------------------------------------------------------
    def ex_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            if not isinstance(op, (ast.Is, ast.IsNot)):
                self.data(left, e.left, 'compared')
                self.data(right, r, 'compared')
            if type(op) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                self.supports(left, self.CMPNAMES[type(op)], e, other=right, reflected=self.CMPNAMES[MIRROR[type(op)]])
            v = self.compare(op, left, right, e, env)
            res = v if res is None else (v if self.truth(res, env) == {True} else join(FALSE, v) if True in self.truth(res, env) else FALSE)
            left = right
        return res

    CMPNAMES = {ast.Eq: '__eq__', ast.NotEq: '__ne__', ast.Lt: '__lt__', ast.Gt: '__gt__', ast.LtE: '__le__', ast.GtE: '__ge__'}

    def compare(self, op, a, b, node, env):
        fl = (a.fl | b.fl) & M_I
        if isinstance(op, (ast.Eq, ast.NotEq)) or not isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot)):
            # comparing sequences whose order is accidental
            for x, y in ((a, b), (b, a)):
                if UNORDERED in self.flags(x, env) and x.t & {'list', 'tuple', 'str', 'int', 'iter'}:
                    fl = fl | (self.flags(x, env) & M_U)
        res = None
        name = self.CMPNAMES.get(type(op))
        if name:
            called = BOT
            for t in a.t:
                if t.startswith('C:'):
                    m = self.eng.cls(t).lookup(name)
                    if isinstance(m, FuncInfo):
                        called = join(called, self.call_func(m, [AV(frozenset([t]), self.paths(a, t)), b], {}, node, env))
                    elif name == '__ne__':
                        m = self.eng.cls(t).lookup('__eq__')
                        if isinstance(m, FuncInfo):
                            self.call_func(m, [AV(frozenset([t]), self.paths(a, t)), b], {}, node, env)
                            called = join(called, BOOL)
            if called is not BOT:
                self.never_returns = False
                if all(t.startswith('C:') for t in a.t):
                    return called.withflags(frozenset(fl)) if called.t else BOOL
                return join(called, BOOL).withflags(frozenset(fl))
        if isinstance(op, (ast.In, ast.NotIn)):
            for t in b.t:
                if t.startswith('C:'):
                    m = self.eng.cls(t).lookup('__contains__')
                    if isinstance(m, FuncInfo):
                        self.call_func(m, [AV(frozenset([t]), self.paths(b, t)), a], {}, node, env)
        tv = self.decide(op, a, b, env)
        if tv is True:
            res = TRUE
        elif tv is False:
            res = FALSE
        else:
            res = BOOL
            if isinstance(op, (ast.Eq, ast.NotEq)) and 'ndarray' in (a.t | b.t):
                res = join(BOOL, self.new_array(node, env, BOOL, True))
        return res.withflags(frozenset(fl))

    def decide(self, op, a, b, env):
        """True, False or None."""
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            r = None
            if a.t == {'none'} and b.t == {'none'}:
                r = True
            elif (a.t == {'none'} and b.t and 'none' not in b.t and 'top' not in b.t) or \
                    (b.t == {'none'} and a.t and 'none' not in a.t and 'top' not in a.t):
                r = False
            elif a.t == {'none'} and 'top' in b.t and 'none' not in b.t:
                r = False
            elif b.t == {'none'} and 'top' in a.t and 'none' not in a.t:
                r = False
            elif a.c is not None and b.c is not None and len(a.c) == 1 and len(b.c) == 1:
                r = next(iter(a.c))[1] == next(iter(b.c))[1]
            elif a.c is not None and b.c is not None and a.c and b.c:
                if not any(x[1] == y[1] for x in a.c for y in b.c):
                    r = False
            elif a.t == {'type'} and (b.t == {'type'} or b.t & {'class', 'ext'}) or b.t == {'type'} and a.t & {'class', 'ext'}:
                r = self.type_eq(a, b)
            if r is None and not a.c and not b.c:
                # different kinds are never equal
                ka, kb = _kinds(a.t), _kinds(b.t)
                if ka and kb and not (a.t | b.t) & {'type', 'class', 'ext', 'func'} and not (ka & kb) and 'top' not in a.t | b.t and not any(x.startswith('C:') for x in a.t | b.t):
                    r = False
            if r is None:
                return None
            return r != neg
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            r = None
            if b.t and b.t <= {'list', 'tuple', 'set'}:
                el = self.elem(b, env)
                if a.t == {'type'}:
                    r = self.type_in(a, el)
                elif a.c is not None and el.c is not None and a.c:
                    if not any(x[1] == y[1] for x in a.c for y in el.c):
                        r = False
                    elif len(a.c) == 1 and self.definite_elements(b) is not None:
                        r = next(iter(a.c))[1] in self.definite_elements(b)
                elif el is BOT:
                    r = False
                elif a.t == {'none'} and 'none' not in el.t and 'top' not in el.t:
                    r = False
                elif el.c is not None and all(x[0] in ('str', 'none') for x in el.c) and 'str' not in a.t and 'top' not in a.t and 'none' not in a.t:
                    r = False
            if r is None:
                return None
            return r != neg
        if a.c is not None and b.c is not None and a.c and b.c:
            f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[type(op)]
            try:
                vals = {f(x[1], y[1]) for x in a.c for y in b.c}
            except TypeError:
                return None
            if len(vals) == 1:
                return vals.pop()
        return None

    def definite_elements(self, b):
        for p in b.p:
            d = self.heap.get(p, {})
            n = self.site_nodes.get(p[0][1]) if p[0][0] == 'a' else None
            if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(x, ast.Constant) for x in n.elts):
                return [x.value for x in n.elts]
        return None

    def type_names(self, av):
        out = set()
        for f in av.fn:
            if f[0] == 'typeof':
                out |= {('var', x) for x in f[1]}
            elif f[0] == 'class':
                out.add('C:' + f[1].qual)
            elif f[0] == 'ext':
                out.add(_EXT_TYPES.get(f[1], f[1]))
            else:
                out.add('?')
        return out

    def type_eq(self, a, b):
        if b.t == {'type'} and a.t != {'type'}:
            a, b = b, a
        va = {x[1] if isinstance(x, tuple) else x for x in self.type_names(a)}
        vb = {x[1] if isinstance(x, tuple) else x for x in self.type_names(b)}
        if 'top' in va or 'top' in vb or '?' in va | vb:
            return None
        if not va & vb:
            return False
        if len(va) == 1 and len(vb) == 1:
            return True
        return None

    def type_in(self, a, el):
        va = {x[1] if isinstance(x, tuple) else x for x in self.type_names(a)}
        vb = {x[1] if isinstance(x, tuple) else x for x in self.type_names(el)}
        if 'top' in va or 'top' in vb or '?' in va | vb:
            return None
        if not va & vb:
            return False
        if va <= vb:
            return True
        return None

    def truth(self, v, env=None):
        if v.c is not None:
            return {bool(x[1]) for x in v.c} or {True, False}
        res = set()
        for t in v.t:
            if t == 'none':
                res.add(False)
            elif t in ('func', 'class', 'module', 'ext', 'exc', 'type', 'iter'):
                res.add(True)
            elif t.startswith('C:'):
                c = self.eng.cls(t)
                if c.lookup('__len__') or c.lookup('__bool__'):
                    res |= {True, False}
                else:
                    res.add(True)
            else:
                res |= {True, False}
        return res or {True, False}

    def branch(self, test, env):
        """Environments for the true and the false outcome (None: impossible)."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.branch(test.operand, env)
            return f, t
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                cur, false = dict(env), None
                for x in test.values:
                    if cur is None:
                        break
                    cur, f = self.branch(x, cur)
                    false = self.join_env(false, f)
                return cur, false
            cur, true = dict(env), None
            for x in test.values:
                if cur is None:
                    break
                t, cur = self.branch(x, cur)
                true = self.join_env(true, t)
            return true, cur
        v = self.eval(test, env)
        if self.never_returns:
            self.never_returns = False
            return None, None
        self.data(v, test, 'tested')
        if INEXACT in v.fl:
            self.eng.sink('condition', self.fi, test, v.fl)
        if UNORDERED in v.fl and v.t & {'bool'}:
            self.eng.sink('condition', self.fi, test, v.fl)
        tv = self.truth(v, env)
        t = self.narrow(test, dict(env), True) if True in tv else None
        f = self.narrow(test, dict(env), False) if False in tv else None
        for outcome, e in ((True, t), (False, f)):
            if e is not None and '$' in e:
                self.add_must(e, *self.facts_if(test, outcome))
        return t, f

    def narrow(self, test, env, val):
        """Refine the environment knowing the outcome of a test."""
        target = types = None
        if isinstance(test, ast.Name) and test.id in env:
            v = env[test.id]
            env[test.id] = self.restrict_truth(v, val, env) if v.t else v
            if val is False:
                for p in v.p if len(v.p) == 1 else ():
                    env[(p, '!one')] = AV(E0, E0, E0)
            self.promote(test.id, env)
            return env
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, left, right = test.ops[0], test.left, test.comparators[0]
            self.narrow_len(op, left, right, env, val)
            self.narrow_equality(op, left, right, env, val)
            if isinstance(op, (ast.Eq, ast.NotEq)) and val == isinstance(op, ast.Eq):
                for x, y in ((left, right), (right, left)):
                    if isinstance(x, ast.Name) and x.id in env and isinstance(env[x.id], AV):
                        env[x.id] = self.equal_to(env[x.id], self.eval(y, dict(env)))
            if isinstance(op, (ast.In, ast.NotIn)) and val == isinstance(op, ast.In) and isinstance(left, ast.Name) \
                    and isinstance(right, (ast.List, ast.Tuple, ast.Set)) and left.id in env:
                env[left.id] = self.equal_to(env[left.id], joinall(self.eval(x, dict(env)) for x in right.elts))
            pos = isinstance(op, (ast.Is, ast.Eq, ast.In))
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
                want = val if pos else not val
                if isinstance(right, ast.Constant) and right.value is None:
                    return self.narrow_types(left, env, {'none'}, want)
                if isinstance(right, ast.Constant) and isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and isinstance(left, ast.Name):
                    v = env.get(left.id)
                    if v is not None and v.c is not None:
                        c = frozenset(x for x in v.c if (x[1] == right.value) == want)
                        env[left.id] = AV(v.t, v.p, c or None, v.fl, v.fn)
                    return env
                if isinstance(left, ast.Call) and isinstance(left.func, ast.Name) and left.func.id == 'type' and len(left.args) == 1:
                    rv = self.eval(right, dict(env))
                    if isinstance(op, (ast.In, ast.NotIn)):
                        rv = self.elem(rv, env)
                    names = {x for x in self.type_names(rv) if isinstance(x, str)}
                    if names and '?' not in names:
                        return self.narrow_types(left.args[0], env, names, want)
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'isinstance' and len(test.args) == 2:
            rv = self.eval(test.args[1], dict(env))
            names = {x for x in self.type_names(rv) if isinstance(x, str)}
            if 'tuple' in rv.t:
                names |= {x for x in self.type_names(self.elem(rv, env)) if isinstance(x, str)}
            if names and '?' not in names:
                full = set(names)
                for n in names:
                    if n.startswith('C:'):
                        base = self.eng.cls(n)
                        full |= {'C:' + c.qual for c in self.prog.classes.values() if base in c.mro()}
                    if n == 'int':
                        full.add('bool')
                return self.narrow_types(test.args[0], env, full, val, sub=True)
        if isinstance(test, ast.Call) and len(test.args) == 1 and not test.keywords and isinstance(test.args[0], ast.Name):
            # predicate of the library, e.g. `have(x)`: try the possible kinds of the argument one by one
            name = test.args[0].id
            v = env.get(name)
            if v is not None and v.c is None and len(v.t) > 1 and 'none' in v.t:
                fv = self.eval(test.func, dict(env))
                fs = [f[1] for f in fv.fn if f[0] == 'def']
                if fs and len(fs) == len(fv.fn):
                    keep = set()
                    rest = AV(v.t - {'none'}, v.p, None, v.fl, v.fn)
                    for part in (NONE, rest):
                        e2 = dict(env)
                        saved = self.never_returns
                        r = joinall(self.call_func(f, [part], {}, test, e2) for f in fs)
                        self.never_returns = saved
                        if val in self.truth(r, env):
                            keep |= part.t
                    if keep and keep != v.t:
                        env[name] = NONE if keep == {'none'} else AV(frozenset(keep), v.p, None, v.fl, v.fn)
        return env

    def narrow_len(self, op, left, right, env, val):
        """`len(x) == 1`, `len(x) <= 1`, ...: at most one element."""
        fs = {ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y, ast.Lt: lambda x, y: x < y,
              ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}
        f = fs.get(type(op))
        if f is None:
            return
        saved = self.never_returns
        a, b = self.eval(left, dict(env)), self.eval(right, dict(env))
        self.never_returns = saved
        for x, y, flip in ((a, b, False), (b, a, True)):
            lens = [g[1] for g in x.fn if g[0] == 'lenof']
            if len(lens) == 1 and y.c is not None and len(y.c) == 1:
                (t, n), = y.c
                if t != 'int':
                    continue
                if all(bool(f(n, m) if flip else f(m, n)) != val for m in (2, 3, 4, 5, 10 ** 9)):
                    env[(lens[0], '!one')] = AV(E0, E0, E0)

    def narrow_equality(self, op, left, right, env, val):
        """Facts about the equality of two values that are given by access paths, and about stored cached values."""
        if '$' not in env:
            return
        if isinstance(op, (ast.Eq, ast.NotEq)):
            a, b = (self.access_path(x, env) for x in (left, right))
            if a is not None and b is not None and a != b:
                self.add_must(env, ('eq' if val == isinstance(op, ast.Eq) else 'ne', frozenset([a, b])))
        elif isinstance(op, (ast.In, ast.NotIn)) and val == isinstance(op, ast.NotIn) and isinstance(right, ast.Attribute) and right.attr == '__dict__':
            k, o = self.eval(left, dict(env)), self.eval(right.value, dict(env))
            if k.c is not None and len(k.c) == 1 and len(o.p) == 1:
                self.cache_emptied(next(iter(o.p)), {str(next(iter(k.c))[1])}, env)

    def access_path(self, e, env):
        """Parameter, or field of a parameter, a value is read from unchanged."""
        if isinstance(e, ast.Attribute):
            o = self.eval(e.value, dict(env))
            if len(o.p) == 1 and o.t and all(t.startswith('C:') for t in o.t):
                p = next(iter(o.p))
                if p[0][0] == 'p' and (p, e.attr) not in env and not any(isinstance(self.eng.cls(t).lookup(e.attr), FuncInfo) for t in o.t):
                    return (p[0], p[1] + (e.attr,))
            return None
        if isinstance(e, ast.Name):
            v = env.get(e.id)
            if v is not None and len(v.p) == 1:
                p = next(iter(v.p))
                if p[0][0] == 'p':
                    return p
            es = self.sources().get(e.id)
            if es and len(es) == 1 and e.id not in self.fi.all_params:
                return self.access_path(es[0], env)
        return None

    def equal_to(self, v, w):
        """What is known of a value that equals a list, tuple, set or dict."""
        kinds = {'list', 'tuple', 'set', 'dict', 'str', 'none', 'int', 'bool'}
        if not w.t or not w.t <= {'list', 'tuple', 'dict', 'str'} or not v.t:
            return v
        t = frozenset(x for x in v.t if x not in kinds | {'top'} or x in w.t)
        if 'top' in v.t:
            t = t | w.t
        if not t or t == v.t:
            return v
        keep = E0 if t <= IMMUTABLE else frozenset(p for p in v.p if self.path_may_be(p, t)) if len(v.t) > 1 else v.p
        return AV(t, keep, None if v.c is None or not all(x[0] in t for x in v.c) else v.c, v.fl, v.fn)

    def narrow_types(self, target, env, names, want, sub=False):
        if isinstance(target, ast.Name):
            v = env.get(target.id)
            if v is None:
                return env
            n = self.restrict_types(v, names, want)
            env[target.id] = n
        elif isinstance(target, ast.Attribute):
            obj = self.eval(target.value, dict(env))
            if len(obj.p) == 1 and all(t.startswith('C:') for t in obj.t):
                p = next(iter(obj.p))
                c = [self.eng.cls(t) for t in obj.t]
                if all(not isinstance(x.lookup(target.attr), FuncInfo) for x in c):
                    v = self.read(p, target.attr, env)
                    if v is not BOT:
                        env[(p, target.attr)] = self.restrict_types(v, names, want)
        return env

    def restrict_types(self, v, names, want):
        names = {n for n in names}
        if want:
            t = v.t & names
            if 'top' in v.t:
                t = t | names
            if not t:
                t = names
            if t == {'none'}:
                return NONE
            keepc = v.c if v.c is not None and all(x[0] in t for x in v.c) else (
                frozenset(x for x in v.c if x[0] in t) if v.c is not None else None)
            if keepc is not None and not keepc:
                keepc = None
            p = v.p if not (frozenset(t) <= IMMUTABLE) else E0
            return AV(frozenset(t), p, keepc, v.fl, v.fn)
        t = v.t - names
        if not t:
            return v
        c = frozenset(x for x in v.c if x[0] in t) if v.c is not None else None
        if c is not None and not c:
            c = None
        return AV(frozenset(t), v.p, c, v.fl, v.fn)

    def assume_guard(self, call, env):
        """After `guard(cond, ...)` the condition holds, if the guard never returns for a false argument."""
        if not call.args or isinstance(call.args[0], ast.Starred):
            return env
        a0 = call.args[0]
        if not isinstance(a0, (ast.Compare, ast.Call, ast.BoolOp, ast.UnaryOp, ast.Name, ast.Attribute)):
            return env
        fv = self.eval(call.func, dict(env))
        fs = [f[1] for f in fv.fn if f[0] == 'def']
        if len(fs) != 1 or len(fv.fn) != 1:
            return env
        fi = fs[0]
        if not self.is_guard(fi):
            return env
        t, f = self.branch(a0, env)
        self.checked(a0, t)
        if f is not None and '$' in f:
            for x in call.args[1:]:
                for g in self.eval(x, dict(f)).fn:
                    if g[0] in ('class', 'excinst'):
                        self.note_raise(g[1] if isinstance(g[1], str) else g[1].qual, call, f)
        return t

    def note_raise(self, exc, node, env):
        """What is known where an exception is raised."""
        if '$' in env:
            key = (exc, self.fi.qual, self.fi.where(node))
            old = self.eng.raise_facts.get(key)
            self.eng.raise_facts[key] = env['$'].must if old is None else old & env['$'].must

    def is_guard(self, fi):
        if fi in self.eng.guard_cache:
            return self.eng.guard_cache[fi]
        self.eng.guard_cache[fi] = False
        if not fi.params:
            return False
        n = sum(1 for _ in ast.walk(fi.node))
        res = False
        if n < 120 and any(isinstance(x, ast.Raise) for x in ast.walk(fi.node)):
            sh = {p: (TOPSHAPE, None, E0) for p in fi.all_params}
            sh[fi.params[0]] = (Shape(frozenset(['bool'])), frozenset([('bool', False)]), E0)
            fr = Frame(self.eng, fi, sh, False)
            fr.run()
            sh2 = dict(sh)
            sh2[fi.params[0]] = (Shape(frozenset(['bool'])), frozenset([('bool', True)]), E0)
            fr2 = Frame(self.eng, fi, sh2, False)
            fr2.run()
            res = fr.ret is BOT and fr2.ret is not BOT
        self.eng.guard_cache[fi] = res
        return res

    # -- attributes -----------------------------------------------------------------------------------------------------
    def ex_Attribute(self, e, env):
        obj = self.eval(e.value, env)
        return self.getattr(obj, e.attr, e, env)

    def getattr(self, obj, attr, node, env):
        res = BOT
        eng = self.eng
        for f in obj.fn:
            if f[0] == 'module':
                b = self.prog.ns.get(f[1], {}).get(attr)
                res = join(res, self.binding_av(b, f[1], attr))
            elif f[0] == 'ext':
                res = join(res, self.ext_av(f'{f[1]}.{attr}'))
            elif f[0] == 'class':
                m = f[1].lookup(attr)
                if isinstance(m, FuncInfo):
                    res = join(res, AV(frozenset(['func']), E0, None, E0, frozenset([('def', m)])))
                elif attr == '__name__':
                    res = join(res, STR)
                else:
                    res = join(res, TOP)
            elif f[0] == 'super':
                m = None
                for c in f[1].mro()[1:]:
                    if attr in c.members:
                        m = c.members[attr]
                        break
                if isinstance(m, FuncInfo):
                    if m.kind in ('property', 'cached'):
                        res = join(res, self.call_func(m, [f[2]], {}, node, env))
                    else:
                        res = join(res, AV(frozenset(['func']), E0, None, E0, frozenset([('bound', m, f[2])])))
                else:
                    res = join(res, TOP)
            elif f[0] in ('def', 'bound', 'closure') and attr in ('__name__', '__doc__'):
                res = join(res, STR)
            elif f[0] in ('def', 'bound', 'closure'):
                fn = f[1] if f[0] != 'closure' else f[1].fi
                # state kept on a function object
                res = join(res, AV(frozenset(['top']), frozenset([(('g', 'function', getattr(fn, 'qual', '?')), (attr,))]), None, E0))
            elif f[0] == 'typeof':
                res = join(res, STR if attr in ('__name__',) else TOP)
        for t in obj.t:
            if t.startswith('C:'):
                c = eng.cls(t)
                one = AV(frozenset([t]), self.paths(obj, t))
                res = join(res, self.class_attr(c, one, attr, node, env))
            elif t == 'top':
                res = join(res, self.top_attr(AV(frozenset([t]), self.paths(obj, t), None, obj.fl), attr, node, env))
            elif t in ('func', 'class', 'module', 'ext', 'type'):
                pass
            elif t in ('ndarray',) and attr in ('T', 'flat', 'real'):
                res = join(res, AV(frozenset(['ndarray']), self.paths(obj, 'ndarray')))
            elif t in ('ndarray',) and attr in ('shape',):
                res = join(res, self.alloc(node, 'tuple', {'[]': INT}, env=env))
            elif t in ('ndarray',) and attr in ('size', 'ndim'):
                res = join(res, INT)
            elif t == 'ndarray' and attr == 'dtype':
                res = join(res, TOP)
            elif t == 'dict' and attr == 'inverse':      # bidict
                r = AV(frozenset(['dict']), self.paths(obj, 'dict'))
                res = join(res, r)
            elif t in ('Fraction',) and attr in ('numerator', 'denominator'):
                res = join(res, AV(frozenset(['int']), E0, None, obj.fl | {BIG}))
            elif t in ('slice',) and attr in ('start', 'stop', 'step'):
                res = join(res, prim('int', 'none'))
            elif t == 'exc':
                res = join(res, TOP)
            else:
                self.builtin_attr(obj, attr, node)
                res = join(res, AV(frozenset(['func']), E0, None, E0,
                                   frozenset([('meth', AV(frozenset([t]), self.paths(obj, t), obj.c, obj.fl), attr)])))
        return res

    def builtin_attr(self, obj, attr, node):
        """No type the value can have has such an attribute."""
        bad = obj.t and all(t in _BUILTIN and not any(hasattr(x, attr) for x in _BUILTIN[t]) for t in obj.t)
        self.judge('no-attr', node, bad and not self.tolerated(node, 'AttributeError'), (ast.unparse(node.value) if isinstance(node, ast.Attribute) else 'value', attr))

    def class_attr(self, c, one, attr, node, env):
        eng = self.eng
        m = c.lookup(attr)
        if isinstance(m, FuncInfo):
            if m.kind == 'cached':
                return self.cached_attr(c, m, one, attr, node, env)
            if m.kind == 'property':
                before = set(self.reads)
                r = self.call_func(m, [one], {}, node, env)
                if (c.name, attr) in eng.opaque:
                    self.reads = before | {(p, attr) for p in one.p}
                return r
            if m.kind == 'static':
                return AV(frozenset(['func']), E0, None, E0, frozenset([('def', m)]))
            if eng.has_field(c, attr):
                r = joinall(self.read(p, attr, env) for p in one.p)
                b = AV(frozenset(['func']), E0, None, E0, frozenset([('bound', m, one)]))
                return join(r, b)
            return AV(frozenset(['func']), E0, None, E0, frozenset([('bound', m, one)]))
        if isinstance(m, tuple):
            if m[0] == 'value':
                fr_av = self.eval(m[1], {})
                return AV(fr_av.t, E0 if fr_av.t <= IMMUTABLE else frozenset([(('g', c.qual, attr), ())]), fr_av.c, fr_av.fl)
            return TOP
        if attr == '__dict__':
            r = self.alloc_like(node, one, env)
            return r
        if attr in ('__class__',):
            return AV(frozenset(['class']), E0, None, E0, frozenset([('class', c)]))
        if attr in ('__init__', '__str__', '__repr__', '__hash__', '__eq__', '__ne__', '__doc__', '__module__', '__setattr__', '__getattribute__'):
            return TOP
        if not eng.has_field(c, attr):
            # maybe not computed yet in this round; checked on the final round
            if not self.tolerated(node, 'AttributeError'):
                eng.event('no-attr', self.fi, node, (c.qual, attr))
            return BOT
        for p in one.p:
            self.need(p, c, attr, node, env, ((self.fi.qual, self.fi.where(node), 'reads', attr),))
        r = joinall(self.read(p, attr, env) for p in one.p)
        for p in one.p:
            if p[0][0] == 'p' and len(p[1]) <= 2:
                self.reads.add((p, attr))
            self.stale_read(p, attr, attr, node, env)
        if not one.p:
            sh = eng.field_shape(c, attr)
            r = join(r, AV(sh.t, E0, None, sh.fl))
        return r

    def set_unknown(self, obj, v, env):
        """A field with a computed name gets the value."""
        self.dynamic |= obj.p
        for t in obj.t:
            if t.startswith('C:'):
                self.eng.record_field(self.eng.cls(t), '?', self.shape_of(v, env))

    def alloc_like(self, node, one, env):
        """`obj.__dict__`"""
        paths = set()
        for p in one.p:
            if len(p[1]) < MAX_DEPTH and p[0][0] != 'a':
                paths.add((p[0], p[1] + ('__dict__',)))
        r = self.alloc(node, 'dict', {'[]': BOT, '<k>': STR}, tag='__dict__')
        for p in r.p:
            self.heap.setdefault(p, {})['~src'] = one
        return AV(frozenset(['dict']), r.p | frozenset(paths))

    def cached_attr(self, c, m, one, attr, node, env):
        """A cached property: the getter may run, but its value lives in the object."""
        before = set(self.reads)
        ret = self.call_func(m, [one], {}, node, env)
        if (c.name, attr) in self.eng.opaque:
            self.reads = before
        for p in one.p:
            self.stale_read(p, '@' + attr, attr, node, env)
        self.cache_read(one.p, attr, env)
        for p in one.p:
            if p[0][0] == 'p' and len(p[1]) <= 2:
                self.reads.add((p, '@' + attr))
        if ret is BOT:
            return BOT
        sh = self.shape_of(ret, env)
        self.eng.record_field(c, '@' + attr, sh)
        res = AV(ret.t, E0, ret.c, ret.fl, ret.fn)
        if ret.t <= IMMUTABLE:
            return ret
        step = '@' + attr
        paths = set()
        for p in one.p:
            if p[0][0] == 'a':
                self.heap_put(p, step, ret)
                paths |= set(ret.p)
            elif len(p[1]) >= MAX_DEPTH:
                paths.add(p)
            else:
                paths.add((p[0], p[1] + (step,)))
        # the getter may hand out something the object already holds
        for p in ret.p:
            if p[0][0] != 'a':
                paths.add(p)
        return AV(ret.t, frozenset(paths) or ret.p, ret.c, ret.fl, ret.fn)

    GENERIC = {'copy', 'index', 'count', 'keys', 'values', 'items', 'get', 'union', 'intersection', 'difference', 'append',
               'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'add', 'discard', 'update', 'setdefault', 'join',
               'split', 'replace', 'format', 'zfill', 'strip', 'issubset', 'issuperset', 'transpose', 'flatten', 'tolist',
               'T', 'shape', 'astype', 'dot', 'sum', 'max', 'min', 'all', 'any', 'reshape', 'nonzero', 'start', 'stop',
               'step', 'numerator', 'denominator', 'bit_length', '__name__', '__class__', '__dict__', 'isdigit', 'read', 'write'}

    def top_attr(self, obj, attr, node, env):
        res = BOT
        if attr not in self.GENERIC or attr in ('reverse',):
            for c in self.prog.classes.values():
                if c.is_exception:
                    continue
                own = attr in c.members or attr in self.eng.field_shapes.get(c.qual, {})
                if own:
                    one = AV(frozenset(['C:' + c.qual]), obj.p)
                    res = join(res, self.class_attr(c, one, attr, node, env))
        if attr in ('T', 'flat'):
            res = join(res, AV(frozenset(['top']), obj.p))
        elif attr == 'shape':
            res = join(res, self.alloc(node, 'tuple', {'[]': INT}, env=env))
        if attr in self.GENERIC or res is BOT or attr in ALL_MUTATORS or attr in _METHOD_NAMES:
            res = join(res, AV(frozenset(['func']), E0, None, E0, frozenset([('meth', obj, attr)])))
        return res

    # -- subscripts -------------------------------------------------------------------------------------------------------
    def ex_Subscript(self, e, env):
        obj = self.eval(e.value, env)
        self.data(obj, e.value, 'indexed')
        self.supports(obj, '__getitem__', e)
        if isinstance(e.slice, ast.Slice):
            self.eval(e.slice, env)
            return self.slice(obj, e, env)
        k = self.eval(e.slice, env)
        i = None
        if k.c is not None and len(k.c) == 1:
            (t, x), = k.c
            if t in ('int', 'str'):
                i = x
        return self.index(obj, i, env, e, k)

    def slice(self, obj, e, env):
        res = BOT
        for t in obj.t:
            if t in ('list', 'tuple'):
                one = AV(frozenset([t]), self.paths(obj, t), None, obj.fl)
                res = join(res, self.alloc(e, t, {'[]': self.elem(one, env, e)}, fl=self.flags(one, env) & M_U, env=env))
            elif t == 'str':
                res = join(res, AV(frozenset(['str']), E0, None, obj.fl))
            elif t in ('ndarray',):
                res = join(res, AV(frozenset(['ndarray']), self.paths(obj, 'ndarray')))
            elif t == 'range':
                res = join(res, prim('range'))
            elif t.startswith('C:'):
                m = self.eng.cls(t).lookup('__getitem__')
                if isinstance(m, FuncInfo):
                    res = join(res, self.call_func(m, [AV(frozenset([t]), self.paths(obj, t)), prim('slice')], {}, e, env))
            elif t == 'top':
                one = AV(frozenset([t]), self.paths(obj, t), None, obj.fl)
                # list: fresh copy, array: view
                r = self.alloc(e, 'list', {'[]': self.elem(one, env, e)}, env=env)
                res = join(res, join(r, AV(frozenset(['ndarray', 'str']), obj.p)))
        return res

    def index(self, obj, i, env, node, k=None):
        """obj[i]; i is a constant or None."""
        res = BOT
        fl = set()
        if UNORDERED in self.flags(obj, env) and obj.t & {'list', 'tuple', 'iter', 'str'} and id(node) not in self.taking:
            fl |= self.flags(obj, env) & M_U
        if k is not None and UNORDERED in k.fl:
            fl |= k.fl & M_U
        if INEXACT in obj.fl:
            fl |= obj.fl & M_I
        if k is not None and INEXACT in k.fl:
            self.eng.sink('index', self.fi, node, k.fl)
            fl |= k.fl & M_I
        for t in obj.t:
            one = AV(frozenset([t]), self.paths(obj, t), None, obj.fl - M_U)
            if t in ('list', 'tuple', 'iter', 'top', 'set', 'frozenset'):
                for p in one.p:
                    step = '[]'
                    if isinstance(i, int) and t in ('tuple', 'iter', 'top', 'list'):
                        if i < 0:
                            n = [s for s in self.heap.get(p, {}) if s.startswith('#')]
                            cand = f'#{len(n) + i}' if n else '#none'
                        else:
                            cand = f'#{i}'
                        if p[0][0] == 'a':
                            if cand in self.heap.get(p, {}):
                                step = cand
                        elif t == 'tuple':
                            step = cand
                    elif isinstance(i, str) and t == 'top':
                        step = f"'{i}'"
                    res = join(res, self.read(p, step, env))
                if t == 'top' and not obj.p:
                    res = join(res, TOP)
            elif t == 'dict':
                for p in one.p:
                    step = '[]'
                    if isinstance(i, str) and p[0][0] == 'a' and f"'{i}'" in self.heap.get(p, {}):
                        step = f"'{i}'"
                    elif isinstance(i, str) and p[0][0] != 'a':
                        step = f"'{i}'"
                    res = join(res, self.read(p, step, env))
                    d = self.heap.get(p, {}).get('!default')
                    if d is not None:
                        res = join(res, d)
            elif t == 'ndarray':
                el = self.elem(one, env, node)
                if k is not None and k.t == {'tuple'}:
                    parts = self.elem(k, env, node)
                    if parts.t <= {'int', 'bool'}:
                        el = AV(el.t - {'ndarray'} or frozenset(['int']), el.p - one.p, None, el.fl | self.origin(NP, node))
                    elif 'slice' in parts.t:
                        el = one
                elif k is not None and k.t & {'list', 'ndarray', 'tuple', 'slice'}:
                    el = join(el, one)
                res = join(res, el)
            elif t == 'str':
                res = join(res, AV(frozenset(['str']), E0, None, obj.fl))
            elif t in ('range', 'bytes'):
                res = join(res, INT)
            elif t.startswith('C:'):
                m = self.eng.cls(t).lookup('__getitem__')
                if isinstance(m, FuncInfo):
                    r = self.call_func(m, [one, k if k is not None else INT], {}, node, env)
                    self.never_returns = False
                    res = join(res, r)
        return res.withflags(frozenset(fl)) if fl else res

    # -- calls --------------------------------------------------------------------------------------------------------------
    def ex_Call(self, e, env):
        fv = self.eval(e.func, env)
        args, kwargs = [], {}
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                star = v
                # constant number of elements known?
                n = self.tuple_len(v)
                if n is not None:
                    for i in range(n):
                        args.append(self.index(v, i, env, e))
                    star = None
                else:
                    args.append(('*', self.elem(v, env, e)))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        self.eng.stats['calls'] += 1
        return self.call_value(fv, args, kwargs, e, env)

    def tuple_len(self, v):
        lens = set()
        for p in v.p:
            if p[0][0] == 'a':
                n = len([s for s in self.heap.get(p, {}) if s.startswith('#')])
                if n and v.t == {'tuple'}:
                    lens.add(n)
                else:
                    return None
            else:
                return None
        return lens.pop() if len(lens) == 1 else None

    def call_value(self, fv, args, kwargs, node, env):
        res = BOT
        returns = False
        if not fv.fn:
            own = isinstance(node.func, ast.Name) and node.func.id in self.fi.all_params        # up to the caller
            self.judge('not-callable', node, fv.t and fv.t <= NOT_CALLABLE and not own and not self.tolerated(node, 'TypeError'), ast.unparse(node.func))
            self.eng.stats['unresolved'] += 1
            for a in args:
                if isinstance(a, AV):
                    self.call_closures(a, env)
            return TOP
        self.eng.stats['resolved'] += 1
        for f in sorted(fv.fn, key=_fkey):
            self.never_returns = False
            if f[0] == 'def':
                r = self.call_func(f[1], args, kwargs, node, env)
            elif f[0] == 'bound':
                r = self.call_func(f[1], [f[2]] + list(args), kwargs, node, env)
            elif f[0] == 'class':
                r = self.construct(f[1], args, kwargs, node, env)
            elif f[0] == 'partial':
                r = self.call_value(AV(frozenset(['func']), E0, None, E0, frozenset([f[1]])), list(f[2]) + list(args), {**dict(f[3]), **kwargs}, node, env)
            elif f[0] == 'closure':
                r = self.call_closure(f[1], args, kwargs, node, env)
            elif f[0] == 'ext':
                r = self.call_ext(f[1], args, kwargs, node, env)
            elif f[0] == 'meth':
                r = self.call_method(f[1], f[2], args, kwargs, node, env)
            elif f[0] == 'typeof':
                r = BOT
                for t in f[1]:
                    if t in ('list', 'tuple', 'set', 'dict', 'str', 'int', 'frozenset', 'bool'):
                        r = join(r, self.call_ext('builtins.' + t, args, kwargs, node, env))
                    elif t == 'ndarray':
                        r = join(r, self.call_ext('numpy.array', args, kwargs, node, env))
                    elif t.startswith('C:'):
                        r = join(r, self.construct(self.eng.cls(t), args, kwargs, node, env))
                    else:
                        r = join(r, self.call_ext('builtins.list', args, kwargs, node, env) if args else TOP)
                        r = join(r, TOP)
            else:
                r = TOP
            if not self.never_returns:
                returns = True
            res = join(res, r)
        self.never_returns = not returns
        return res

    def call_closures(self, av, env):
        for f in av.fn:
            if f[0] == 'closure':
                self.call_closure(f[1], None, {}, f[1].node, env)
                self.never_returns = False

    def call_closure(self, c, args, kwargs, node, env):
        if c.frame is not self:
            return TOP
        if self.closure_depth > 4:
            return TOP
        self.closure_depth += 1
        saved_ret, saved_env, saved_yields = self.ret, self.ret_env, self.yields
        saved_loops, saved_u = self.loops, self.uloops
        saved_base, self.ubase = self.ubase, len(self.uloops)
        self.loops, self.ret, self.ret_env, self.yields = [], BOT, None, BOT
        inner = dict(c.env if c.env is not None else {})
        inner.update({k: v for k, v in env.items()})
        fi = c.fi
        pos = list(args) if args is not None else None
        for i, name in enumerate(fi.params):
            if pos is not None and i < len(pos) and isinstance(pos[i], AV):
                inner[name] = pos[i]
            elif name in kwargs:
                inner[name] = kwargs[name]
            elif name in fi.defaults:
                inner[name] = self.eval(fi.defaults[name], dict(env))
            else:
                inner[name] = TOP
        for name in fi.kwonly:
            inner[name] = kwargs.get(name, TOP)
        if fi.vararg:
            inner[fi.vararg] = TOP
        if fi.kwarg:
            inner[fi.kwarg] = TOP
        nl = {n for s in ast.walk(c.node) if isinstance(s, ast.Nonlocal) for n in s.names}
        if isinstance(c.node, ast.Lambda):
            r = self.eval(c.node.body, inner)
            out = inner
            gen = False
        else:
            out = self.block(c.node.body, inner)
            if out is not None:
                self.ret = join(self.ret, NONE)
            else:
                out = self.ret_env
            r = self.ret
            gen = fi.is_generator
            if gen:
                r = self.alloc(c.node, 'iter', {'[]': self.yields}, tag='closure', env=env)
        if out is not None:
            for n in nl:
                if n in out:
                    env[n] = join(env.get(n, BOT), out[n])
            for k, v in out.items():
                if isinstance(k, tuple) or k == '$':
                    env[k] = v
        self.ret, self.ret_env, self.yields = saved_ret, saved_env, saved_yields
        self.loops, self.uloops = saved_loops, saved_u
        self.ubase = saved_base
        self.closure_depth -= 1
        self.never_returns = r is BOT and not gen
        return r

    def bind(self, fi, args, kwargs, env, node):
        """Parameter name -> AV."""
        bound = {}
        pos = list(args)
        i = 0
        extra = []
        for a in pos:
            if isinstance(a, tuple):          # ('*', elem)
                for name in fi.params[i:]:
                    bound[name] = join(bound.get(name, BOT), a[1])
                    if name in fi.defaults:
                        bound[name] = join(bound[name], self.default(fi, name))
                if fi.vararg:
                    extra.append(a[1])
                i = len(fi.params)
                continue
            if i < len(fi.params):
                bound[fi.params[i]] = a
                i += 1
            elif fi.vararg:
                extra.append(a)
            else:
                self.eng.event('extra-arg', self.fi, node or self.fi.node, (fi.qual, 'positional'))
        for k, v in kwargs.items():
            if k == '**':
                for name in fi.all_params:
                    if name not in bound and name not in (fi.vararg, fi.kwarg):
                        bound[name] = join(TOP, self.default(fi, name) if name in fi.defaults else BOT)
            elif k in fi.all_params:
                if k in bound and not any(isinstance(a, tuple) for a in pos):
                    self.eng.event('extra-arg', self.fi, node or self.fi.node, (fi.qual, k))
                bound[k] = v
            elif not fi.kwarg:
                self.eng.event('extra-arg', self.fi, node or self.fi.node, (fi.qual, k))
        for name in fi.params + fi.kwonly:
            if name not in bound:
                if name in fi.defaults:
                    bound[name] = self.default(fi, name)
                else:
                    bound[name] = TOP
                    if '**' not in kwargs:
                        self.eng.event('missing-arg', self.fi, node or self.fi.node, (fi.qual, name))
        if fi.vararg:
            bound[fi.vararg] = self.alloc(node or self.fi.node, 'tuple', {'[]': joinall(extra)}, tag='varargs', env=env)
        if fi.kwarg:
            bound[fi.kwarg] = self.alloc(node or self.fi.node, 'dict', {'[]': joinall(v for k, v in kwargs.items() if k not in fi.params)}, tag='kwargs', env=env)
        return bound

    def default(self, fi, name):
        d = fi.defaults[name]
        if isinstance(d, ast.Constant):
            return const(d.value)
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
            t = {'List': 'list', 'Dict': 'dict', 'Set': 'set'}.get(type(d).__name__)
            if t is None and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set'):
                t = d.func.id
            if t:
                return AV(frozenset([t]), frozenset([(('g', 'default', f'{fi.qual}.{name}'), ())]))
            return TOP
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
            return const(-d.operand.value)
        if isinstance(d, ast.Tuple):
            return AV(frozenset(['tuple']), frozenset([(('g', 'default', f'{fi.qual}.{name}'), ())]))
        return TOP

    def context(self, fi, bound, env):
        shapes = {}
        for name, v in bound.items():
            c = v.c
            if c is not None:
                if len(c) > 4 or not all(x[0] in ('none', 'bool', 'str') or (x[0] == 'int' and -1 <= x[1] <= 3) for x in c) or not c:
                    c = None
                if c is not None and any(x[0] == 'str' and len(x[1]) > 30 for x in c):
                    c = None
            fn = frozenset(f for f in v.fn if f[0] in ('def', 'class', 'ext', 'typeof', 'excinst') or (f[0] == 'bound' and not f[2].p))
            if self.eng.object_details and len(v.p) == 1 and v.t and all(t.startswith('C:') for t in v.t):
                p = next(iter(v.p))
                fn = fn | {('fconst', k[1], x) for k, w in env.items() if isinstance(k, tuple) and k[0] == p and w.c is not None
                           and len(w.c) == 1 for x in w.c if x[0] in ('str', 'bool', 'none') and k[1][0] not in '!~^@'}
            shapes[name] = (self.shape_of(v, env, 2), c, fn)
        return shapes

    def call_func(self, fi, args, kwargs, node, env, fresh=False):
        node = node if node is not None else self.fi.node
        bound = self.bind(fi, args, kwargs, env, node)
        for v in bound.values():
            if any(f[0] == 'closure' for f in v.fn):
                self.call_closures(v, env)
        shapes = self.context(fi, bound, env)
        s = self.eng.summary(fi, None, shapes, fresh, ())
        r = self.apply(s, fi, bound, node, env)
        if fi.cached_function and not r.t <= IMMUTABLE:
            r = AV(r.t, frozenset([(('g', 'lru_cache', fi.qual), ())]), r.c, r.fl, r.fn)
        self.never_returns = s.ret is BOT and s.done is not None and self.settled(s)
        return r

    def settled(self, s):
        return True

    # -- applying a summary --------------------------------------------------------------------------------------------------
    def apply(self, s, fi, bound, node, env):
        memo = {}
        here = (self.fi.qual, self.fi.where(node), 'calls', fi.qual)

        def walk(path):
            """Paths of the caller a path of the callee stands for."""
            root, steps = path
            if root[0] == 'a':
                return fresh(path)
            if root[0] == 'g':
                return frozenset([path])
            v = bound.get(root[1])
            if v is None:
                return E0
            cur = v
            for st in steps:
                nxt = BOT
                for p in cur.p:
                    if st.startswith('@') and p[0][0] != 'a':
                        if len(p[1]) < MAX_DEPTH:
                            nxt = join(nxt, AV(E0, frozenset([(p[0], p[1] + (st,))]), E0))
                            o = self.heap.get(p, {}).get(st)
                            if o is not None:
                                nxt = join(nxt, o)
                        else:
                            nxt = join(nxt, AV(E0, frozenset([p]), E0))
                    else:
                        r = self.read(p, st, env)
                        nxt = join(nxt, r) if r is not BOT else nxt
                cur = nxt
            return cur.p

        def fresh(path):
            if path in memo:
                return memo[path]
            base = path[0][1]
            site = (self.fi.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), base if len(base) < 5 else base[-1])
            if len(base) == 4 and isinstance(base[3], tuple):
                site = (self.fi.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), base[3])
            self.site_nodes.setdefault(site, node)
            new = (('a', site), ())
            res = frozenset([new])
            memo[path] = res
            content = s.heap.get(path, {})
            env.pop((new, '!fl'), None)
            for step, v in content.items():
                iv = inst(v)
                if step == '!fl':
                    env[(new, '!fl')] = v
                else:
                    self.heap_put(new, step, iv)
            return res

        def inst(v):
            if not v.p:
                return v
            ps = set()
            for p in v.p:
                ps |= walk(p)
            fn = v.fn
            return AV(v.t, frozenset(ps), v.c, v.fl, fn)

        self.apply_late(s, fi, bound, node, env, here)
        self.apply_needs(s, fi, bound, node, env, walk, here)
        self.apply_state(s, fi, bound, node, env, walk)
        for path, f in s.reads:
            for p in walk(path):
                if p[0][0] == 'p' and len(p[1]) <= 2:
                    self.reads.add((p, f))
        for (path, kind, detail), chain in s.effects.items():
            for p in walk(path):
                env.pop((p, '!one'), None)
                if p[0][0] == 'a':
                    continue
                key = (p, kind, detail)
                if key not in self.effects:
                    self.effects[key] = (here,) + chain
        for (path, step), v in s.stores.items():
            iv = inst(v)
            for p in walk(path):
                if step == '!fl':
                    env[(p, '!fl')] = v
                    continue
                self.heap_put(p, step, iv)
                if (p, step) in env:
                    env[(p, step)] = join(env[(p, step)], iv)
        for x, chain in s.ext.items():
            self.ext.setdefault(x, (here,) + chain)
        for x, chain in s.raises.items():
            self.raise_stack[-1].setdefault(x, (here,) + chain)
        return inst(s.ret)

    def construct(self, c, args, kwargs, node, env):
        if c.is_exception:
            return AV(frozenset(['exc']), E0, None, E0, frozenset([('excinst', c.qual)]))
        obj = self.alloc(node, 'C:' + c.qual, {}, tag='new' + c.name)
        m = c.lookup('__init__')
        if isinstance(m, FuncInfo) and self.eng.object_details:
            for name, v in self.bind(m, [obj] + list(args), kwargs, env, node).items():
                if name != 'self':
                    for p in obj.p:
                        self.heap_put(p, '^' + name, v)
        if isinstance(m, FuncInfo):
            self.call_func(m, [obj] + list(args), kwargs, node, env, fresh=True)
            # `__init__` that never completes
            if self.never_returns:
                return BOT
        return obj

    # -- the outside world ----------------------------------------------------------------------------------------------------
    def call_ext(self, name, args, kwargs, node, env):
        from . import externals
        return externals.call(self, name, args, kwargs, node, env)

    def call_method(self, recv, name, args, kwargs, node, env):
        from . import externals
        return externals.method(self, recv, name, args, kwargs, node, env)


MIRROR = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
_METHOD_NAMES = {'reverse', 'inverse'}

_CONST_OPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b, ast.BitAnd: lambda a, b: a & b,
    ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b,
    ast.Pow: lambda a, b: a ** b if 0 <= b <= 30 else None,
}

_BUILTIN = {'int': (int,), 'bool': (bool,), 'float': (float,), 'str': (str,), 'list': (list, collections.deque), 'tuple': (tuple,), 'set': (set,),
            'frozenset': (frozenset,), 'none': (type(None),), 'range': (range,)}
_EXT_TYPES = {f'builtins.{t}': t for t in ('int', 'bool', 'float', 'str', 'list', 'tuple', 'dict', 'set', 'frozenset',
                                           'range', 'slice', 'bytes', 'complex')}
_EXT_TYPES.update({'numpy.ndarray': 'ndarray', 'fractions.Fraction': 'Fraction', 'builtins.NoneType': 'none'})


def _kinds(ts):
    out = set()
    for t in ts:
        if t in ('int', 'bool', 'float', 'Fraction', 'complex', 'ndarray'):
            out.add('number')
        elif t in ('set', 'frozenset'):
            out.add('set')
        else:
            out.add(t)
    return out


def _fname(f):
    return getattr(f[1], 'qual', str(f[1]))


def _fkey(f):
    return (f[0], getattr(f[1], 'qual', None) or (f[1].fi.qual if isinstance(f[1], Closure) else str(f[1:])))


def _as_load(t):
    new = ast.copy_location(type(t)(**{k: v for k, v in ast.iter_fields(t)}), t)
    new.ctx = ast.Load()
    return new

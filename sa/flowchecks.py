"""
Properties decided with the whole-program dataflow engine: C02, C03, C06, C07, C14, C16.
"""
import ast
import os
import sys

from . import api
from .flow import Engine, BOT, IMMUTABLE, M_U
from .model import Program, FuncInfo, own_nodes
from .program import AnalysisError
from .report import Finding

# -- documented behaviour ---------------------------------------------------------------------------------------------

# operations that change their receiver
IN_PLACE = {
    'SetPart': {'merge_pair', 'merge_many', 'refine_block', 'add_label_to_block', 'add_label_to_element', 'merge_block_labels'},
    'SetPartComp': {'set_equal', 'set_comp'},
    'CollectionOfSegments': {'add', 'demand'},
    'Segment': {'run_demands'},
}
MUTABLE_CLASSES = {'SetPart', 'SetPartComp'}
INTERNAL_CLASSES = {'CollectionOfSegments', 'Segment'}

# operations with a documented output
OUTPUT = {
    'discretehelpers.a.file_write': {'open'},
    'Boolf.wiki_table_row': {'open'},                            # reads the template that belongs to the package
    'discretehelpers.boolf.a.boolfs_to_swan': {'print'},         # argument `print_list`
    'Boolf.fullspotlinks_by_atom_pretty': {'print'},             # argument `print_only` or similar
    'Boolf.hypersplits_potential_cores_pretty': {'print'},
    'Boolf.hypersplits_pretty': {'print'},
    'Boolf.ec_clan_matrix_wiki': {'print'},
    'CollectionOfSegments.print_segments': {'print'},
}

CONTAINERS = {'list', 'set', 'dict', 'ndarray'}
MIN_ROOTS = 900
MIN_FUNCTIONS = 450


class Run:
    """One run of the engine over the whole public interface."""

    def __init__(self):
        sys.setrecursionlimit(50000)
        self.prog = Program()
        self.engine = Engine(self.prog, max_rounds=25)
        self.roots = api.roots(self.prog)
        self.summaries = self.engine.run_roots([(r.fi, r.shapes, r.fresh) for r in self.roots])
        if len(self.roots) < MIN_ROOTS:
            raise AnalysisError(f'only {len(self.roots)} public entry points found (expected at least {MIN_ROOTS})')
        if len(self.engine.analysed_functions) < MIN_FUNCTIONS:
            raise AnalysisError(f'only {len(self.engine.analysed_functions)} functions reached (expected at least {MIN_FUNCTIONS})')
        for cname, names in IN_PLACE.items():
            c = [c for c in self.prog.classes.values() if c.name == cname]
            if len(c) != 1:
                raise AnalysisError(f'class {cname} not found')
            for n in names:
                if not isinstance(c[0].lookup(n), FuncInfo):
                    raise AnalysisError(f'in-place operation {cname}.{n} not found')

    def coverage(self, **more):
        e = self.engine
        d = dict(
            public_entry_points=len({r.label for r in self.roots}), argument_contexts=len(self.roots),
            functions_analysed=len(e.analysed_functions), function_contexts=len(e.summaries),
            call_sites_evaluated=e.stats['calls'], unresolved_calls=e.stats['unresolved'], fixpoint_rounds=e.rounds)
        d.update(more)
        return d

    def pairs(self):
        return zip(self.roots, self.summaries)


def steps_text(steps):
    return ''.join(s if s.startswith('[') else '.' + s.lstrip('@') for s in steps)


def chain_text(chain):
    return [f'{c[0]} ({c[1]})' + (f' {c[2]} {c[3]}' if i == len(chain) - 1 and len(c) > 3 else '') for i, c in enumerate(chain)]


def under_construction(prog):
    """Methods that are called only while an object is set up (from `__init__` or from an in-place operation)."""
    callers = {}
    for fi in all_functions(prog):
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute):
                callers.setdefault(n.attr, set()).add(fi)
    done = set()
    members = {}
    for c in api.value_classes(prog):
        for name, m in c.all_members().items():
            if isinstance(m, FuncInfo):
                members.setdefault(name, set()).add(m)
                if name == '__init__' or name in IN_PLACE.get(c.name, ()):
                    done.add(m)
    changed = True
    while changed:
        changed = False
        for name, ms in members.items():
            if ms <= done or name.startswith('__'):
                continue
            cs = callers.get(name, set()) - ms
            if cs and cs <= done and all(m.kind == 'function' for m in ms):
                done |= ms
                changed = True
    return done


def all_functions(prog):
    seen = {}
    for c in prog.classes.values():
        for m in c.members.values():
            if isinstance(m, FuncInfo):
                seen[id(m.node)] = m
    for mod in sorted(prog.ns):
        for b in prog.ns[mod].values():
            if b[0] == 'def':
                fi = prog.binding_to_func(b)
                if fi is not None:
                    seen.setdefault(id(fi.node), fi)
    return list(seen.values())


def cache_names(prog):
    """Names under which derived values are stored in objects."""
    out = set()
    for c in api.value_classes(prog):
        for name, m in c.all_members().items():
            if isinstance(m, FuncInfo) and m.kind in ('property', 'cached'):
                out.add(name)
                out.add('_' + name)
    return out


# -- C02 ---------------------------------------------------------------------------------------------------------------
def c02():
    run = Run()
    setup = under_construction(run.prog)
    caches = cache_names(run.prog)
    findings, effects, exempt = [], 0, {}
    for r, s in run.pairs():
        for (path, kind, detail), chain in s.effects.items():
            root, steps = path
            if root[0] != 'p':
                continue
            effects += 1
            why = None
            if root[1] == 'self' and r.cls is not None:
                if r.member == '__init__' or r.fi in setup:
                    why = 'construction'
                elif r.member.endswith('='):
                    why = 'setter'
                if r.member in IN_PLACE.get(r.cls.name, ()):
                    why = 'in-place operation'
            if kind == 'setattr' and detail in caches:
                why = why or 'cache of a derived value'
            if why:
                exempt[why] = exempt.get(why, 0) + 1
                continue
            last = chain[-1]
            what = {'setattr': f'sets attribute {detail}', 'dictattr': f'changes __dict__ ({detail})', 'mutate': detail}.get(kind, f'{kind} {detail}')
            findings.append(Finding(
                'operand-changed', f'{r.label}: {root[1]}{steps_text(steps)} in {last[0].split(".", 1)[-1]}',
                f'{r.label} changes {root[1]}{steps_text(steps)}: {what}', last[1], chain_text(chain)))
    if effects < 50:
        raise AnalysisError(f'only {effects} effects seen: the effect analysis has lost the in-place operations')
    for cname, names in IN_PLACE.items():
        for n in names:
            if not any(r.cls is not None and r.cls.name == cname and r.member == n and s.effects for r, s in run.pairs()):
                raise AnalysisError(f'the analysis sees no effect of {cname}.{n}')
    return findings, run.coverage(
        rule='no effect on anything reachable from the receiver or an argument of a public operation',
        effects_on_operands=effects, exempted={k: v for k, v in sorted(exempt.items())},
        explanation='Obligations: every write (attribute, item, mutating method, in-place operator, numpy in-place function) on every '
                    'path reachable from a parameter, for every public entry point in every combination of given/omitted optional arguments.')


# -- C03 ---------------------------------------------------------------------------------------------------------------
def mutated_in_place(run):
    """(class name, steps) of the containers that some in-place operation changes without replacing them."""
    out = set()
    for r, s in run.pairs():
        if r.cls is not None and r.member in IN_PLACE.get(r.cls.name, ()):
            for (path, kind, detail) in s.effects:
                if kind == 'mutate' and path[0] == ('p', 'self'):
                    out.add((r.cls.name, path[1]))
    return out


def setup_only_fields(prog, setup):
    """Attributes that are read only while an object is set up."""
    readers = {}
    for fi in all_functions(prog):
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                readers.setdefault(n.attr, set()).add(id(fi.node))
    nodes = {id(f.node) for f in setup} | {id(f.node) for f in setup_helpers(prog, setup)}
    return {a for a, rs in readers.items() if rs <= nodes and a.startswith('_')}


def setup_helpers(prog, setup):
    """Functions that are used (called by name or imported) only by functions of the set-up phase."""
    users = {}
    for fi in all_functions(prog):
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Name):
                users.setdefault(n.id, set()).add(fi)
            elif isinstance(n, ast.Attribute):
                users.setdefault(n.attr, set()).add(fi)
    done = set(setup)
    changed = True
    while changed:
        changed = False
        for fi in all_functions(prog):
            if fi in done:
                continue
            us = users.get(fi.name, set()) - {fi}
            if us and us <= done:
                done.add(fi)
                changed = True
    return done


def expected_types(run, cls, steps):
    """Types seen anywhere at this place of an object."""
    sh = None
    for c in cls.mro():
        sh = run.engine.field_shapes.get(c.qual, {}).get(steps[0])
        if sh is not None:
            break
    fr = None
    for st in steps[1:]:
        if sh is None:
            return None
        nxt = None
        if st.startswith('#') or st.startswith("'"):
            nxt = dict(sh.idx).get(st)
        if nxt is None:
            nxt = sh.key if st == '<k>' else sh.elem
        sh = nxt
    return sh.t if sh is not None else None


def c03():
    run = Run()
    prog = run.prog
    setup = under_construction(prog)
    scratch = setup_only_fields(prog, setup)
    mutated = mutated_in_place(run)
    immutable_attr = lambda steps: any(not (x[0] in "[<#'") for x in steps)
    findings, stores, kept = [], 0, 0

    def judge(label, cls, place, w, q, where, chain=()):
        nonlocal kept
        root, steps = q
        kept += 1
        # an attribute of a library object given as argument: shared state, unless somebody changes it in place
        attrs = [i for i, x in enumerate(steps) if x[0] not in "[<#'"]
        if attrs:
            tail = tuple(steps[attrs[-1]:])
            head = tuple(steps[attrs[0]:])
            if not any(m[1] in (tail, head) for m in mutated):
                return
        if any(t.startswith('C:') for t in w.t):
            names = {t.rsplit('.', 1)[-1] for t in w.t if t.startswith('C:')}
            if names & MUTABLE_CLASSES and not w.t & {'top', 'int', 'list'}:
                findings.append(Finding('argument-kept', f'{label}: {steps_text(place)[1:]} is {root[1]}{steps_text(steps)}',
                                        f'{label} keeps the mutable object {root[1]}{steps_text(steps)} itself', where, chain))
            return
        if not w.t & (CONTAINERS | {'top'}) or w.t & {'int'}:
            return
        expected = expected_types(run, cls, place) or frozenset()
        if not expected & CONTAINERS or 'int' in expected:
            return
        findings.append(Finding('argument-kept', f'{label}: {steps_text(place)[1:]} is {root[1]}{steps_text(steps)}',
                                f'{label} keeps a reference to {root[1]}{steps_text(steps)} (as {steps_text(place)[1:]})', where, chain))

    def reach(s, start):
        """(steps, value) of everything stored below the given values."""
        todo = [(pre, w) for pre, w in start]
        seen = set()
        while todo:
            pre, w = todo.pop()
            yield pre, w
            for q in w.p:
                if q[0][0] == 'a' and (q not in seen) and len(pre) < 6:
                    seen.add(q)
                    for st, w2 in s.heap.get(q, {}).items():
                        if st[0] not in '!~':
                            todo.append((pre + (st,), w2))

    for r, s in run.pairs():
        if r.cls is not None and r.cls.name not in INTERNAL_CLASSES and (r.member == '__init__' or r.member in IN_PLACE.get(r.cls.name, ())):
            start = [(path[1] + (st,), w) for (path, st), w in s.stores.items() if path[0] == ('p', 'self') and st[0] not in '!~']
            for place, w in reach(s, start):
                stores += 1
                if place[0] in scratch:
                    continue
                for q in w.p:
                    if q[0][0] == 'p' and q[0][1] != 'self':
                        judge(r.label, r.cls, place, w, q, r.fi.where())
        # new mutable objects handed out must not share what in-place operations change
        for q in s.ret.p:
            if q[0][0] != 'a':
                continue
            ts = s.heap.get(q, {}).get('!t', BOT).t
            names = {t.rsplit('.', 1)[-1] for t in ts if t.startswith('C:')}
            if not names & MUTABLE_CLASSES:
                continue
            cls = [c for c in prog.classes.values() if c.name in names][0]
            for place, w in reach(s, [((st,), w) for st, w in s.heap[q].items() if st[0] not in '!~']):
                stores += 1
                for z in w.p:
                    if z[0][0] == 'p':
                        judge('result of ' + r.label, cls, place, w, z, r.fi.where())
    if stores < 300:
        raise AnalysisError(f'only {stores} stores seen')
    return findings, run.coverage(
        rule='no container or mutable object given by the caller is reachable from a constructed, changed or returned object',
        stores_examined=stores, references_to_arguments=kept, changed_in_place=sorted(f'{c}{steps_text(st)}' for c, st in mutated),
        setup_only_fields=sorted(scratch),
        explanation='Obligations: every value stored below the new object (or below the receiver of an in-place operation, or below a returned '
                    'set partition) is compared with every object reachable from an argument.')


# -- C06 / C07 -----------------------------------------------------------------------------------------------------------
def tags_in_result(s, kind, skip_dict=True):
    """Origins of the flag anywhere in the value a summary returns."""
    res, seen, todo = set(), set(), [s.ret]

    def add(v):
        if kind == 'unordered' and v.t and v.t <= {'dict', 'set', 'frozenset'}:
            return          # the order of these is not part of the value
        for x in v.fl:
            if x.startswith(kind + '@'):
                res.add(x)
    while todo:
        v = todo.pop()
        add(v)
        for q in v.p:
            if q in seen:
                continue
            seen.add(q)
            d = s.heap.get(q, {})
            ts = d.get('!t', BOT).t
            for st, w in d.items():
                if st == '!fl':
                    # the insertion order of a dict is not part of its value
                    if not (skip_dict and ts and ts <= {'dict'}):
                        add(w)
                elif st[0] not in '!~':
                    todo.append(w)
    return res


def tags_in_stores(s, kind):
    res = set()
    for (path, st), w in s.stores.items():
        if st == '!fl':
            continue
        for x in w.fl:
            if x.startswith(kind + '@'):
                res.add(x)
    return res


def tags_in_shape(sh, kind, top=True, depth=0):
    if sh is None or depth > 8:
        return
    if not (kind == 'unordered' and sh.t <= {'dict', 'set', 'frozenset'}):
        for x in sh.fl:
            if x.startswith(kind + '@'):
                yield x
    yield from tags_in_shape(sh.elem, kind, False, depth + 1)
    yield from tags_in_shape(sh.key, kind, False, depth + 1)
    for _, v in sh.idx:
        yield from tags_in_shape(v, kind, False, depth + 1)


def origin_construct(tag):
    """`kind@file:line function: what` -> `function: what` (line numbers are no identity)."""
    rest = tag.split('@', 1)[1]
    where, text = rest.split(' ', 1)
    return where, text


def collect_tags(run, kind, skip=lambda r: False):
    by = {}
    for r, s in run.pairs():
        if skip(r):
            continue
        for x in tags_in_result(s, kind) | tags_in_stores(s, kind):
            by.setdefault(x, set()).add(r.label)
    for cq, fields in run.engine.field_shapes.items():
        for f, sh in fields.items():
            for x in tags_in_shape(sh, kind):
                by.setdefault(x, set()).add(f'field {cq.rsplit(".", 1)[-1]}.{f.lstrip("@")}')
    return by


def c06():
    run = Run()
    by = collect_tags(run, 'inexact')
    for x, places in run.engine.sinks.items():
        if x.startswith('inexact@'):
            for kind, qual, where in places:
                by.setdefault(x, set()).add(f'{kind} in {qual} ({where})')
    findings = []
    for x, reached in sorted(by.items()):
        where, text = origin_construct(x)
        findings.append(Finding('inexact', text, f'inexact arithmetic ({text}) reaches {len(reached)} results or decisions, e.g. '
                                + ', '.join(sorted(reached)[:4]), where))
    sources = sorted({(k[0], k[1], k[4]) for k in run.engine.events if k[0] in ('float', 'fixed-width')})
    arith = run.engine.stats.get('arith', 0)
    return findings, run.coverage(
        rule='no value computed with floats or fixed-width integers from numbers of unbounded size reaches a result, a stored field, a '
             'condition, an index or an integer conversion',
        inexact_operations_that_reach_nothing=[f'{a}: {b}: {c}' for a, b, c in sources if not any(b.replace('discretehelpers.', '') in t for t in by)],
        explanation='Obligations: every arithmetic operation, numpy call and conversion in every analysed function context; flags are '
                    'propagated through containers, fields, caches and calls, and cleared by text formatting and by reduction modulo a '
                    'power of two after fixed-width integer arithmetic.')


def c07():
    run = Run()
    by = collect_tags(run, 'unordered', lambda r: r.member == '__hash__')
    for x, places in run.engine.sinks.items():
        if x.startswith('unordered@'):
            for kind, qual, where in places:
                by.setdefault(x, set()).add(f'{kind} in {qual} ({where})')
    by = {x: v for x, v in by.items() if any(not l.endswith('.__hash__') for l in v)}
    findings = []
    for x, reached in sorted(by.items()):
        where, text = origin_construct(x)
        findings.append(Finding('accidental-order', text, f'{text} reaches {len(reached)} results or fields, e.g. ' + ', '.join(sorted(reached)[:4]), where))
    choices = 0
    for (kind, qual, line, col, detail), (fi, node, chain) in sorted(run.engine.events.items(), key=str):
        if kind in ('choice', 'sort-key'):
            choices += 1
            q = qual.replace('discretehelpers.', '')
            findings.append(Finding('accidental-choice', f'{q}: {detail}', f'{detail} decides the result of {q}', fi.where(node)))
    loops = sum(1 for fi in run.engine.analysed_functions for n in ast.walk(fi.node) if isinstance(n, (ast.For, ast.comprehension)))
    return findings, run.coverage(
        rule='no result, stored field or returned choice depends on the order of a set, on hash() or on id()',
        loops_and_comprehensions=loops, arbitrary_choices=choices,
        explanation='Obligations: every iteration, conversion, unpacking, sort with key, pop and string conversion in every analysed function '
                    'context; the order of a set taints sequences, strings and numbers built from it until they are sorted, reduced by an '
                    'order-independent function or put into a set or dict again.')


# -- C14 -----------------------------------------------------------------------------------------------------------------
def c14():
    run = Run()
    prog = run.prog
    for label in OUTPUT:
        if not any(r.label == label for r in run.roots):
            raise AnalysisError(f'output operation {label} not found')
    allowed_funcs = {r.fi.qual: OUTPUT[r.label] for r in run.roots if r.label in OUTPUT}
    findings, n, allowed = [], 0, 0
    for r, s in run.pairs():
        for (kind, detail), chain in s.ext.items():
            n += 1
            if kind in OUTPUT.get(r.label, ()) or any(kind in allowed_funcs.get(c[0], ()) for c in chain):
                allowed += 1
                continue
            last = chain[-1]
            findings.append(Finding('hidden-effect', f'{r.label}: {kind} {detail} in {last[0].split(".", 1)[-1]}',
                                    f'{r.label}: {kind} ({detail})', last[1], chain_text(chain)))
        for (path, kind, detail), chain in s.effects.items():
            if path[0][0] == 'g':
                n += 1
                last = chain[-1]
                g = '.'.join(str(x) for x in path[0][1:])
                findings.append(Finding('shared-state', f'{r.label}: {g}{steps_text(path[1])} in {last[0].split(".", 1)[-1]}',
                                        f'{r.label} changes {g}{steps_text(path[1])}, which is shared between calls', last[1], chain_text(chain)))
        seen, todo = set(), [((), s.ret)]
        while todo:
            pre, v = todo.pop()
            if v.t <= IMMUTABLE:
                continue
            for q in v.p:
                if q[0][0] == 'g' and v.t & CONTAINERS:
                    g = '.'.join(str(x) for x in q[0][1:])
                    findings.append(Finding('shared-result', f'{r.label}: {g}{steps_text(q[1])}',
                                            f'{r.label} returns {g}{steps_text(q[1])} itself, so a caller can change it for all later calls', r.fi.where()))
                elif q[0][0] == 'a' and q not in seen:
                    seen.add(q)
                    for st, w in s.heap.get(q, {}).items():
                        if st[0] not in '!~':
                            todo.append((pre + (st,), w))
    for (fi, *_), s in run.engine.summaries.items():
        if fi.cached_function and s.ret.t & (CONTAINERS | {'C:' + c.qual for c in prog.classes.values() if c.name in MUTABLE_CLASSES}):
            q = fi.qual.replace('discretehelpers.', '')
            findings.append(Finding('shared-result', f'{q}: cached', f'all calls of {q} with equal arguments share one mutable result', fi.where()))
    if not allowed:
        raise AnalysisError('the documented outputs are not seen by the analysis')
    return findings, run.coverage(
        rule='no public operation reaches an output, file, clock, environment or random source, or writes state that outlives the call',
        effects_seen=n, documented_outputs=allowed,
        explanation='Obligations: every call of an external function that has an effect, every write to a module variable, class attribute, '
                    'function attribute or mutable default argument, and every returned reference to such an object, on every call path.')


# -- C16 -----------------------------------------------------------------------------------------------------------------
PROBES = {'discretehelpers.a.try_except.try_except', 'discretehelpers.a.is_error.is_error'}


def c16():
    run = Run()
    prog = run.prog
    signals = {q for q, c in prog.classes.items() if c.is_exception and c.name.endswith('Fail')}
    if len(signals) < 3:
        raise AnalysisError(f'only {len(signals)} control-flow signals found')
    findings = []
    raised = set()
    for r, s in run.pairs():
        # the helpers of a class package (walsh_perm.a, ...) are the internal side of the signal
        if r.cls is None and not r.label.startswith('discretehelpers.a.'):
            continue
        for x, chain in s.raises.items():
            raised.add(x)
            if x in signals:
                last = chain[-1]
                findings.append(Finding('signal-escapes', f'{r.label}: {x.rsplit(".", 1)[-1]} from {last[0].split(".", 1)[-1]}',
                                        f'{x} reaches the caller of {r.label}', last[1], chain_text(chain)))
    handlers = {}
    for (kind, qual, line, col, detail), (fi, node, chain) in run.engine.events.items():
        if kind != 'handler':
            continue
        names, caught = detail
        h = handlers.setdefault((qual, line, col), dict(fi=fi, node=node, names=set(), caught=set()))
        h['names'] |= set(names)
        h['caught'] |= set(caught)
    lib = lambda x: x in prog.classes
    caught_signals = set()
    for (qual, line, col), h in sorted(handlers.items()):
        caught_signals |= {x for x in h['caught'] if x in signals}
        if qual in PROBES:
            continue
        if h['names'] & {'*', 'builtins.Exception', 'builtins.BaseException'} and not passes_on(h['node']):
            findings.append(Finding('catches-everything', f'{qual.replace("discretehelpers.", "")}',
                                    'a handler for every exception hides unrelated failures', h['fi'].where(h['node'])))
            continue
        hidden = sorted(x for x in h['caught'] if lib(x) and x not in h['names'] and not reraises(h['node'])
                        and not any(lib(n) and n in prog.exc_ancestors(x) for n in h['names']))
        for x in hidden:
            findings.append(Finding('error-swallowed', f'{qual.replace("discretehelpers.", "")}: {x.rsplit(".", 1)[-1]}',
                                    f'the handler for {", ".join(sorted(h["names"]))} also catches {x}', h['fi'].where(h['node'])))
    for fi in sorted(run.engine.analysed_functions, key=lambda f: f.qual):
        for n in own_nodes(fi.node):
            if isinstance(n, ast.Try):
                for b in n.finalbody:
                    for x in ast.walk(b):
                        if isinstance(x, (ast.Return, ast.Break, ast.Continue)):
                            findings.append(Finding('error-swallowed', f'{fi.qual.replace("discretehelpers.", "")}: finally',
                                                    'leaving a finally block swallows every exception', fi.where(x)))
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                name = prog.dotted(fi.module, n.func) if hasattr(prog, 'dotted') else None
                if name in ('contextlib.suppress',):
                    findings.append(Finding('error-swallowed', f'{fi.qual.replace("discretehelpers.", "")}: suppress',
                                            'suppressed exceptions do not reach the caller', fi.where(n)))
    if not caught_signals:
        raise AnalysisError('no handler of a control-flow signal found')
    return findings, run.coverage(
        rule='no control-flow signal escapes a public operation; no handler catches a library exception it does not name',
        signals=sorted(x.rsplit('.', 1)[-1] for x in signals), handlers=len(handlers), exceptions_raised=len(raised),
        explanation='Obligations: every raise statement (also through helper functions that raise their argument) on every call path from a '
                    'public operation; every exception handler with the set of library exceptions that can arrive in it.')


def reraises(handler):
    return any(isinstance(n, ast.Raise) for n in ast.walk(handler))


def passes_on(handler):
    """Does the caught exception itself go on to the caller?"""
    for n in ast.walk(handler):
        if isinstance(n, ast.Raise):
            if n.exc is None or any(isinstance(x, ast.Name) and x.id == handler.name for y in (n.exc, n.cause) if y is not None for x in ast.walk(y)):
                return True
    return False

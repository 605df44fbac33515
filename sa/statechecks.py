"""
Checks that follow the state of one object through its operations: C04, C05, C13.
"""
import sys

from . import api
from .flow import Engine, Shape, E0, BOT
from .flowchecks import IN_PLACE, MUTABLE_CLASSES, chain_text
from .model import Program, FuncInfo
from .program import AnalysisError
from .report import Finding
from .typestate import CONDITIONAL, is_field

SELF = (('p', 'self'), ())
OTHER = (('p', 'other'), ())
LETTER_N = (Shape(frozenset(['str'])), frozenset([('str', 'N')]), E0)


class PartRun:
    """The engine on all operations of set partitions and equality/complement relations."""

    def __init__(self, extra=()):
        sys.setrecursionlimit(50000)
        self.prog = Program()
        self.engine = Engine(self.prog, max_rounds=25)
        self.engine.object_details = True
        self.classes = {}
        for name in sorted(MUTABLE_CLASSES):
            cs = [c for c in self.prog.classes.values() if c.name == name]
            if len(cs) != 1:
                raise AnalysisError(f'class {name} not found')
            self.classes[name] = cs[0]
            for n in IN_PLACE[name]:
                if not isinstance(cs[0].lookup(n), FuncInfo):
                    raise AnalysisError(f'in-place operation {name}.{n} not found')
        self.roots = [r for r in api.roots(self.prog) if r.cls is not None and r.cls.name in MUTABLE_CLASSES]
        # the initialisation in the case that decides about the conditional field
        for r in [r for r in self.roots if r.member == '__init__' and r.cls.name == 'SetPart']:
            if 'domain' not in r.shapes:
                raise AnalysisError('SetPart.__init__ has no argument `domain`')
            self.roots.append(api.Root(r.label + " (domain 'N')", r.fi, r.cls, r.member, {**r.shapes, 'domain': LETTER_N}, r.fresh))
        # initialisation of an object that is in use already
        for r in [r for r in self.roots if r.member == '__init__']:
            self.roots.append(api.Root(r.label + ' (again)', r.fi, r.cls, r.member, r.shapes, False))
        if len(self.roots) < 60:
            raise AnalysisError(f'only {len(self.roots)} operations found')
        self.summaries = self.engine.run_roots([(r.fi, r.shapes, r.fresh) for r in self.roots])

    def pairs(self):
        return zip(self.roots, self.summaries)

    def changing(self):
        """Operations that change the object they are called on."""
        for r, s in self.pairs():
            if not r.fresh and r.member != '__init__' and any(p[0] == ('p', 'self') for p, _, _ in s.effects):
                yield r, s

    def coverage(self, **more):
        e = self.engine
        d = dict(operations=len({r.label for r in self.roots}), argument_contexts=len(self.roots),
                 functions_analysed=len(e.analysed_functions), function_contexts=len(e.summaries),
                 call_sites_evaluated=e.stats['calls'], unresolved_calls=e.stats['unresolved'], fixpoint_rounds=e.rounds)
        d.update(more)
        return d


def dotted(path):
    return '.'.join([path[0][1], *path[1]])


def c04():
    run = PartRun()
    eng = run.engine
    findings = []
    changing = list(run.changing())
    seen_ops = {(r.cls.name, r.member) for r, s in changing}
    for cname in MUTABLE_CLASSES:
        for n in IN_PLACE[cname]:
            if (cname, n) not in seen_ops:
                raise AnalysisError(f'{cname}.{n} is no longer seen to change the object')
    for r, s in changing:
        if s.ts is None:
            raise AnalysisError(f'{r.label} never returns')
        for f in sorted((f for f in s.ts.may if f[0] == 'stale'), key=str):
            _, path, what, why = f
            kind = 'cached value' if what[0] == '@' else 'field'
            where = r.fi.where(r.fi.node)
            findings.append(Finding('outdated', f'{r.label}: {dotted(path)}.{what.lstrip("@")}',
                                    f'the {kind} {what.lstrip("@")} depends on {why.split(": ")[1]}, which {why.split(": ")[0]} changes, '
                                    f'but is not renewed on every path', where))
    for (kind, qual, line, col, detail), (fi, node, chain) in eng.events.items():
        if kind == 'stale-read':
            findings.append(Finding('outdated-read', f'{qual.replace("discretehelpers.", "")}: {detail}',
                                    f'{detail} is read after a change it depends on', fi.where(node)))
    # complete (re)initialisation: a field that is not assigned would keep the value of the former state
    fields_checked = 0
    for cname, c in run.classes.items():
        inits = [(r, s) for r, s in run.pairs() if r.cls is c and r.member == '__init__']
        assigned = {detail for r, s in inits for (p, kind, detail) in s.effects if kind == 'setattr' and p == SELF}
        if not assigned:
            raise AnalysisError(f'{cname}.__init__ assigns nothing')
        for r, s in inits:
            if s.ts is None:
                continue
            for f in sorted(assigned):
                if (cname, f) in CONDITIONAL and "'N'" not in r.label:
                    continue
                fields_checked += 1
                if ('def', SELF, f) not in s.ts.must and ('def', SELF, '*') not in s.ts.must:
                    findings.append(Finding('not-initialised', f'{cname}.{f}',
                                            f'{r.label} can finish without assigning {f}, so a reinitialised object keeps the old value',
                                            r.fi.where(r.fi.node)))
            if not r.fresh:
                for f in sorted((f for f in s.ts.may if f[0] == 'stale'), key=str):
                    if (cname, f[2]) in CONDITIONAL:
                        continue
                    findings.append(Finding('outdated', f'{cname}.__init__: {f[2].lstrip("@")}',
                                            f'{f[2].lstrip("@")} survives the reinitialisation', r.fi.where(r.fi.node)))
    caches = {n: sorted(eng.cache_reads.get(m, ())) for c in run.classes.values() for n, m in c.all_members().items()
              if isinstance(m, FuncInfo) and m.kind == 'cached'}
    if len(caches) < 4 or not all(caches.values()):
        raise AnalysisError(f'cached values of set partitions not found or without dependences: {caches}')
    derived = {cn: {k: sorted(v) for k, v in eng.derived_fields(c).items() if v} for cn, c in run.classes.items()}
    if not all(derived.values()):
        raise AnalysisError(f'no dependences between fields found: {derived}')
    return findings, run.coverage(
        changing_operations=len(seen_ops), changing_contexts=len(changing), cached_values=caches, derived_fields=derived,
        initialised_field_obligations=fields_checked,
        rule='on every path of an in-place operation, every cached value and every derived field is renewed after the last change of what it depends on',
        explanation='Obligations: (in-place operation, argument context) x (cached value or derived field that depends on a field it changes); '
                    '(initialisation context) x (field). Dependences of cached values are the fields read by their getters, transitively; '
                    'dependences between fields are the data dependences of the initialisation.')


def c05():
    run = PartRun()
    findings = []
    n = 0
    ops = set()
    for r, s in run.changing():
        n += 1
        ops.add(r.label)
        for (root, exc, cond), chain in sorted(s.late.items(), key=lambda kv: str(kv[0])):
            if root != 'self' or cond is not None and not cond:
                continue
            last = chain[-1]
            text = f'{exc.rsplit(".", 1)[-1]} can be raised after the object has been changed'
            if cond:
                text += f' (depends on the unchecked argument {", ".join(sorted(cond))})'
            findings.append(Finding('late-exception', f'{r.label}: {exc.rsplit(".", 1)[-1]}', text, last[1], chain_text(chain)))
    if len(ops) < 8:
        raise AnalysisError(f'only {len(ops)} in-place operations found')
    raising = sum(len(s.raises) for r, s in run.changing())
    if raising < 8:
        raise AnalysisError('the in-place operations hardly raise anything: the exceptions are not understood')
    return findings, run.coverage(
        in_place_operations=sorted(ops), contexts=n, exceptions_followed=raising,
        rule='no library exception leaves an in-place operation after the first change of the object; a repeated initialisation '
             'cannot fail, if every argument that flows into it has passed a guard before',
        explanation='Obligations: (in-place operation, argument context) x (exception it can raise, with call path).')


COMBINE = ['meet', 'join', '__le__', '__lt__']
OPTIONAL = ['_meet_prototype', '_join_prototype', '_join_prototype_improved', '__ge__', '__gt__']


def c13():
    run = PartRun()
    findings = []
    c = run.classes['SetPart']
    ops = 0
    domains = frozenset([(SELF[0], ('domain',)), (OTHER[0], ('domain',))])
    results = 0
    excs = [q for q, x in run.prog.classes.items() if x.is_exception and x.name == 'DomainsNotEqualError']
    if len(excs) != 1:
        raise AnalysisError('DomainsNotEqualError not found')
    for name in COMBINE:
        if not isinstance(c.lookup(name), FuncInfo):
            raise AnalysisError(f'SetPart.{name} not found')
    done = set()
    for r, s in run.pairs():
        if r.cls is not c or r.member not in COMBINE + OPTIONAL:
            continue
        if 'other' not in r.shapes:
            raise AnalysisError(f'{r.label} has no argument `other`')
        ops += 1
        done.add(r.member)
        where = r.fi.where(r.fi.node)
        if s.ts is None:
            findings.append(Finding('never-defined', r.label, f'{r.label} never returns', where))
            continue
        if ('eq', domains) not in s.ts.must:
            findings.append(Finding('unguarded', r.label, f'{r.label} can return without having compared the domains', where))
        if excs[0] not in s.raises:
            findings.append(Finding('unguarded', f'{r.label} (exception)', f'{r.label} never raises DomainsNotEqualError', where))
        # domain of the result
        for t in s.ret.t:
            if t != 'C:' + c.qual:
                continue
            for p in s.ret.p:
                results += 1
                if p[0][0] == 'p':
                    if p not in (SELF, OTHER):
                        findings.append(Finding('result-domain', r.label, f'the result is {dotted(p)}', where))
                    continue
                d = s.heap.get(p, {}).get('^domain', BOT)
                if not d.p or not d.p <= domains:
                    findings.append(Finding('result-domain', r.label, 'the domain of the result is not the domain of the operands', where))
    if not set(COMBINE) <= done or not results:
        raise AnalysisError('operations that combine set partitions not found')
    sites = 0
    guards = {fi.qual for fi, g in run.engine.guard_cache.items() if g}
    for (exc, qual, where), facts in sorted(run.engine.raise_facts.items()):
        if exc != excs[0] or qual in guards:
            continue
        sites += 1
        if not any(f[0] == 'ne' and len(f[1]) == 2 and all(p[1] and p[1][-1] == 'domain' for p in f[1]) for f in facts):
            findings.append(Finding('rejects-equal-domains', qual.replace('discretehelpers.', ''),
                                    'DomainsNotEqualError can be raised although the domains are equal', where))
    if not sites:
        raise AnalysisError('no place raises DomainsNotEqualError')
    return findings, run.coverage(
        combining_operations=ops, result_objects=results, guard_sites=sites,
        rule='on every path to a normal return the two domains have been compared and were equal; the exception is raised only if '
             'they were not; the domain of a result is the domain of an operand',
        explanation='Obligations: every operation that combines two partitions (facts at all its returns), every object it can return, '
                    'every place that raises the domain exception.')

"""
C12: every object is complete and every operation is wired up.
"""
import ast
import os

from . import api, names
from .flowchecks import Run, chain_text
from .program import AnalysisError, REPO
from .report import Finding
from .typestate import CONDITIONAL

SELF = (('p', 'self'), ())
MIN_CONSTRUCTED = 9                # classes with a constructor
MIN_SYMBOLS = 4000
MIN_USES = 3000

WORDS = {
    'no-attr': 'an attribute that does not exist',
    'no-setter': 'assigns a property without setter',
    'missing-arg': 'call without a required argument',
    'extra-arg': 'call with an argument the function does not take',
    'not-callable': 'calls something that is no function',
    'function-as-value': 'uses a function as if it were its result',
    'no-operation': 'operation the class does not define',
}


def short(qual):
    return qual.replace('discretehelpers.', '', 1)


def complete_fields(run):
    """Class -> the fields that every way of constructing an object assigns on every path."""
    res, contexts, taken = {}, 0, set()
    for root, s in run.pairs():
        if root.member != '__init__' or not root.fresh or s.ts is None:
            continue
        have = {f[2] for f in s.ts.must if f[0] == 'has' and f[1] == SELF}
        contexts += 1
        if '*' in have:
            taken.add(root.cls)     # takes over all fields of a complete object, or computes their names
            continue
        res[root.cls] = res[root.cls] & have if root.cls in res else have
    for c in taken:
        res.setdefault(c, None)
    return res, contexts


def c12():
    run = Run()
    eng = run.engine
    findings = []
    complete, contexts = complete_fields(run)
    if len(complete) < MIN_CONSTRUCTED:
        raise AnalysisError(f'only {len(complete)} classes with a constructor found')
    for c, fields in complete.items():
        if fields is not None and not fields:
            raise AnalysisError(f'the constructor of {c.name} assigns nothing on every path')
    reads = 0
    for root, s in run.pairs():
        for (path, cls, field), chain in s.needs.items():
            c = eng.cls('C:' + cls)
            reads += 1
            if (c.name, field) in CONDITIONAL:
                continue
            last = chain[-1]
            if root.fresh and path == SELF:
                findings.append(Finding('read-before-assigned', f'{root.label}: {field} in {short(last[0])}',
                                        f'{root.label} reads {field} on a path that has not assigned it', last[1], chain_text(chain)))
            elif complete.get(c) is not None and field not in complete[c]:
                # members of the class are named by the operation that fails, others by the place where it happens
                place = root.label if root.cls is c else f'{short(last[0])}: {c.name}.{field}'
                findings.append(Finding('incomplete-object', place,
                                        f'{root.label} needs {field}, which not every {c.name} has', last[1], chain_text(chain)))
    for (kind, qual, line, col, detail), (fi, node, chain) in sorted(eng.events.items(), key=str):
        if kind in WORDS:
            text = '.'.join(short(d) for d in detail) if isinstance(detail, tuple) else str(detail)
            # an attribute that a class lacks is named by the class, wherever it is used
            own = kind == 'no-attr' and detail[0] in eng.prog.classes
            findings.append(Finding(kind, text if own else f'{short(qual)}: {text}', f'{short(qual)}: {WORDS[kind]} ({text})', fi.where(node)))
    symbols = uses = functions = 0
    prog = run.prog
    for name, mod in sorted(prog.modules.items()):
        with open(os.path.join(REPO, mod.path)) as fh:
            source = fh.read()
        bad, n = names.undefined_names(source, mod.tree, mod.path, set(prog.ns.get(name, ())))
        symbols += n
        for scope, ident, line in bad:
            findings.append(Finding('undefined-name', f'{short(name)}.{scope}: {ident}', f'{ident} is not defined', f'{mod.path}:{line}'))
        for f in ast.walk(mod.tree):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                functions += 1
                bad, n = names.unbound_locals(f)
                uses += n
                for kind, ident, line in bad:
                    findings.append(Finding('unbound-name', f'{short(name)}.{f.name}: {ident}',
                                            f'{ident} is used on a path that has not assigned it', f'{mod.path}:{line}'))
    if symbols < MIN_SYMBOLS or uses < MIN_USES:
        raise AnalysisError(f'only {symbols} global and {uses} local uses of names found')
    return findings, run.coverage(
        constructor_contexts=contexts, complete_fields={c.name: sorted(f or ['?']) for c, f in sorted(complete.items(), key=lambda x: x[0].name)},
        field_reads_to_prove=reads, uses_of_values_judged=len(eng.judged), global_names=symbols, local_uses=uses, functions_with_locals=functions,
        rule='a field that is read has been assigned on every path of every constructor route; attributes, functions, operators and arguments '
             'exist for the types that can arrive; names are defined before use',
        explanation='Obligations: each read of a field on an object that the operation did not create (must be among the fields every '
                    'constructor context assigns on every path), each attribute access, call, operator and subscript (types from the '
                    'whole-program analysis), each use of a global name (symbol tables) and of a local name (definite assignment).')

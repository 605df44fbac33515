"""Writes MANIFEST.json from the table below (run by hand after changing the table)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CLAIMED = {
    'C01': ('module-initialisation order analysis',
            'Exhaustive over first imports and over the states reachable through function-level imports; the model of '
            'Python import semantics is trusted, third-party packages are assumed importable.'),
    'C02': ('interprocedural effect analysis',
            'All public entry points and all call paths below them; context-sensitive summaries of aliases and effects. Calls that '
            'cannot be resolved (counted in the evidence) are assumed to have no effect.'),
    'C03': ('interprocedural alias and escape analysis',
            'All constructors and in-place operations, all combinations of given and omitted arguments; containers at the same place '
            'of an object are not distinguished from each other.'),
    'C04': ('typestate and dependence analysis (derived values)',
            'All in-place operations of both partition classes; which value depends on which field is computed from the initialisers '
            'and from the readers of every cached value. That recomputed values are the right ones is not examined.'),
    'C05': ('exception-flow analysis against the set of changes already made',
            'All in-place operations of both partition classes and all call paths below them; an exception of a repeated '
            'initialisation counts when it depends on an argument the operation has not checked.'),
    'C06': ('interprocedural taint analysis (inexact arithmetic)',
            'All arithmetic in all function contexts; a value counts as unbounded when it comes from an argument, a power, a shift or a '
            'product of such values. External functions follow the models in sa/externals.py.'),
    'C07': ('interprocedural taint analysis (accidental order)',
            'All iterations, conversions and choices in all function contexts; orders hidden in unresolved calls are not seen.'),
    'C08': ('evaluation of the comparison methods over a finite domain of relations',
            'All comparison methods of five families, in every relation of two operands (less, equal, greater, incomparable); a method '
            'counts as wrong when its result is decided for a relation and is not the required one. Undecided results are counted.'),
    'C09': ('read-set comparison of ==, hash and text (interprocedural dependence analysis)',
            'All value classes: everything hash and text depend on must be determined by what == compares. That the texts themselves '
            'are faithful is not examined.'),
    'C10': ('abstract interpretation of constructors and converters over classes of arguments (intervals, types, element classes)',
            'A table of about 1060 (operation, class of arguments) pairs; possible exceptions are over-approximated, so an alarm means that the '
            'documented exception cannot be raised. Weakened guards that still reject some member of a class are not seen, and arguments '
            'outside the table are not examined.'),
    'C11': ('value numbering of the ways round loops and recursions',
            'All while loops, for loops and directly recursive functions. Alarms need a way round that leaves all its conditions as they '
            'are (or moves away from the end); loops for which neither that nor a decreasing quantity was found are counted as unknown.'),
    'C12': ('definite assignment of fields and names, type-based resolution of members, calls and operators',
            'All constructor contexts and all reads of fields below all public entry points, all names of all modules. Alarms need a '
            'definite lack (all possible types lack the member, a path exists that skips the assignment); computed attribute names '
            'are taken to define what they may define.'),
    'C13': ('must-analysis of guards and provenance of constructed objects',
            'All operations on two partitions and all exits; the domain of every result must come from an operand.'),
    'C14': ('interprocedural effect analysis (output, files, shared state)',
            'All call paths of all public entry points; the short list of documented printing and file helpers is part of the rule.'),
    'C15': ('value numbering of the ways through the functions that store canonical fields',
            'All constructor routes of seven classes and the in-place operations of relations. Alarms need an argument that reaches the '
            'field without any normalising step, or a text that follows the order of entries; whether a normalising step removes '
            'exactly the right entries is not examined.'),
    'C16': ('exception-flow analysis',
            'All raise statements, calls of raising helpers and handlers; exceptions of third-party code are not tracked.'),
}

NOT_BUILT = 'check not built yet'
NA = {
    'C17': 'value-level algebra: composition is data dependent (dict lookups, matrix products); no structural clause decides it',
    'C18': 'value-level: whether two converters are mutually inverse is arithmetic on all inputs, not a structural fact',
    'C19': 'value-level: minimality/maximality of the computed blocks is not visible in effects, types or dataflow',
    'C20': 'value-level: needs the semantics of truth-table expansion, i.e. execution or symbolic evaluation',
    'C21': 'value-level: linear-algebra identities over all truth tables',
    'C22': 'value-level: optimality of a search result',
}


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if p in CLAIMED:
            technique, note = CLAIMED[p]
            checks.append(dict(
                property=p, quick_cmd=f'python3 -m sa.check {p}', thorough_cmd=f'python3 -m sa.check {p}',
                technique=technique, level='other', level_note=note, evidence_file=f'evidence/{p}.json'))
        else:
            na.append(dict(property=p, reason=NA.get(p, NOT_BUILT)))
    m = dict(version=1, setup_cmd='python3 -m compileall -q sa', checks=checks, not_applicable=na,
             notes='All checks are static analyses of the syntax trees of /repo; nothing of the library is imported or run.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()

"""Entry point:  python3 -m sa.check C01"""
import sys

from . import report


def c01():
    from . import importsim
    report.run_check('C01', 'other', importsim.analyse, [
        'the standard library and the packages in requirements.txt are installed and import without error',
        'module-level code is straight-line: both branches of a non-constant top-level condition are followed',
    ])


FLOW = [
    'callers pass only what the library itself can produce or what they construct (no monkey patching, no exec)',
    'external functions behave as modelled in sa/externals.py (builtins, itertools, collections, numpy, bidict)',
    'unresolved calls (counted in the coverage) return arbitrary values and have no effect',
]


def _flow(name):
    from . import flowchecks
    report.run_check(name.upper(), 'other', getattr(flowchecks, name), FLOW)


def _state(name):
    from . import statechecks
    report.run_check(name.upper(), 'other', getattr(statechecks, name), FLOW)


def c02():
    _flow('c02')


def c03():
    _flow('c03')


def c04():
    _state('c04')


def c05():
    _state('c05')


def c06():
    _flow('c06')


def c07():
    _flow('c07')


def c08():
    from . import relate
    report.run_check('C08', 'other', relate.c08, [
        'the texts of Boolean functions are different for different functions (C09)',
        'entries of binary vectors are ordered as integers, sequences lexicographically',
        'join and meet are the bounds they are meant to be (value level, C19)',
    ])


def c09():
    from . import identity
    report.run_check('C09', 'other', identity.c09, FLOW + [
        'the fields listed in sa/identity.py as determined by others are so in every object (C15)',
    ])


def c10():
    from . import reject
    report.run_check('C10', 'other', reject.c10, [
        'builtin functions and operators behave as modelled in sa/reject.py; external functions raise no exception of the library',
        'containers that are changed in place are reachable only through the names and fields the analysis relates',
        'recursive calls raise what the outer calls raise',
    ])


def c11():
    from . import terminate
    report.run_check('C11', 'other', terminate.c11, FLOW + [
        'conditions of a loop that are not related by their value numbers can hold together',
        'external functions and iterators end',
    ])


def c12():
    from . import wiring
    report.run_check('C12', 'other', wiring.c12, FLOW)


def c13():
    _state('c13')


def c14():
    _flow('c14')


def c15():
    from . import canonical
    report.run_check('C15', 'other', canonical.c15, FLOW + [
        'functions that remove, filter or sort something do so completely (what they remove is a question of values)',
    ])


def c16():
    _flow('c16')


CHECKS = {k.upper(): v for k, v in list(globals().items()) if k[:1] == 'c' and k[1:].isdigit()}

if __name__ == '__main__':
    name = sys.argv[1]
    if name not in CHECKS:
        print(f'unknown property {name}')
        sys.exit(2)
    CHECKS[name]()

"""
C09: equal objects are interchangeable as dictionary keys.

What `==` compares is the identity of an object.  Its hash and its text may be made only of that: every field that they read
has to be compared by `==` or to follow from what is compared.
"""
import ast
import sys

from . import api, relate
from .flow import Engine
from .model import FuncInfo, Program
from .program import AnalysisError
from .report import Finding

SELF, OTHER = (('p', 'self'), ()), (('p', 'other'), ())
NAMES = {'__init__', '__eq__', '__hash__', '__str__', '__repr__'}
VALUES = ['Binv', 'Boolf', 'Perm', 'SigPerm', 'WalshPerm']
MUTABLE = ['SetPart', 'SetPartComp']

# fields that follow from other fields, by the definition of the class
DETERMINED = {
    'Binv': [('required_length', ['vector'])],
    'Perm': [('moved', ['mapping']), ('neutral', ['mapping', 'perilen']), ('length', ['mapping', 'perilen'])],
    'WalshPerm': [(f, ['vector_object']) for f in
                  ['matrix_minimal', 'degree', 'transpose_vector_object', 'perilen', 'length', 'neutral', 'mapping', 'moved']],
    'SigPerm': [('unsigned', ['binv']), ('unmoved', ['perm']), ('length', ['perm', 'binv']), ('neutral', ['perm', 'binv'])],
    'Boolf': [('valency', ['atomvals']), ('adicity', ['atomvals']), ('is_constant', ['root'])],
}
# what a Walsh permutation has in common with the equal permutation
SHARED = {'mapping', 'moved', 'neutral', 'perilen', 'length'}


def closure(name, fields):
    out = set(fields)
    more = True
    while more:
        more = False
        for f, of in DETERMINED.get(name, ()):
            if f not in out and set(of) <= out:
                out.add(f)
                more = True
    return out


def one_class(prog, name):
    cs = [c for c in prog.classes.values() if c.name == name]
    if len(cs) != 1:
        raise AnalysisError(f'class {name} not found')
    return cs[0]


def top(reads, param):
    """The fields of the object itself; for cached values the reads of their getters are in the list as well."""
    out = set()
    for p, f in reads:
        if p[0] == ('p', param):
            first = p[1][0] if p[1] else f
            if not first.startswith('@') and not first.startswith('['):
                out.add(first)
    return out


def run(prog, wanted, opaque=()):
    eng = Engine(prog, max_rounds=25)
    eng.opaque = set(opaque)
    roots = [r for r in api.roots(prog) if r.cls is not None and wanted(r)]
    return eng, list(zip(roots, eng.run_roots([(r.fi, r.shapes, r.fresh) for r in roots])))


def seen_through(prog, c, field):
    """The only thing about the field that `==` compares, if that leaves a difference unseen."""
    eq = next((b for b in c.mro() if isinstance(b.members.get('__eq__'), FuncInfo)), None)
    _, res, complete = relate.equality(prog, eq)
    if not complete:
        return None
    keys = [k for k in res if k is not None and (k == '.' + field or k.startswith(f'.{field}.') or f'(.{field}' in k)] or [k for k in res if k is not None]
    if len(keys) == 1 and keys[0] != '.' + field and (keys[0] == 'len' or keys[0].endswith(relate.LOSSY) or keys[0].startswith(('len(', 'sum(', 'set(', 'frozenset(', 'min(', 'max('))):
        return keys[0]
    return None


def own_text(prog, c, fi, assume):
    """The hash is known to be that of the object's own text, given the truth values of some fields."""
    fam = relate.Family(c.name, c, {}, faithful=['.perm'])
    ev = relate.Evaluator(prog, fam, 'inc')
    plain = ev.attribute
    ev.attribute = lambda v, n: relate.const(assume[n]) if v == ('obj', 'A') and n in assume else plain(v, n)
    try:
        r = ev.call(fi, [('obj', 'A')])
    except relate.TooMuch:
        return None
    return r


def c09():
    sys.setrecursionlimit(50000)
    prog = Program()
    findings = []
    classes = {n: one_class(prog, n) for n in VALUES + MUTABLE}
    eng, res = run(prog, lambda r: r.member in NAMES)
    reads, where = {}, {}
    for r, s in res:
        if r.member == '__init__':
            continue
        key = r.cls.name, r.member
        reads[key] = reads.get(key, frozenset()) | s.reads
        where[key] = r.fi.where(r.fi.node)
    identity, obligations = {}, 0
    for n in VALUES:
        c = classes[n]
        own = {m: c.members.get(m) for m in ('__eq__', '__hash__')}
        if not isinstance(c.lookup('__eq__'), FuncInfo):
            raise AnalysisError(f'{n}.__eq__ not found')
        obligations += 1
        h = c.lookup('__hash__')
        definer = next((b for b in c.mro() if '__eq__' in b.members or '__hash__' in b.members), c)
        if not isinstance(definer.members.get('__hash__'), FuncInfo):
            findings.append(Finding('unhashable', f'{n}', f'{definer.name} defines == but no hash, so {n} objects can not be keys', f'{definer.module.path}:{definer.node.lineno}'))
            continue
        got = reads[n, '__eq__']
        same = top(got, 'self') & top(got, 'other')
        if not same:
            raise AnalysisError(f'{n}.__eq__ compares no field')
        partly = {f: seen_through(prog, c, f) for f in same}
        same = {f for f in same if partly[f] is None or (f, [partly[f][1:]]) in DETERMINED.get(n, ())}
        identity[n] = same
        known = closure(n, same)
        for m in ('__hash__', '__str__', '__repr__'):
            if (n, m) not in reads:
                raise AnalysisError(f'{n}.{m} not found')
            for f in sorted(top(reads[n, m], 'self')):
                obligations += 1
                if f not in known:
                    what = {'__hash__': 'hash', '__str__': 'text', '__repr__': 'text'}[m]
                    findings.append(Finding('not-compared', f'{n}.{m}: {f}', f'the {what} depends on {f}, which == does not compare: equal objects with different {what}', where[n, m]))
        for x in ast.walk(h.node):
            if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == 'id' or ast.unparse(x.func) in ('object.__hash__', 'super().__hash__') and own['__hash__'] is h
                                            and not any('__hash__' in b.members for b in c.mro()[1:])):
                findings.append(Finding('by-identity', f'{n}.__hash__', 'the hash is that of the place in memory: equal objects have different hashes', h.where(x)))
    for n in MUTABLE:
        obligations += 1
        h = classes[n].lookup('__hash__')
        if isinstance(h, FuncInfo):
            findings.append(Finding('hash-of-mutable', n, 'objects that change in place have a hash', h.where(h.node)))
        if not isinstance(classes[n].lookup('__eq__'), FuncInfo):
            findings.append(Finding('hash-of-mutable', n, 'without == the objects are compared and hashed by their place in memory', f'{classes[n].module.path}:{classes[n].node.lineno}'))
    # across classes: a permutation can equal a Walsh permutation and an unsigned signed permutation
    across = {}
    walsh, sig = classes['WalshPerm'], classes['SigPerm']
    for c, assume in ((walsh, {}), (sig, {'unsigned': True}), (sig, {'unsigned': True, 'neutral': False})):
        h = c.lookup('__hash__')
        if not isinstance(h, FuncInfo) or not relevant(c, '__str__'):
            continue
        obligations += 1
        r = own_text(prog, c, h, assume)
        across[c.name] = str(r)
        if r == ('proj', 'A', 'hash(str)'):
            findings.append(Finding('different-hash', f'{c.name}.__hash__', f'the hash is that of the {c.name} text, but a Perm with another text can be equal', h.where(h.node)))
    _, res = run(prog, lambda r: r.member == '__init__' or r.cls is walsh and r.member == '__hash__', [('WalshPerm', 'mapping'), ('WalshPerm', 'moved')])
    for r, s in res:
        if r.member == '__hash__':
            for f in sorted(top(s.reads, 'self') - SHARED):
                obligations += 1
                findings.append(Finding('not-shared', f'WalshPerm.__hash__: {f}', f'the hash depends on {f}, which the equal Perm does not have', r.fi.where(r.fi.node)))
            across['WalshPerm reads'] = sorted(top(s.reads, 'self'))
    return findings, dict(
        classes=len(VALUES) + len(MUTABLE), identity={k: sorted(v) for k, v in identity.items()},
        reads={f'{k[0]}.{k[1]}': sorted(top(v, 'self')) for k, v in sorted(reads.items())}, across_classes=across,
        obligations=obligations, functions_analysed=len(eng.analysed_functions), function_contexts=len(eng.summaries),
        call_sites_evaluated=eng.stats['calls'], unresolved_calls=eng.stats['unresolved'], fixpoint_rounds=eng.rounds,
        rule='every field read by the hash or the text of an object is compared by ==, or follows from what is compared',
        explanation='Interprocedural read sets of ==, hash, str and repr; one obligation for each field read by hash, str or repr of a value class, '
                    'one per class for being hashable (or not, for mutable ones), and the hash is compared with that of the equal Perm across classes.')


def relevant(c, name):
    """The class has its own text."""
    return isinstance(c.members.get(name), FuncInfo)

"""
C10: classes of arguments that describe no object, with the documented exception (None: any exception of the library), and classes of valid ones.
"""
from .reject import num, const, coll, NONE, TOP, INF

NAT = num('int', 0, INF)
NEG = num('int', -INF, -2)
FRAC = num('float', -INF, INF)      # not whole
TEXT = ('str', 'x')
YES = const(True)
INT = num('int', -INF, INF)
BIT = num('int', 0, 1)


def c(v):
    """constants, lists, tuples, sets and dicts of abstract values"""
    if isinstance(v, list):
        return coll('list', [], items=tuple(c(x) for x in v))
    if isinstance(v, set):
        return coll('set', [(c(x), True) for x in v])
    if isinstance(v, dict):
        items = tuple((c(k), c(x)) for k, x in v.items())
        return ('map', 'dict', coll('list', [(k, True) for k, _ in items], len(items), len(items)),
                coll('list', [(x, True) for _, x in items], len(items), len(items)), None, None)
    if isinstance(v, tuple):
        if v and v[0] in ('num', 'none', 'str', 'coll', 'map', 'top', 'obj', 'type'):
            return v
        return coll('tuple', [], items=tuple(c(x) for x in v))
    return const(v)


def some(kind, *entries, origin=None, lo=None, hi=None):
    """a collection in which all these entries occur, at any place and any number of times"""
    return coll(kind, [(c(x), True) for x in entries], lo or len(set(map(c, entries))), hi or INF, origin)


def mapping(keys, vals, origin=None):
    return ('map', 'dict', coll('list', [(c(k), True) for k in keys], len(keys), INF), coll('list', [(c(v), True) for v in vals], 1, INF), None, origin)


def record(d, origin=None):
    items = tuple((c(k), c(v)) for k, v in d.items())
    return ('map', 'dict', coll('list', [], items=tuple(k for k, _ in items)), coll('list', [], items=tuple(v for _, v in items)), items, origin)


def ints(n, kind='list', each=NAT):
    """n numbers"""
    return coll(kind, [], items=(each,) * n)


def upto(hi, lo=-INF):
    return num('int', lo, hi)


def above(lo):
    return num('int', lo + 1, INF)


def obj(cls, **fields):
    return ('new', cls, {k: v for k, v in fields.items()})


A = ('arg',)
NOT_PERM = {('perm', A): False}
REPEATED = {('perm', A): False, ('distinct', A): False}
GAP = {('perm', A): False, ('distinct', A): True}
GOOD = {('perm', A): True, ('distinct', A): True, ('bijective', A): True, ('distinct', ('flat', A)): True}
OTHER = [('a text', TEXT), ('a number', const(5)), ('a fraction', FRAC), ('a truth value', YES)]
SETS = [('a set', c({0, 1})), ('a dict', mapping([0, 1], [0, 1]))]
BAD_NATURAL = [('-1', const(-1)), ('a negative number', NEG), ('a fraction', FRAC), ('a text', TEXT)]

PERM_FIN = obj('Perm', neutral=const(False), perilen=NONE, length=const(4), moved=c({0, 3}), mapping=mapping([0, 3], [0, 3]))
PERM_PER = obj('Perm', neutral=const(False), perilen=const(4), length=const(4), moved=c({0, 3}), mapping=mapping([0, 3], [0, 3]))
BINV = obj('Binv', vector=some('list', const(True), const(False), lo=4, hi=4), required_length=const(3))
WPERM = obj('WalshPerm', neutral=const(False), degree=const(3), perilen=const(8), length=const(8))
SIGPERM = obj('SigPerm', neutral=const(False), length=const(4))


def setpart(domain='N'):
    d = const(domain) if isinstance(domain, str) else c(domain)
    return obj('SetPart', domain=d, trivial=const(False), blocks=c([[1, 2], [4, 5]]), non_singletons=c({1, 2, 4, 5}), length=const(6))


BOOLF = obj('Boolf', valency=const(3), adicity=const(4), atomvals=c([0, 2, 3]), is_constant=const(False))


def cases():
    out = []

    def bad(target, what, exc, args=(), facts=None, me=None, **kw):
        out.append((target, what, exc, list(args), kw, facts or {}, me))

    def good(target, what, args=(), facts=None, me=None, **kw):
        out.append((target, what, 'valid', list(args), kw, facts or {}, me))

    # permutations
    P = 'perm.Perm'
    for what, v in OTHER + SETS[:1]:
        bad(P, what, 'ArgTypeError', [v])
    for what, v in (('fractions', FRAC), ('texts', TEXT), ('sets', c({1, 2})), ('nothing', NONE)):
        bad(P, f'list of {what}', 'ArgTypeError', [some('list', v)])
    for kind in ('list', 'tuple'):
        bad(P, f'{kind} with a repeated entry', 'SequenceError', [some(kind, NAT, origin=A)], REPEATED)
        bad(P, f'{kind} with a missing entry', 'SequenceError', [some(kind, NAT, origin=A)], GAP)
        bad(P, f'{kind} with a negative entry', 'SequenceError', [some(kind, NAT, -1, origin=A)], GAP)
    for what, v in (('a text', TEXT), ('nothing', NONE), ('a list', c([1])), ('a fraction', FRAC), ('below -1', NEG)):
        bad(P, f'number followed by {what}', 'SequenceError', [c([0, v])])
        bad(P, f'numbers followed by {what}', 'SequenceError', [c([NAT, NAT, v])])
        if what != 'a list':
            bad(P, f'dict with {what} as value', 'DictError', [record({0: 1, 1: v})])
    cyc = some('list', NAT)
    bad(P, 'cycles that share an entry', 'CyclesError', [some('list', cyc, origin=A)], {('distinct', ('flat', A)): False})
    for what, v in BAD_NATURAL:
        bad(P, f'cycle with {what}', 'CyclesError', [some('list', cyc, some('list', NAT, v))])
        bad(P, f'dict with {what} as key', 'DictError', [mapping([NAT, v], [NAT], A)], {('bijective', A): True})
    bad(P, 'tuple among the cycles', 'CyclesError', [c([cyc, some('tuple', NAT)])])
    bad(P, 'number among the cycles', 'CyclesError', [c([cyc, 7])])
    bad(P, 'dict with different keys and values', 'DictError', [mapping([NAT], [NAT], A)], {('bijective', A): False})
    bad(P, 'sequence of 3 entries from 1 to 2', 'SequenceError', [ints(3, each=num('int', 1, 2))])
    bad(P, 'sequence 0 and more than 1', 'SequenceError', [c([0, above(1)])])
    bad(P, 'cycles that share their first entry', 'CyclesError', [c([[1, num('int', 3, 4)], [1, num('int', 5, 6)]])])
    bad(P, 'cycle that ends with its first entry', 'CyclesError', [c([[1, above(1), 1]])])
    bad(P, 'dict with foreign value', 'DictError', [record({0: above(1), 1: 0})])
    bad(P, 'dict with repeated value', 'DictError', [record({0: 1, 1: 1, 2: num('int', 0, 2)})])
    d45 = lambda: record({4: 5, 5: 4}, A)
    for what, v in BAD_NATURAL:
        bad(P, f'period {what}', 'PeriodLengthNotNaturalError', [d45(), v], GOOD)
    for what, v in (('5', const(5)), ('1 to 4', upto(4, 1)), ('0', const(0))):
        bad(P, f'period {what} for moved 5', 'PerilenTooSmallError', [d45(), v], GOOD)
    for arg, what in ((some('list', NAT, origin=A), 'sequence'), (some('list', cyc, origin=A), 'cycles'), (d45(), 'dict'), (NONE, 'nothing'), (c([]), 'empty list')):
        good(P, what, [arg], GOOD)
        good(P, f'{what} with period', [arg, const(6)], GOOD)
    for what, v in OTHER + [('a binary vector', BINV)]:
        bad(P + '.__mul__', f'times {what}', 'OtherNotPermError', [v], me=PERM_FIN)
        bad(P + '.__eq__', f'compared with {what}', 'OtherNotPermError', [v], me=PERM_FIN)
    bad(P + '.__mul__', 'finite times periodic', 'OtherPerilenMismatchError', [PERM_PER], me=PERM_FIN)
    bad(P + '.__mul__', 'periodic times finite', 'OtherPerilenMismatchError', [PERM_FIN], me=PERM_PER)
    for what, v in (('3', const(3)), ('1 or 2', upto(2, 1)), ('0', const(0))):
        bad(P + '.sequence', f'length {what} below 4', 'LengthTooSmallError', [v], me=PERM_FIN)
    for v in (3, 5, 6):
        bad(P + '.sequence', f'length {v} for period 4', 'LengthMismatchPerilenError', [const(v)], me=PERM_PER)
        bad(P + '.cycles_dynamic', f'length {v} for period 4', 'LengthMismatchPerilenError', [const(v)], me=PERM_PER)
    bad(P + '.cycles_dynamic', 'finite permutation', 'NotPeriodicError', [], me=PERM_FIN)
    for v in (4, 8):
        good(P + '.sequence', f'length {v}', [const(v)], me=PERM_FIN)
        good(P + '.sequence', f'length {v} (periodic)', [const(v)], me=PERM_PER)

    # binary vectors
    B = 'binv.Binv'
    bits = some('list', 0, 1)
    given = dict(vector=bits, intval=const(5), exposet=c({0, 2}))
    bad(B, 'no arguments', 'ArgumentError')
    for lengths in ({}, {'length': const(9)}, {'minimal_length': const(9)}, {'length': const(9), 'minimal_length': const(9)}):
        tag = ''.join(' with ' + k for k in lengths)
        if lengths:
            bad(B, 'only' + tag, 'ArgumentError', **lengths)
        for names in (['vector', 'intval'], ['vector', 'exposet'], ['intval', 'exposet'], ['vector', 'intval', 'exposet']):
            bad(B, ' and '.join(names) + tag, 'ArgumentError', **{n: given[n] for n in names}, **lengths)
        for n in given:
            if n == 'vector' and 'length' in lengths:
                bad(B, 'vector' + tag, 'ArgumentError', vector=bits, **lengths)
            elif n != 'vector' or not lengths:
                good(B, n + tag, **{n: given[n]}, **lengths)
    for what, v in [('a number', const(5)), ('a fraction', FRAC), ('a truth value', YES)] + SETS:
        bad(B, f'vector is {what}', 'VectorTypeError', vector=v)
    for kind in ('list', 'tuple'):
        for e in (2, -1, TEXT, NEG):
            bad(B, f'{kind} with entry {e if isinstance(e, int) else e[0]}', 'VectorEntryError', vector=some(kind, 0, 1, e))
        for what, e in (('a fraction', FRAC), ('a fraction below 1', num('float', 0, 1)), ('nothing', NONE), ('a list', c([0])), ('a set', c({1}))):
            bad(B, f'{kind} with {what}', 'VectorEntryError', vector=some(kind, 0, 1, e))
    for text in ('012', '0a1', '1-'):
        bad(B, f'text with wrong digit {text}', 'VectorEntryError', vector=const(text))
    for what, v in BAD_NATURAL + [('a truth value', YES), ('a list', bits)]:
        bad(B, f'intval is {what}', 'IntvalError', intval=v)
        bad(B, f'intval is {what}, with length', 'IntvalError', intval=v, length=const(4))
    for what, v in [('a text', TEXT), ('a number', const(5)), ('a dict', mapping([0, 1], [0, 1]))]:
        bad(B, f'exposet is {what}', 'IndicesTypeError', exposet=v)
    for kind in ('set', 'list', 'tuple'):
        for what, v in BAD_NATURAL + [('a truth value', YES)]:
            bad(B, f'exposet {kind} with {what}', 'IndicesEntryError', exposet=some(kind, NAT, v))
            bad(B, f'exposet {kind} with {what}, with length', 'IndicesEntryError', exposet=some(kind, NAT, v), length=const(9))
        for v in (0, 4, 5):
            bad(B, f'exposet {kind} up to 5, length {v}', 'LengthError', exposet=some(kind, 2, 5), length=const(v))
        good(B, f'exposet {kind} up to 5, length 6', exposet=some(kind, 2, 5), length=const(6))
    for v in (0, 2):
        bad(B, f'intval 4, length {v}', 'LengthError', intval=const(4), length=const(v))
    good(B, 'intval 4, length 3', intval=const(4), length=const(3))
    for lengths in ({}, dict(length=const(3)), dict(length=const(0)), dict(minimal_length=const(3)), dict(minimal_length=const(0))):
        tag = ''.join(f' with {k} {v[2]}' for k, v in lengths.items())
        good(B, 'empty exposet' + tag, exposet=c([]), **lengths)
        good(B, 'intval 0' + tag, intval=const(0), **lengths)
    for v in (0, 1, 3, 9):
        good(B, f'intval 4, minimal length {v}', intval=const(4), minimal_length=const(v))
        good(B, f'exposet up to 2, minimal length {v}', exposet=c({0, 2}), minimal_length=const(v))
    good(B, 'empty list', [c([])])
    good(B, 'empty text', [const('')])
    good(B, 'list with minimal length', [c([0, 1])], minimal_length=const(5))
    good(B, 'text with spaces', [const('01 10')])

    # set partitions
    S = 'set_part.SetPart'
    for what, v in OTHER + [('a dict', mapping([0, 1], [0, 1]))]:
        bad(S, f'domain is {what}', 'DomainNotSetLikeError', [c([[1, 2]]), v])
        bad(S, f'domain is {what}, no blocks', 'DomainNotSetLikeError', [NONE, v])
    for dom in ('N', 'Z', 'finite'):
        d = const(dom) if dom != 'finite' else c({1, 2, 3})
        wrong = {'N': BAD_NATURAL, 'Z': BAD_NATURAL[2:], 'finite': [('0', const(0)), ('4', const(4)), ('a fraction', FRAC)]}[dom]
        for what, v in wrong:
            e = num('int', 1, 3)
            bad(S, f'element {what} in domain {dom}', 'NotInDomainError', [c([some('list', e, v)]), d])
            bad(S, f'element {what} in a later block in domain {dom}', 'NotInDomainError', [some('list', c([1, 2]), some('list', e, v)), d])
            bad(S + '.merge_pair', f'first is {what} in domain {dom}', 'NotInDomainError', [v, const(2)], me=setpart(dom if dom != 'finite' else {1, 2, 3}))
            bad(S + '.merge_pair', f'second is {what} in domain {dom}', 'NotInDomainError', [const(2), v], me=setpart(dom if dom != 'finite' else {1, 2, 3}))
        bad(S, f'overlapping blocks in domain {dom}', 'DuplicateElementsError', [some('list', some('list', 1, 2), some('list', 2, 3)), d])
        good(S, f'blocks in domain {dom}', [c([[1, 2]]), d])
        good(S, f'no blocks in domain {dom}', [NONE, d])
        good(S, f'labelled blocks in domain {dom}', [c([[1, 2]]), d], block_labels=mapping([(1, 2)], [TEXT]))
    bws = S + '.blocks_with_singletons'
    pair = c((0, 9))
    for dom in ('Z', {1, 2, 4, 5}):
        bad(bws, f'length for domain {"Z" if dom == "Z" else "finite"}', 'LengthNotAllowedError', me=setpart(dom), length=const(9))
    for dom in ('N', {1, 2, 4, 5}):
        bad(bws, f'range for domain {"N" if dom == "N" else "finite"}', 'RangeNotAllowedError', me=setpart(dom), range_pair=pair)
    for what, v in [('a text', TEXT), ('a fraction', FRAC)]:
        bad(bws, f'length is {what}', 'LengthWrongTypeError', me=setpart(), length=v)
        bad(bws, f'lower end is {what}', 'RangeWrongTypeError', me=setpart('Z'), range_pair=c((v, 9)))
        bad(bws, f'upper end is {what}', 'RangeWrongTypeError', me=setpart('Z'), range_pair=c((0, v)))
    for what, v in (('5', const(5)), ('1 to 4', upto(4, 1)), ('0', const(0))):
        bad(bws, f'length {what} below 6', 'LengthMismatchError', me=setpart(), length=v)
    for what, lo, hi in (('2', const(2), above(6)), ('more than 2', num('int', 3, 5), above(6))):
        bad(bws, f'range from {what}', 'RangeMismatchError', me=setpart('Z'), range_pair=c((lo, hi)))
    for what, lo, hi in (('5', upto(1), const(5)), ('less than 5', upto(1), num('int', 2, 4))):
        bad(bws, f'range to {what}', 'RangeMismatchError', me=setpart('Z'), range_pair=c((lo, hi)))
    bad(bws, 'elements is a number', 'ElementsWrongTypeError', me=setpart(), elements=const(5))
    bad(bws, 'elements is a text', 'ElementsWrongTypeError', me=setpart(), elements=TEXT)
    bad(bws, 'elements too few', 'ElementsMismatchError', me=setpart(), elements=c({1, 2, 4}))
    for kw in (dict(length=const(9), range_pair=pair), dict(length=const(9), elements=c({1, 2, 4, 5})), dict(range_pair=pair, elements=c({1, 2, 4, 5}))):
        bad(bws, ' and '.join(kw), 'TooManyArgumentsError', me=setpart(), **kw)
    for v in (6, 7):
        good(bws, f'length {v}', me=setpart(), length=const(v))
    good(bws, 'range 1 to 6', me=setpart('Z'), range_pair=c((1, 6)))
    good(bws, 'elements', me=setpart(), elements=c({1, 2, 4, 5}))
    ref = S + '.refine_block'
    bad(ref, 'blocks is a set', 'ArgTypeError', [c({1, 2})], me=setpart())
    bad(ref, 'blocks is a text', 'ArgTypeError', [TEXT], me=setpart())
    bad(ref, 'unknown block', 'ArgValueError', [c([[1], [4]])], me=setpart())
    bad(ref, 'labels is a text', 'ArgTypeError', [c([[1], [2]]), TEXT], me=setpart())
    bad(ref, 'too few labels', 'ArgValueError', [c([[1], [2]]), c(['p'])], me=setpart())

    # equality and complement relations
    R = 'set_part_comp.SetPartComp'
    bad(R, 'pairs without partition', 'CompWithoutPartError', [NONE, c([(1, 2)])])
    for what, v in OTHER + [('a tuple', c(([1, 2], [3, 4]))), ('a set', c({1, 2})), ('a dict', mapping([0, 1], [0, 1]))]:
        bad(R, f'partition is {what}', 'ArgTypeError', [v])
    bad(R, 'pair within a block', 'PartCompMismatchError', [c([[1, 2]]), c([(1, 2)])])
    for what, v in (('a text', TEXT), ('a fraction', FRAC), ('nothing', NONE)):
        bad(R, f'pair with {what}', 'NotInDomainError', [c([[1, 2]]), c([(1, v)])])
        bad(R, f'pair starting with {what}', 'NotInDomainError', [c([[1, 2]]), c([(v, 3)])])
    good(R, 'blocks and pairs', [c([[1, 2]]), c([(1, 3)])])
    good(R, 'nothing', [])

    # Boolean functions
    F = 'boolf.Boolf'
    tt = some('list', 0, 1, lo=4, hi=4)
    av = c([0, 2])
    one = dict(tt=tt, atom=NAT, fullspots=c({1, 2}), zhe=NAT, walsh_spectrum=ints(4, each=INT), multi_and=ints(2), multi_or=ints(2),
               multi_xor=ints(2), multi_xand=ints(2))
    bad(F, 'no arguments', 'ArgComboError')
    bad(F, 'only atomvals', 'ArgComboError', atomvals=av)
    bad(F, 'only arity', 'ArgComboError', arity=const(2))
    bad(F, 'fullspots without atomvals and arity', 'ArgComboError', fullspots=c({1, 2}))
    bad(F, 'fullspots with atomvals and arity', 'ArgComboError', fullspots=c({1, 2}), atomvals=av, arity=const(2))
    names = list(one)
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            bad(F, f'{a} and {b}', 'ArgComboError', **{a: one[a], b: one[b]})
    for n in ('atom', 'zhe', 'walsh_spectrum', 'multi_and', 'multi_or', 'multi_xor', 'multi_xand'):
        bad(F, f'{n} with atomvals', 'ArgComboError', **{n: one[n]}, atomvals=av)
        bad(F, f'{n} with arity', 'ArgComboError', **{n: one[n]}, arity=const(2))
    for what, v in [('a text', TEXT), ('a fraction', FRAC), ('a truth value', YES), ('a list', c([1]))]:
        bad(F, f'atom is {what}', 'ArgTypeError', atom=v)
    for n in ('multi_and', 'multi_or', 'multi_xor', 'multi_xand'):
        for what, v in [('a text', TEXT), ('a fraction', FRAC), ('nothing', NONE)]:
            bad(F, f'{n} with {what}', 'ArgTypeError', **{n: some('list', v)})
    for what, v in [('a number', const(5)), ('a fraction', FRAC)] + SETS:
        bad(F, f'truth table is {what}', 'ArgTypeError', tt=v)
        bad(F, f'truth table is {what}, with atomvals', 'ArgTypeError', tt=v, atomvals=av)
    for what, v in [('a number', const(1)), ('a text', TEXT), ('nothing', NONE)]:
        bad(F, f'skip_deflation is {what}', 'ArgTypeError', tt=tt, skip_deflation=v)
    for b in (True, False):
        bad(F, f'{b} with atomvals', 'ArgComboError', tt=const(b), atomvals=av)
        bad(F, f'{b} with arity', 'ArgComboError', tt=const(b), arity=const(2))
        bad(F, f'{b} with skip_deflation', 'ArgComboError', tt=const(b), skip_deflation=YES)
        good(F, f'{b}', tt=const(b))
    for sd in (True, False):
        tag = ' (not deflated)' if sd else ''
        kw = dict(skip_deflation=const(sd))
        bad(F, 'repeated atomvals' + tag, 'AtomvalsNotUniqueError', None or [], {('distinct', A): False}, tt=tt,
            atomvals=some('list', num('int', 0, INF), origin=A, lo=2, hi=2), **kw)
        for what, v in BAD_NATURAL[:2]:
            bad(F, f'atomvals with {what}' + tag, 'AtomvalNegativeError', None or [], {('distinct', A): True}, tt=tt,
                atomvals=some('list', 3, v, origin=A, lo=2, hi=2), **kw)
        for n in (1, 3):
            bad(F, f'{n} atomvals for 4 entries' + tag, 'SarityVectorMismatchError', None or [], {('distinct', A): True}, tt=tt,
                atomvals=c(list(range(n))), **kw)
        bad(F, 'empty truth table' + tag, 'ArgValueError', tt=c([]), **kw)
        bad(F, 'empty text' + tag, 'ArgValueError', tt=const(''), **kw)
        bad(F, 'truth table of length 3' + tag, 'ArgValueError', tt=some('list', 0, 1, lo=3, hi=3), **kw)
        for v in (3, 5, 6):
            for e in (0, 1):
                bad(F, f'constant truth table of {v} times {e}' + tag, 'ArgValueError', tt=some('list', e, lo=v, hi=v), **kw)
        for what, v in (('-1', const(-1)), ('below -1', NEG), ('a fraction', FRAC), ('a text', TEXT)):
            bad(F, f'number 0 with arity {what}' + tag, 'ArgValueError', tt=const(0), arity=v, **kw)
            bad(F, f'number with arity {what}' + tag, 'ArgValueError', tt=above(0), arity=v, **kw)
        for what, v in (('a fraction', FRAC), ('a text', TEXT), ('nothing', NONE)):
            bad(F, f'atomvals with {what}' + tag, 'ArgTypeError', tt=tt, atomvals=c([0, v]), **kw)
            bad(F, f'atomvals with {what} and a number with arity' + tag, 'ArgTypeError', tt=const(6), arity=const(2), atomvals=c([0, v]), **kw)
        bad(F, 'truth table with entry 2' + tag, 'VectorEntryError', tt=some('list', 0, 1, 2, lo=4, hi=4), **kw)
        good(F, 'truth table' + tag, tt=tt, **kw)
        for v in ('0', '1', '00', '0110'):
            good(F, f'text {v}' + tag, tt=const(v), **kw)
        good(F, 'one digit without atoms' + tag, tt=const('1'), atomvals=c([]), **kw)
        good(F, 'number 1 with arity 0' + tag, tt=const(1), arity=const(0), **kw)
        good(F, 'truth table with atomvals' + tag, tt=tt, atomvals=av, **kw)
        good(F, 'number with arity' + tag, tt=const(6), arity=const(2), **kw)
    for what, v in (('16', const(16)), ('more than 16', above(16))):
        bad(F, f'number {what} for arity 2', 'LengthError', tt=v, arity=const(2))
    for what, v in BAD_NATURAL[:2]:
        bad(F, f'number {what} with arity', 'IntvalError', tt=v, arity=const(2))
    for what, v in (('1', const(1)), ('above 1', above(1))):
        bad(F, f'spot {what} of a constant', 'ArgMismatchError', fullspots=some('set', v, hi=1), atomvals=c([]))
        bad(F, f'spot {what} of arity 0', 'ArgMismatchError', fullspots=some('set', v, hi=1), arity=const(0))
    for what, v in (('-1', const(-1)), ('below -1', NEG), ('a fraction', FRAC), ('a text', TEXT)):
        for spots in ([], {0}, {0, 1}):
            bad(F, f'{len(spots)} fullspots with arity {what}', 'ArgValueError', fullspots=c(spots), arity=v)
    for what, v in (('4', const(4)), ('above 4', above(4))):
        bad(F, f'spot {what} of 2 atoms', 'LengthError', fullspots=some('set', num('int', 0, 3), v), atomvals=av)
    for what, v in BAD_NATURAL[:2]:
        bad(F, f'spot {what}', 'IndicesEntryError', fullspots=some('set', num('int', 0, 3), v), atomvals=av)
        bad(F, f'zhe is {what}', 'ArgValueError', zhe=v)
    bad(F, 'zhe is a fraction', 'ArgValueError', zhe=FRAC)
    bad(F, 'zhe is a text', 'ArgValueError', zhe=TEXT)
    for n in ('atom', 'zhe', 'multi_and'):
        good(F, n, **{n: one[n]})
    good(F, 'fullspots with atomvals', fullspots=c({1, 2}), atomvals=av)
    good(F, 'fullspots with arity', fullspots=c({1, 2}), arity=const(2))
    good(F, 'no fullspots with arity', fullspots=c([]), arity=const(2))
    good(F, 'fullspot 0 without atoms', fullspots=c({0}), atomvals=c([]))
    good(F, 'atom 0', atom=const(0))
    good(F, 'zhe 0', zhe=const(0))
    for n in ('atom_pair_crossing', 'atom_pair_subset', 'atom_pair_intersect', 'atom_border_in_atom_side'):
        for what, a, b in (('1, 1', const(1), const(1)), ('3, 1', const(3), const(1)), ('1, 3', const(1), const(3)),
                           ('1, above 3', const(1), above(3)), ('above 3, 1', above(3), const(1)), ('1, negative', const(1), upto(-1))):
            bad(f'{F}.{n}', f'{what} of 3 atoms', 'NotPairOfAtomKeysError', [a, b], me=BOOLF)
    for what, v in BAD_NATURAL:
        bad(F + '.tt', f'arity is {what}', 'ValueError', [v], me=BOOLF)
    for what, v in (('3', const(3)), ('1 or 2', upto(2, 1)), ('0', const(0))):
        bad(F + '.tt', f'arity {what} below 4', 'ArgTooSmallError', [v], me=BOOLF)
    bad(F + '.tt', 'atomvals too few', 'ArgMismatchError', [c([0, 1, 3])], me=BOOLF)
    for n in ('apply', 'vals', 'val'):
        for k in (2, 4):
            bad(f'{F}.{n}', f'{k} arguments for 3 atoms', 'SarityMismatchError', [BIT] * k, me=BOOLF)
    for what, v in [('a text', TEXT), ('2', const(2)), ('above 2', above(2)), ('-1', const(-1)), ('negative', NEG), ('a fraction', FRAC)]:
        bad(F + '.val', f'first is {what}', 'UnexpectedArgumentError', [v, BIT, BIT], me=BOOLF)
        bad(F + '.val', f'last is {what}', 'UnexpectedArgumentError', [BIT, BIT, v], me=BOOLF)
    bad(F + '.vals', 'repeated atom', 'UnexpectedArgumentError', [const(0), const(1), const(1)], me=BOOLF)
    bad(F + '.vals', 'atom too big', 'UnexpectedArgumentError', [const(0), const(1), const(3)], me=BOOLF)
    bad(F + '.inflated_fullspots', 'number', 'WrongTypeError', [const(5)], me=BOOLF)
    bad(F + '.inflated_fullspots', 'text', 'WrongTypeError', [TEXT], me=BOOLF)
    bad(F + '.apply_sigperm', 'number', 'ValueError', [const(5)], me=BOOLF)

    # Walsh permutations
    W = 'walsh_perm.WalshPerm'
    v3, m2 = ints(2), coll('ndarray', [(NAT, True)], 2, 2)
    for kw in (dict(vector=v3, matrix=m2), dict(vector=v3, perm=ints(2)), dict(matrix=m2, perm=ints(2)), dict(vector=v3, matrix=m2, perm=ints(2))):
        for trust in (True, False):
            bad(W, ' and '.join(kw) + (' (trusted)' if trust else ''), 'TooManyArgumentsError', trust=const(trust), **kw)
    for trust in (True, False):
        tag = ' (trusted)' if trust else ''
        bad(W, 'matrix not square' + tag, 'NotSquareError', matrix=m2, trust=const(trust))
        bad(W, 'sequence with a repeated entry' + tag, 'NotEvenPermutationError', [], REPEATED, perm=some('list', NAT, origin=A, lo=4, hi=4), trust=const(trust))
        bad(W, 'sequence with a missing entry' + tag, 'NotEvenPermutationError', [], GAP, perm=some('list', NAT, origin=A, lo=4, hi=4), trust=const(trust))
        bad(W, 'sequence of length 3' + tag, 'PermLengthError', [], GOOD, perm=some('list', NAT, origin=A, lo=3, hi=3), trust=const(trust))
        bad(W, 'vector with negative entry' + tag, 'IntvalError', vector=c([-1, NAT]), trust=const(trust))
        for what, v in (('4', const(4)), ('above 4', above(4))):
            bad(W, f'vector of length 2 with {what}' + tag, 'LengthError', vector=c([num('int', 1, 3), v]), trust=const(trust))
    for n in ('sequence', 'cycles_dynamic'):
        bad(f'{W}.{n}', 'length and degree', 'RedundantParametersError', me=WPERM, length=const(8), degree=const(3))
        for v in (12, 9, 0):
            bad(f'{W}.{n}', f'length {v}', 'NotPowerOfTwoError', me=WPERM, length=const(v))
        for v in (4, 1):
            bad(f'{W}.{n}', f'length {v} below 8', 'RequestedDegreeSmallerActualDegreeError', me=WPERM, length=const(v))
        for what, v in (('2', const(2)), ('1', const(1)), ('0', const(0))):
            bad(f'{W}.{n}', f'degree {what} below 3', 'RequestedDegreeSmallerActualDegreeError', me=WPERM, degree=v)
    for n in ('vector', 'transpose_vector', 'matrix', 'complement_pattern'):
        for what, v in (('2', const(2)), ('1', const(1)), ('0', const(0))):
            bad(f'{W}.{n}', f'degree {what} below 3', 'RequestedDegreeSmallerActualDegreeError', [v], me=WPERM)
    V = 'walsh_perm.a.vector_class.Vector'
    for what, v in OTHER + [('a tuple', c((1, 2))), ('a set', c({1, 2}))]:
        bad(V, what, 'TypeError', [v])
    for what, v in BAD_NATURAL:
        bad(V, f'list with {what}', 'TypeError', [some('list', NAT, v)])
        bad(V, f'dict with key {what}', 'TypeError', [mapping([NAT, v], [NAT])])
        bad(V, f'dict with value {what}', 'TypeError', [mapping([NAT], [NAT, v])])

    # signed permutations
    G = 'sig_perm.SigPerm'
    bad(G, 'no arguments', 'ArgComboError')
    bad(G, 'only negations', 'ArgComboError', valneg=c({1}))
    bad(G, 'only negated keys', 'ArgComboError', keyneg=c({1}))
    bad(G, 'only permutation', 'ArgComboError', perm=ints(2))
    bad(G, 'only number of negations', 'ArgComboError', valneg_index=const(1))
    bad(G, 'pair and sequence', 'ArgComboError', pair=ints(2, 'tuple'), sequence=ints(2))
    sole = dict(pair=ints(2, 'tuple'), sequence=ints(2), matrix=c([[1, 0], [0, -1]]), schoute_perm=PERM_FIN)
    part = dict(valneg=c({1}), valneg_index=const(1), keyneg=c({1}), keyneg_index=const(1), perm=PERM_FIN, perm_index=const(1))
    for i, a in enumerate(sole):
        for b in list(sole)[i + 1:]:
            bad(G, f'{a} with {b}', 'ArgComboError', **{a: sole[a], b: sole[b]})
        for b in part:
            bad(G, f'{a} with {b}', 'ArgComboError', **{a: sole[a], b: part[b]})
    negations = list(part)[:4]
    for i, a in enumerate(negations):
        for b in negations[i + 1:]:
            for p in ('perm', 'perm_index'):
                bad(G, f'{a}, {b} and {p}', 'ArgComboError', **{n: part[n] for n in (a, b, p)})
        bad(G, f'{a}, perm and perm_index', 'ArgComboError', **{n: part[n] for n in (a, 'perm', 'perm_index')})
        bad(G, f'only {a} of these', 'ArgComboError', **{a: part[a]})
        for p in ('perm', 'perm_index'):
            good(G, f'{a} and {p}', **{a: part[a], p: part[p]})
    for what, v in [('a number', const(5)), ('a fraction', FRAC)]:
        bad(G, f'negations are {what}', 'ArgTypeError', valneg=v, perm=PERM_FIN)
    bad(G, 'repeated entry', 'SequenceError', [], {('perm', ('each', A, '*')): False}, sequence=some('list', NAT, origin=A))
    bad(G, 'schoute permutation is a text', 'ArgTypeError', schoute_perm=TEXT)
    for n in ('sequence', 'matrix'):
        for what, v in (('3', const(3)), ('1 or 2', upto(2, 1)), ('0', const(0))):
            bad(f'{G}.{n}', f'length {what} below 4', 'ValueError', [v], me=SIGPERM)

    # numbers
    for n in ('index_to_evil', 'index_to_odious', 'evil_to_index', 'odious_to_index'):
        for what, v in BAD_NATURAL[:2]:
            bad('a.' + n, what, 'ArgValueError', [v])
    for n in ('log_floor', 'log_ceil', 'log_int'):
        for what, v in [('0', const(0))] + BAD_NATURAL[:3]:
            bad('a.' + n, what, 'ArgValueError', [v])
        for v in (1, 2, 4):
            good('a.' + n, f'{v}', [const(v)])
    for n, exc in (('a.decimal_length', 'NotNaturalError'), ('binv.a.binary_length', 'NotNaturalError'), ('a.int_to_perm', 'ValueError'),
                   ('boolf.a.intval_to_arity', 'ArgValueError'), ('boolf.a.intval_to_tt_length', 'ArgValueError')):
        for what, v in BAD_NATURAL:
            bad(n, what, exc, [v])
        good(n, '5', [const(5)])
    for what, v in BAD_NATURAL + [('a truth value', YES)]:
        bad('a.hypercube_edges', what, 'ArgValueError', [v])
        bad('a.int_to_sierpinski_row', what, 'NotNaturalError', [v]) if v != YES else None
    bad('a.int_to_sierpinski_row', 'no arguments', 'ArgComboError')
    bad('a.int_to_sierpinski_row', 'both arguments', 'ArgComboError', [NAT, ints(2)])
    for what, v in [('a text', TEXT), ('a fraction', FRAC), ('a truth value', YES), ('nothing', NONE)]:
        bad('a.logic_str', what, 'ArgTypeError', [v])
        bad('a.logic_negate', what, 'ArgValueError', [v])
        bad('a.logic_abs_increase', f'first is {what}', 'ArgTypeError', [v, const(1)])
        bad('a.logic_abs_increase', f'second is {what}', 'ArgTypeError', [const(1), v])
    for what, v in (('2', const(2)), ('above 2', above(2)), ('-1', const(-1)), ('negative', NEG)):
        bad('a.logic_negate', f'negator {what}', 'ArgValueError', [INT, v])
    for what, v in (('-4', const(-4)), ('below -4', upto(-5))):
        bad('a.logic_abs_increase', f'3 plus {what}', 'ArgValueError', [const(3), v])
        bad('a.logic_abs_increase', f'-4 plus {what}', 'ArgValueError', [const(-4), v])
    good('a.logic_abs_increase', 'sinks to 0', [const(3), const(-3)])
    nv = 'a.logic_negate_vector'
    vals = ints(3)
    bad(nv, 'neither', 'ArgComboError', [vals])
    bad(nv, 'both', 'ArgComboError', [vals, ints(3, each=BIT), ints(1)])
    bad(nv, 'other length', 'ArgMismatchError', [vals, ints(2, each=BIT)])
    for what, v in (('2', const(2)), ('above 2', above(2))):
        bad(nv, f'entry {what}', 'ArgValueError', [vals, some('list', BIT, v, lo=3, hi=3)])
    bad(nv, 'negative', 'ArgValueError', [vals, NONE, some('list', 3, -1)])
    bad(nv, 'unknown value', 'ArgMismatchError', [ints(3, each=num('int', 3, 5)), NONE, some('list', 3, above(5))])
    bad('a.logic_abs_increase_vector', 'other length', 'ArgValueError', [vals, ints(2)])
    bad('a.sort_together', 'other length', 'LengthMismatchError', [vals, ints(2)])
    bad('a.sort_together', 'third has other length', 'LengthMismatchError', [vals, vals, ints(4)])
    good('a.sort_together', 'same length', [vals, vals])
    for what, v in OTHER:
        bad('a.vector_zip_apart', f'vector is {what}', 'NotListLikeError', [v, ints(2)])
        bad('a.vector_zip_apart', f'pattern is {what}', 'NotListLikeError', [ints(2), v])
    bad('a.vector_zip_apart', 'other length', 'LengthError', [ints(2), ints(3)])
    for what, v in BAD_NATURAL:
        bad('a.vector_zip_apart', f'pattern with {what}', 'NotNaturalError', [some('list', NAT, lo=2, hi=2), some('list', v, lo=2, hi=2)])
    for what, v in OTHER + [('a dict', mapping([0, 1], [0, 1]))]:
        bad('a.other_entry_in_pair', f'pair is {what}', 'WrongTypeError', [v, const(1)])
    for n in (1, 3):
        bad('a.other_entry_in_pair', f'{n} entries', 'WrongLengthError', [ints(n), NAT])
    bad('a.other_entry_in_pair', 'foreign entry', 'EntryNotInPairError', [ints(2, each=num('int', 1, 2)), above(2)])
    good('a.other_entry_in_pair', 'entry', [c([1, 2]), const(1)])
    for what, a, b in (('1, 1', const(1), const(1)), ('3, 1', const(3), const(1)), ('1, 3', const(1), const(3)), ('above 3, 1', above(3), const(1)),
                       ('1, above 3', const(1), above(3)), ('1, negative', const(1), upto(-1))):
        bad('a.make_transposition', f'{what} of 3', 'ArgValueError', [a, b, const(3)])
    good('a.make_transposition', '0, 2 of 3', [const(0), const(2), const(3)])
    for n in ('a.make_linear_binv', 'a.make_linear_boolf'):
        kw = dict(arity=const(3)) if n.endswith('binv') else {}
        bad(n, 'walsh and leader', 'ArgComboError', walsh=const(3), leader=const(1), **kw)
        bad(n, 'walsh and quadrant', 'ArgComboError', walsh=const(3), quadrant=const(1), **kw)
        bad(n, 'leader without quadrant', 'ArgComboError', leader=const(3), **kw)
        bad(n, 'quadrant without leader', 'ArgComboError', quadrant=const(3), **kw)
        bad(n, 'parity with leader', 'ArgComboError', leader=const(1), quadrant=const(1), parity=const(1), **kw)
        for what, v in (('2', const(2)), ('above 2', above(2)), ('-1', const(-1)), ('negative', NEG)):
            bad(n, f'parity {what}', 'ArgValueError', walsh=const(3), parity=v, **kw)
        for what, v in (('4', const(4)), ('above 4', above(4)), ('-1', const(-1)), ('negative', NEG)):
            bad(n, f'quadrant {what}', 'ArgValueError', leader=const(1), quadrant=v, **kw)
    bad('a.make_linear_binv', 'no arity', 'ArgComboError', walsh=const(3))
    for what, v in (('0', const(0)), ('negative', upto(-1))):
        bad('a.make_linear_binv', f'arity {what}', 'ArgValueError', walsh=const(3), arity=v)
    for what, v in (('8', const(8)), ('above 8', above(8))):
        bad('a.make_linear_binv', f'{what} for arity 3', 'ArgTooBigError', walsh=v, arity=const(3))
    sp = 'a.sierpinski'
    bad(sp, 'unknown orientation', 'ArgValueError', [const('xx')], degree=const(2))
    bad(sp, 'degree and size', 'ArgComboError', [const('tl')], degree=const(2), size=const(4))
    bad(sp, 'neither degree nor size', 'ArgComboError', [const('tl')])
    for what, v in (('0', const(0)), ('negative', upto(-1))):
        bad(sp, f'degree {what}', 'ArgValueError', [const('tl')], degree=v)
    for what, v in (('1', const(1)), ('below 1', upto(0))):
        bad(sp, f'size {what}', 'ArgTooSmallError', [const('tl')], size=v)
    bad(sp, 'size 6', 'ArgValueError', [const('tl')], size=const(6))
    for what, v in (('0', const(0)), ('negative', upto(-1))):
        bad('boolf.a.praetor_int', f'arity {what}', 'ArgTooSmallError', [const(0), v])
    for what, v in (('256', const(256)), ('above 256', above(256))):
        bad('boolf.a.praetor_int', f'{what} for arity 3', 'ArgTooBigError', [v, const(3)])
        bad('boolf.a.symmetric_to_index', f'{what} for arity 3', 'ArgTooBigError', [v, const(3)])
    for what, v in OTHER + [('a set', c({1, 2}))]:
        bad('a.inventory_dict', what, 'ArgTypeError', [v])
        bad('a.inventory_partition', what, 'ArgTypeError', [v])
    bad('boolf.a.mod_tt_neg', 'text', 'ArgTypeError', [BINV, TEXT])
    bad('boolf.a.mod_tt_neg', 'fraction', 'ArgTypeError', [BINV, FRAC])
    # more members and helpers
    for d1, d2 in (('N', 'Z'), ('Z', 'N'), ('N', {1, 2, 4, 5}), ({1, 2, 4, 5}, 'N'), ('Z', {1, 2, 4, 5}), ({1, 2, 4, 5}, {1, 2, 4, 5, 6})):
        for n in ('meet', 'join', '__eq__', '__le__'):
            bad(f'{S}.{n}', f'domains {d1} and {d2}', 'DomainsNotEqualError', [setpart(d2)], me=setpart(d1))
    for dom in ('N', 'Z'):
        bad(S + '.singletons', f'domain {dom}', 'DomainNotFiniteError', me=setpart(dom))
    for what, v in BAD_NATURAL:
        bad(S + '.add_label_to_element', f'element {what}', 'UnknownElementError', [v, TEXT], me=setpart())
    bad(S + '.add_label_to_element', 'foreign element', 'UnknownElementError', [above(5), TEXT], me=setpart({1, 2, 4, 5}))
    for n in ('left_rank', 'right_rank'):
        bad(f'{P}.{n}', 'periodic permutation', 'PermNotFiniteError', me=PERM_PER)
    for what, v in OTHER + SETS + [('nothing', NONE)]:
        bad(G + '.__eq__', f'compared with {what}', 'ValueError', [v], me=SIGPERM)
    big = lambda n: obj('Boolf', valency=const(n), adicity=num('int', n, INF), is_constant=const(False))
    for n, k in (('ec_clan', 5), ('ec_faction', 5), ('ec_family', 10)):
        for m in (k + 1, k + 2):
            bad(f'{F}.{n}', f'{m} atoms', 'ArgNotFeasibleError', me=big(m))
    for n in ('ec_clan', 'ec_faction'):
        for what, v in (('3', const(3)), ('1 or 2', upto(2, 1)), ('0', const(0)), ('negative', upto(-1))):
            bad(f'{F}.{n}', f'arity {what} below 4', 'ArgTooSmallError', [v], me=BOOLF)
    names = lambda k: c(['abcdef'[i] for i in range(k)])
    for n in ('bundles_pretty', 'filtrated_pairs_pretty', 'fullspot_atoms_pretty', 'hypersplits_potential_cores_pretty', 'hypersplits_pretty'):
        for k in (0, 2, 4):
            bad(f'{F}.{n}', f'{k} names for 3 atoms', 'ArgMismatchError', [names(k)], me=BOOLF)
        bad(f'{F}.{n}', 'repeated name', 'ArgMismatchError', [c(['a', 'b', 'b'])], me=BOOLF)
    for what, v in (('8', const(8)), ('above 8', above(8))):
        bad(F + '.bloatless_spotint', f'{what} for 3 atoms', 'TooBigError', [v], me=BOOLF)
    bad(F + '.filtrated_boolf', 'atom that does not occur', 'AtomvalsMismatchError', [c([0, 1])], me=BOOLF)
    bad(F + '.filtrated_boolf', 'atom too big', 'AtomvalsMismatchError', [c([0, above(3)])], me=BOOLF)
    blighted = obj('Boolf', valency=const(3), adicity=const(4), atomvals=c([0, 2, 3]), is_constant=const(False), is_blightless=const(False), is_male=const(False),
                   is_root=const(False))
    for n, exc in (('bundle_grid_partitions', 'BoolfNotBlightlessError'), ('gapless_boolf', 'BoolfNotBlightlessError'), ('hypersplits', 'NotBlightlessError'),
                   ('family_malerep', 'ValueError'), ('ec_clan_matrix', 'NotSpreadlessError')):
        bad(f'{F}.{n}', 'function without the required property', exc, me=blighted)
    for what, v in OTHER + [('a tuple', c((1, 2))), ('a set', c({1, 2})), ('nothing', NONE)]:
        bad('a.key_tuples', what, 'ArgNotContainerError', [v])
    good('a.key_tuples', 'empty list', [c([])])
    for what, v in (('another text', TEXT), ('upper case', const('AND')), ('a number', const(1)), ('nothing', NONE)):
        bad('a.multigrade_bitwise', f'operator is {what}', 'ArgValueError', [ints(3), v])
    good('a.multigrade_bitwise', 'and', [ints(3), const('and')])
    for n in ('boolf.a.index_to_noble', 'boolf.a.noble_to_index', 'boolf.a.noble_to_quadrant', 'boolf.a.noble_to_royal_and_quadrant', 'boolf.a.noble_to_royal'):
        for what, v in (('1', const(1)), ('above 1', above(1)), ('negative', upto(-1))):
            bad(n, f'{what} for arity 0', 'ArgTooBigError', [v, const(0)])
        good(n, '0 for arity 0', [const(0), const(0)])
    for what, v in (('16', const(16)), ('above 16', above(16))):
        bad('boolf.a.index_to_noble', f'{what} for arity 3', 'ArgTooBigError', [v, const(3)])
    for what, v in (('255', const(255)), ('256', const(256)), ('above 256', above(256))):
        for trust in (True, False):
            bad('boolf.a.noble_to_index', f'{what} for arity 3' + (' (trusted)' if trust else ''), 'ArgTooBigError', [v, const(3), const(trust)])
    for k in (0, 2, 4):
        bad('boolf.a.spread_sigperm_to_sigvar', f'spread of length {k} for 3', 'ArgValueError', [ints(3), ints(k)])
    for k in (0, 3, 5, 128):
        bad('binv.a.to_pretty_string', f'length {k}', 'PrettyLengthError', [coll('list', [(BIT, True)] if k else [], k, k)])
    vector = obj('Vector', length=const(4), mapping=mapping([0, 3], [1, 5]))
    for what, v in (('3', const(3)), ('1 or 2', upto(2, 1)), ('0', const(0)), ('negative', upto(-1))):
        bad(V + '.extend_to_length', f'{what} below 4', 'ExtendedLengthTooSmallError', [v], me=vector)

    return out

"""P10: TypedDict validation honours required, optional, unknown and inherited keys."""

from lib import model as M
from lib import texpr as T
from lib import vals as V
from lib.gen import strategy
from lib.typing_check import CHANGES, Judge, mutate

RULE = ('A case is a TypedDict (typing or typing_extensions, up to three inheritance layers of either totality, markers, nested '
        'types and TypedDicts, or itself), bare or inside another type, and 2-8 dictionaries: valid, with keys dropped, added, changed. '
        'Non-trivial: it has required and optional keys, or layers, and both an accepted and a rejected value.')
EXAMPLES = {'quick': 7000, 'thorough': 300000}


def member(src):
    c = src.below(6)
    if c == 5:
        return T.tdspec(src, T.leaf)
    return T.types_shallow(src) if c > 2 else T.leaf(src)


def gen(src):
    rec = src.chance(4)
    td = T.recursive(src, member) if rec else T.tdspec(src, member)
    s = td
    how = src.pick(['bare', 'bare', 'bare', 'list', 'dict', 'opt', 'seq'])
    if how == 'list':
        s = ('list', 't', td)
    elif how == 'dict':
        s = ('dict', 'b', ('c', 'str'), td)
    elif how == 'opt':
        s = ('union', 'O', (td,))
    elif how == 'seq':
        s = ('tup', 't', (('c', 'int'), td))
    keys = T.td_keys(td[1])
    values = []
    for _ in range(src.int(2, 8)):
        c = src.below(8)
        if rec and how == 'bare' and c < 6:
            v = T.rec_value(src, s)
        elif c == 7 and how == 'bare' and src.bool():
            # many wrong items
            v = {k: src.one(lambda r: None, T.atoms, T.anyval, lambda r: T.valid(r, x)) for k, (x, _) in keys.items() if src.below(6)}
        elif c == 7:
            v = T.typed_value(src, s)
        elif c < 3 and how == 'bare':
            # any subset of the keys, with valid values, perhaps one unknown key
            v = {k: T.valid(src, x) for k, (x, _) in keys.items() if src.below(4)}
            if src.chance(4):
                v[src.pick(T.TD_KEYS + [1, None, ('a',)])] = T.atoms(src)
            twins = [k for k in v if k in T.TWINS]
            if twins and src.bool():
                k = src.pick(twins)
                v[T.TWINS[k]] = v[k] if src.chance(3) else v.pop(k)
            if src.chance(4):
                v = src.pick([V.DictSub, V.MissDict])(v)
        elif c < 5:
            v = T.valid(src, s)
        else:
            v = T.near(src, s, T.valid(src, s))
        values.append((v, src.pick(['init', 'update', 'assign']), src.pick(CHANGES)))
    return s, values


def cases(tier):
    return strategy(gen)


def inner(s):
    if s[0] == 'td':
        return s
    return [x for x in T.children(s) if x[0] == 'td'][0]


def run(o, case, rec):
    s, values = case
    j = Judge(o, s)
    td = inner(s)
    keys = T.td_keys(td[1])
    yes = no = 0
    for v, how, change in values:
        v = V.clone(v)
        try:
            expect = T.conforms(s, v)
        except T.Ambiguous:
            rec.label('outside the domain')
            continue
        keep = V.text(v)
        rec.checks += j.check(v, expect, how)
        M.check(V.text(v) == keep, 'the value was modified: %s -> %r', keep, v)
        if change is not None and mutate(j, s, v, how, change, rec):
            rec.label('changed in place and judged again')
        yes, no = yes + expect, no + (not expect)
    reqs = {r for _, r in keys.values()}
    rec.nt((len(reqs) == 2 or len(td[1][2]) > 1) and yes and no)
    rec.label('recursive' if td[1][0] == 'Rec' else 'not recursive')
    rec.label('layers %d' % len(td[1][2]))
    rec.label('keys: ' + ('required and optional' if len(reqs) == 2 else 'required' if True in reqs else 'optional' if reqs else 'none'))
    rec.label('accepted+rejected' if yes and no else 'accepted' if yes else 'rejected')
    rec.label('in ' + s[0])

'''
Session scripts: what to call, with what.  Every generator takes a random
source and a scale and yields sessions {"id", "ev": [event, ...]}.  The
events name the contract's clauses they are to be judged by (chk); what the
right results are is left to the specification.
'''
import itertools
import json
import random

DEFAULT_O = {'nt': -1, 'w': [], 'om': 'd', 'rp': 'd', 'k': -1, 'rnd': 'd', 'lam': 'd', 'perm': 'd'}


def opts(**kw):
    o = dict(DEFAULT_O)
    o.update(kw)
    return o


def compositions(n):
    '''All segmentations of n units.'''
    for bits in itertools.product([0, 1], repeat=n - 1):
        yield masses_of_bits(bits)


def masses_of_bits(bits):
    out, m = [], 1
    for b in bits:
        if b:
            out.append(m)
            m = 1
        else:
            m += 1
    return out + [m]


def bits_of_masses(masses):
    n = sum(masses)
    bits = [0] * (n - 1)
    p = 0
    for m in masses[:-1]:
        p += m
        bits[p - 1] = 1
    return bits


def positions(masses):
    return [i + 1 for i, m in enumerate(masses) for _ in range(m)]


# ------------------------------------------------------- random segmentations

def size(r, big=True, lo=2):
    x = r.random()
    if x < 0.55 or not big:
        return r.randint(lo, 12)
    if x < 0.9:
        return r.randint(10, 45)
    if x < 0.985:
        return r.randint(40, 130)
    return r.randint(260, 420)


def bits(r, n):
    kind = r.random()
    if kind < 0.08:
        return [0] * (n - 1)
    if kind < 0.14:
        return [1] * (n - 1)
    if kind < 0.2:
        k = r.randint(1, max(1, n // 2))
        return [1 if (i + 1) % k == 0 else 0 for i in range(n - 1)]
    p = r.choice([0.05, 0.15, 0.3, 0.5, 0.8])
    return [1 if r.random() < p else 0 for _ in range(n - 1)]


def perturb_bits(r, bs, reach=3):
    bs = list(bs)
    ends = [i for i, b in enumerate(bs) if b]
    for i in ends:
        x = r.random()
        if x < 0.45:
            j = i + r.choice([-1, 1]) * r.randint(1, reach)
            if 0 <= j < len(bs) and not bs[j]:
                bs[i], bs[j] = 0, 1
        elif x < 0.55:
            bs[i] = 0
    if bs and r.random() < 0.5:
        bs[r.randrange(len(bs))] ^= 1
    return bs


def pair_bits(r, big=True, lo=2):
    n = size(r, big, lo)
    a = bits(r, n)
    x = r.random()
    if x < 0.06:
        b = list(a)
    elif x < 0.65:
        b = perturb_bits(r, a, r.choice([1, 1, 2, 3, 5]))
    else:
        b = bits(r, n)
    if r.random() < 0.5:
        a, b = b, a
    return a, b


def pair_masses(r, big=True, lo=2):
    a, b = pair_bits(r, big, lo)
    return masses_of_bits(a), masses_of_bits(b)


def type_pool(r):
    return r.choice([[1], [1, 2], [1, 2], [1, 2, 3], [1, 2, 3], [2, 3], [1, 3], [1, 5, 9], [3, 4, 7, 8], [10, 20, 300],
                     [1, 2, 3, 4, 5], [2, 400], [257, 258, 1000], [5], [0], [0, 1], [0, 1, 2], [-1], [-2, -1, 0], [-3, 0], [-5, -2], [-2, 0, 3], [-7, -5], [0, 2, 900]])


def string(r, n, pool):
    kind = r.random()
    if kind < 0.06:
        return [[] for _ in range(n)]
    p = r.choice([0.1, 0.25, 0.45, 0.7])
    return [sorted(t for t in pool if r.random() < p) for _ in range(n)]


def perturb_string(r, s, pool, reach=3):
    t = [set(x) for x in s]
    for i, x in enumerate(s):
        for d in x:
            y = r.random()
            if y < 0.3:
                j = i + r.choice([-1, 1]) * r.randint(1, reach)
                if 0 <= j < len(t) and d not in t[j] and d in t[i]:
                    t[i].discard(d)
                    t[j].add(d)
            elif y < 0.5:
                t[i].discard(d)
                t[i].add(r.choice(pool))
            elif y < 0.6:
                t[i].discard(d)
    if t and r.random() < 0.5:
        t[r.randrange(len(t))] ^= {r.choice(pool)}
    return [sorted(x) for x in t]


def pair_string(r, big=True, pool=None):
    pool = pool or type_pool(r)
    n = size(r, big) - 1
    if len(pool) > 3:
        n = min(n, 60)
    a = string(r, n, pool)
    x = r.random()
    if x < 0.05:
        b = [list(y) for y in a]
    elif x < 0.7:
        b = perturb_string(r, a, pool, r.choice([1, 1, 2, 3, 6]))
    else:
        b = string(r, n, r.choice([pool, type_pool(r)]))
    if r.random() < 0.5:
        a, b = b, a
    return a, b


def nt_choice(r):
    return r.choice([-1, -1, 1, 2, 3, 3, 4, 5, 6, 8, 12]) if r.random() < 0.96 else r.choice([7, 9, 10, 15, 20, 33])


# ------------------------------------------------------------- segmentations

CONTAINERS = ['list', 'tuple']
LABS = ['int', 'big', 'neg', 'str', 'char', 'float', 'tuple', 'none', 'object', 'mixed', 'alike', 'prefix', 'case', 'close',
        'falsy', 'clashing', 'sets', 'lists', 'equal']
FILLS = [None, 'dash', 'x', 'varied']


def dress(r, f, bs):
    '''A segmentation in format f, given by its boundaries (0/1 per position).'''
    m = masses_of_bits(bs)
    c = r.choice(CONTAINERS)
    if f == 'mass':
        return {'f': f, 'v': m, 'c': c}
    if f == 'position':
        return {'f': f, 'v': positions(m), 'c': c, 'lab': r.choice(LABS)}
    if f == 'nltk':
        return {'f': f, 'v': list(bs), 'lab': r.choice(FILLS)}
    return {'f': 'sets', 'v': [[1] if b else [] for b in bs], 'c': c, 'lab': r.choice(['set', 'frozenset'])}


def dress_string(r, s):
    return {'f': 'sets', 'v': disorder(r, s), 'c': r.choice(CONTAINERS), 'lab': r.choice(['set', 'frozenset'])}


def disorder(r, s):
    '''The sets listed (so, built) in any order.'''
    return [r.sample(x, len(x)) for x in s] if r.random() < 0.6 else s


SHAPES = {'pos': {'pos': ['seg', 'seg'], 'hyp': '', 'ref': '', 'dataset': ''},
          'kw': {'pos': [], 'hyp': 'seg', 'ref': 'seg', 'dataset': ''},
          'dspos': {'pos': ['ds'], 'hyp': '', 'ref': '', 'dataset': ''},
          'dskw': {'pos': [], 'hyp': '', 'ref': '', 'dataset': 'ds'},
          'ds2pos': {'pos': ['ds', 'ds'], 'hyp': '', 'ref': '', 'dataset': ''},
          'ds2kw': {'pos': [], 'hyp': 'ds', 'ref': 'ds', 'dataset': ''}}


def metric(fn, a, b, o=None, shape='pos', r=None, **kw):
    f = a['f']
    e = {'op': 'metric', 'fn': fn, 'kind': 'pair', 'a': a, 'b': b, 'f': f, 'o': o or opts(),
         'shape': SHAPES[shape] if isinstance(shape, str) else shape, 'chk': ['value']}
    e['fopt'] = 'omit' if f == 'mass' and (r is None or r.random() < 0.6) else (r.choice(['enum', 'str']) if r else 'enum')
    if r and r.random() < 0.4:
        e['one'] = True         # one object for what is equal
    if r and (e['o'].get('w') or e['o'].get('rnd', 'd') != 'd') and r.random() < 0.3:
        e['o'] = dict(e['o'], wrap=r.choice(['object', 'method', 'partial']))
    e.update(kw)
    return e


def metric_ds(fn, d, o=None, shape='dspos', d2=None, **kw):
    e = {'op': 'metric', 'fn': fn, 'kind': 'ds2' if d2 else 'ds', 'd': d, 'f': d['f'], 'o': o or opts(),
         'shape': SHAPES[shape] if isinstance(shape, str) else shape, 'chk': ['value']}
    if d2:
        e['d2'] = d2
    e.update(kw)
    return e


def lo_of(r, f):
    '''The least number of units; a text of one unit has no empty encoding
    as masses and positions.'''
    return 1 if f in ('mass', 'position') and r.random() < 0.3 else 2


def edit_formats(r):
    return r.choice(['mass', 'mass', 'position', 'nltk', 'sets', 'sets', 'types', 'types', 'types'])


def pair_for_edits(r, big=True, f=None):
    '''Two segmentations for a metric based on edit distance.'''
    f = f or edit_formats(r)
    if f == 'types':
        a, b = pair_string(r, big)
        return dress_string(r, a), dress_string(r, b)
    a, b = pair_bits(r, big, lo_of(r, f))
    return dress(r, f, a), dress(r, f, b)


def pair_for_windows(r, big=True, f=None):
    f = f or r.choice(['mass', 'mass', 'position', 'nltk'])
    a, b = pair_bits(r, big, lo_of(r, f))
    return dress(r, f, a), dress(r, f, b)


W_A = ['a', 'a', 'a2', 'a_half', 'a_side', 'a_type', 'a_zero', 'a_base']
W_S = ['s', 's_scale', 's_scale', 's_args', 's_dir', 's_zero', 's_base', 's_half']
W_T = ['t', 't_scale', 't_scale', 't_args', 't_pos', 't_zero', 't_base', 't_half']


def weight_choice(r):
    x = r.random()
    if x < 0.15:
        return []
    if x < 0.35:
        return ['a', 's', 't']
    if x < 0.45:
        return ['a_half', 's_half', 't_half']
    if x < 0.52:
        return ['a4', 's4', 't4']
    return [r.choice(W_A), r.choice(W_S), r.choice(W_T)]


def fair_weights(r):
    '''Weights that do not depend on which of the two is compared to which.'''
    while True:
        w = weight_choice(r)
        if not set(w) & set(['a_side', 's_dir']):
            return w


# ------------------------------------------------------------------ datasets

ITEMS = ['02', '007', 'item1', 'item2', 'doc', 'text-7', 'ch1', 'Ch1', 'i 1', 'x.y', '1', '2', u'caf\u00e9', u'cafe\u0301', 'a/b', 'z"q', 'zz', '']
CODERS = ['01', '007', 'c1', 'c2', 'c10', 'ann', 'Ann', 'b.b', '1', '2', '10', 'x y', u'\u00fc', u'u\u0308', "o'", 'coder-with-a-long-name', 'zed', '', '0']


def odd_name(r):
    '''A name of any characters (but commas, which separate the names of a
    comparison).'''
    return ''.join(r.choice(u'aA1 .#-_/"\'\\%&+=~:;|(){}[]<>?!*@^`$\u00e9\u4e2d') for _ in range(r.choice([1, 1, 2, 3, 6])))


def names_of(r, pool, k, odd=0.12):
    '''k different names.'''
    out = []
    if k <= 7 and r.random() < 0.08:
        # every one a number
        return r.sample(['1', '2', '02', '10', '007', '3', '0'], k)
    for x in r.sample(pool, k):
        if r.random() < odd:
            y = r.choice([odd_name(r), ' ' + x, x + ' ', '#' + x, x.upper(), x + '.0'])
            if y not in pool and y not in out:
                x = y
        out.append(x)
    return out


def shape_of(r, items, coders):
    '''How many texts and coders: mostly few, now and then many of either.'''
    x = r.random()
    if x < 0.06:
        return r.randint(8, 20), r.randint(min(2, coders), 3)
    if x < 0.12:
        return r.randint(1, 2), r.randint(5, 10)
    if x < 0.14:
        return 1, r.randint(11, 14)
    if x < 0.15:
        return r.randint(6, 8), 5
    return r.randint(1, items), r.randint(min(2, coders), coders)


def dataset(r, f, items, coders, big=False, partial=False, cls='Dataset', intcoders=False, dims=None, string_pool=None, sparse=False):
    '''A dataset of `items' texts; coders code all of them unless partial.'''
    names = names_of(r, ITEMS, items) if items <= len(ITEMS) else names_of(r, ITEMS + ['text %d' % j for j in range(40)], items)
    pool_of_types = r.choice([[1, 2, 3], [1, 2, 3], [1, 2, 3], [0, 1, 2], [-1, 0, 4], [2, 5]])
    pool = [str(x) for x in r.sample(r.choice([range(40), range(coders), range(-1, coders)]), coders)] if intcoders else names_of(r, CODERS, coders)
    c = r.choice(CONTAINERS)
    lab = r.choice(LABS) if f == 'position' else r.choice(FILLS) if f == 'nltk' else r.choice(['set', 'frozenset'])
    rows = []
    for name in names:
        n = size(r, big, 3)
        base = bits(r, n)
        if sparse:
            base = [1 if r.random() < 0.2 else 0 for _ in range(n - 1)]
            base[r.randrange(n - 1)] = 1
        row = []
        who = [x for x in pool if not partial or r.random() < 0.75]
        r.shuffle(who)
        if f == 'types':
            tp = string_pool or pool_of_types
            s = string(r, n - 1, tp)
        for x in who:
            if f == 'types':
                v = [list(y) for y in s] if r.random() < 0.1 else perturb_string(r, s, tp)
            else:
                bs = perturb_bits(r, base, 2) if r.random() < 0.75 else bits(r, n)
                v = dress(r, f, bs)['v']
            row.append([x, v])
        rows.append([name, row])
    return {'f': 'sets' if f == 'types' else f, 'items': rows, 'c': c, 'lab': lab, 'cls': cls,
            'coders': 'int' if intcoders else 'str', 'fmt': r.choice(['str', 'enum', 'dyn']),
            'how': r.choice(['init', 'init', 'assign', 'later', 'later']), 'shared': r.random() < 0.35}


def pack(events, per=30, prefix='s'):
    '''Independent events into sessions.'''
    out = []
    events = list(events)
    for i in range(0, len(events), per):
        out.append({'id': '%s%d' % (prefix, i // per), 'ev': events[i:i + per]})
    return out


def number(sessions, prefix):
    for i, s in enumerate(sessions):
        s['id'] = '%s-%d' % (prefix, i)
    return sessions


def sample(r, xs, k):
    xs = list(xs)
    return xs if len(xs) <= k else r.sample(xs, k)


# ============================================================== C01 conversions

def gen_C01(r, scale):
    ev = []
    top = 7 if scale == 1 else 10
    for n in range(1, top + 1):
        for m in compositions(n):
            c = r.choice(CONTAINERS)
            for conv in ('m2p', 'm2p2m', 'm2s'):
                ev.append({'op': 'conv', 'conv': conv, 'v': m, 'c': c, 'chk': ['conversion', 'intact']})
    for n in range(0, 8 if scale == 1 else 11):
        for bs in itertools.product([0, 1], repeat=n):
            ev.append({'op': 'conv', 'conv': 'n2m', 'v': list(bs), 'lab': r.choice(FILLS), 'chk': ['conversion']})
    for n in range(1, 6 if scale == 1 else 8):
        for p in itertools.product([1, 2, 3], repeat=n):
            if n < 5 or r.random() < 0.3:
                ev.append({'op': 'conv', 'conv': 'p2m', 'v': list(p), 'lab': r.choice(LABS), 'c': r.choice(CONTAINERS),
                           'chk': ['conversion', 'intact']})
    for _ in range(200 * scale):
        n = size(r, True, 1)
        bs = bits(r, n)
        m = masses_of_bits(bs)
        c = r.choice(CONTAINERS)
        for conv in ('m2p', 'm2p2m', 'm2s'):
            ev.append({'op': 'conv', 'conv': conv, 'v': m, 'c': c, 'chk': ['conversion', 'intact']})
        ev.append({'op': 'conv', 'conv': 'p2m', 'v': positions(m), 'lab': r.choice(LABS), 'c': c, 'chk': ['conversion', 'intact']})
        labels = [r.randint(1, 4) for _ in range(min(n, 60))]
        ev.append({'op': 'conv', 'conv': 'p2m', 'v': labels, 'lab': r.choice(LABS), 'c': c, 'chk': ['conversion']})
        sym = r.choice(['1', '0', 'b', '|', '.', '*', '+', '\\', '\n', ' ', '-', '[', '^', '$', '(', '|', u'\u2022'])
        ev.append({'op': 'conv', 'conv': 'n2m', 'v': bs, 'sym': sym, 'kw': r.random() < 0.4, 'chk': ['conversion']})
        ev.append({'op': 'conv', 'conv': 'n2m', 'v': bs, 'lab': r.choice(FILLS), 'chk': ['conversion']})
        if _ % 4 == 0:
            # two characters that are nearly the same
            sym, fill = r.sample(r.choice(['bB', 'xX', u'\u00e9e', u'\u00e9\u00c9', '1l', 'oO0', u'\u0131iI', ' \t', '\n\r', u's\u017f', u'\uff111']), 2)
            ev.append({'op': 'conv', 'conv': 'n2m', 'v': bs, 'sym': sym, 'fill': fill, 'chk': ['conversion']})
    for _ in range(10 * scale):
        m = [r.randint(200, 900) for _ in range(r.randint(1, 4))]
        if _ % 2:
            # one segment of very many units, among a few small ones
            m = [r.randint(1, 5) for _ in range(r.randint(0, 2))] + [r.randint(1000, 2300)] + [r.randint(1, 5) for _ in range(r.randint(0, 2))]
        for conv in ('m2p', 'm2p2m', 'm2s'):
            ev.append({'op': 'conv', 'conv': conv, 'v': m, 'c': 'list', 'chk': ['conversion', 'intact']})
    for _ in range(20 * scale):
        # more than 256 segments
        m = [r.choice([1, 1, 1, 2]) for _ in range(r.randint(258, 300) if _ else 1030)] if _ % 4 == 0 else [r.randint(1, 3) for _ in range(40)]
        for conv in ('m2p', 'm2p2m', 'm2s'):
            ev.append({'op': 'conv', 'conv': conv, 'v': m, 'c': 'tuple', 'chk': ['conversion', 'intact']})
        ev.append({'op': 'conv', 'conv': 'p2m', 'v': positions(m), 'lab': r.choice(LABS), 'c': 'list', 'chk': ['conversion']})
    r.shuffle(ev)
    return pack(ev, 60)


# ========================================================= C02 formats are equal

def gen_C02(r, scale):
    out = []

    def variant(fn, f, A, B, o, key, base):
        a, b = dress(r, f, A), dress(r, f, B)
        e = metric(fn, a, b, o, r=r)
        if base:
            e['key'] = key
            e['chk'] = ['notanerror']
        else:
            e['ref'] = key
            e['chk'] = ['same']
        return e
    for i in range(260 * scale):
        A, B = pair_bits(r, i % 3 == 0)
        ev = []
        for fn in r.sample(['B', 'S', 'bcm', 'stats', 'pk', 'wd'], 3):
            o = opts()
            if fn in ('pk', 'wd'):
                if r.random() < 0.4:
                    o['k'] = r.randint(1, max(2, len(A)))
                if r.random() < 0.3:
                    o['rnd'] = r.choice(['floor', 'ceil', 'int'])
                if fn == 'wd' and r.random() < 0.4:
                    o['lam'] = 'T'
            else:
                o['nt'] = nt_choice(r)
                o['w'] = weight_choice(r) if r.random() < 0.3 else []
            if fn not in ('bcm', 'stats'):
                if r.random() < 0.25:
                    o['om'] = 'T'
                if r.random() < 0.25:
                    o['rp'] = 'T'
            fs = ['mass', 'position', 'nltk'] + (['sets'] if fn in ('B', 'S', 'bcm', 'stats') else [])
            ev.append(variant(fn, 'mass', A, B, o, fn, True))
            for f in fs + ['position', r.choice(fs)]:
                ev.append(variant(fn, f, A, B, o, fn, False))
        out.append({'ev': ev})
    for i in range(45 * scale):
        # datasets: the same codings in every format
        n_items, n_coders = r.randint(1, 3), r.randint(2, 4)
        base = proper(dataset(r, 'nltk', n_items, n_coders, sparse=True))
        fns = r.sample(['B', 'S', 'bcm', 'pk', 'wd', 'aa', 'pi', 'kappa', 'bias', 'wsize'], 4)
        ev = []
        for fn in fns:
            o = opts()
            if fn not in ('pk', 'wd', 'wsize'):
                o['nt'] = nt_choice(r)
            if r.random() < 0.3 and fn not in ('bcm', 'wsize'):
                o['rp'] = 'T'
            fs = ['mass', 'position', 'nltk', 'sets'] if fn not in ('pk', 'wd', 'wsize') else ['mass', 'position', 'nltk']
            if fn == 'wsize':
                fs = ['mass', 'position']
            cmp_ = r.choice(['B', 'S'])
            for j, f in enumerate(fs + [r.choice(fs)]):
                d = dict(base)
                d['f'] = f
                d['c'] = r.choice(CONTAINERS)
                d['lab'] = r.choice(LABS) if f == 'position' else r.choice(FILLS) if f == 'nltk' else r.choice(['set', 'frozenset'])
                d['items'] = [[i, [[c, dress(r, f, v)['v']] for c, v in row]] for i, row in base['items']]
                if fn in ('aa', 'pi', 'kappa', 'bias'):
                    d['cls'] = r.choice(['Dataset', 'dict'])
                    e = {'op': 'agree', 'fn': fn, 'd': d, 'cmp': cmp_, 'o': o}
                elif fn == 'wsize':
                    e = {'op': 'wsize', 'kind': 'ds', 'd': d, 'o': o}
                else:
                    e = metric_ds(fn, d, o)
                if j == 0:
                    e['key'] = fn
                    e['chk'] = ['notanerror']
                else:
                    e['ref'] = fn
                    e['chk'] = ['same']
                ev.append(e)
        out.append({'ev': ev})
    return number(out, 'C02')


# ============================================= C03-C06 boundary edit distance

def bed(a, b, nt, chk, r=None, **kw):
    e = {'op': 'bed', 'a': a, 'b': b, 'nt': nt, 'chk': list(chk)}
    if r:
        e['a'], e['b'] = disorder(r, a), disorder(r, b)
        e['c'] = r.choice(CONTAINERS)
        e['lab'] = r.choice(['set', 'frozenset'])
        e['style'] = r.choice(['pos', 'kw', 'pos3'])
        e['one'] = r.random() < 0.3
    e.update(kw)
    return e


def subsets(types):
    return [list(c) for k in range(len(types) + 1) for c in itertools.combinations(types, k)]


def exhaustive_strings(L, types):
    return [list(s) for s in itertools.product(subsets(types), repeat=L)]


def bed_inputs(r, scale):
    out = []
    for L, types, nts, share in ((2, [1, 2, 3], [-1, 2], 1.0), (3, [1, 2], [1, -1, 3], 0.12 if scale == 1 else 1.0),
                                 (5, [1], [-1, 3, 4, 5], 0.25 if scale == 1 else 1.0),
                                 (6, [1], [2, 3, 6], 0.02 if scale == 1 else 0.5),
                                 (3, [1, 2, 3], [2, 3], 0.0 if scale == 1 else 0.02)):
        strings = exhaustive_strings(L, types)
        for a in strings:
            for b in strings:
                if r.random() < share / (4 if L == 2 and scale == 1 else 1):
                    out.append((a, b, r.choice(nts)))
    for _ in range(900 * scale):
        a, b = pair_string(r, True)
        out.append((a, b, nt_choice(r)))
    for _ in range(150 * scale):
        # rich positions: many types at few positions
        pool = r.sample(range(1, 12), r.randint(3, 6))
        n = r.randint(1, 5)
        mk = lambda: [sorted(t for t in pool if r.random() < 0.5) for _ in range(n)]
        out.append((mk(), mk(), r.choice([-1, 2, 3, 4])))
    for _ in range(150 * scale):
        # chains of near misses of one or two types
        n = r.randint(4, 30)
        pool = r.choice([[1], [1, 2]])
        a = [[] for _ in range(n)]
        b = [[] for _ in range(n)]
        for i in range(n):
            for t in pool:
                x = r.random()
                if x < 0.4:
                    (a if (i + t) % 2 else b)[i].append(t)
                elif x < 0.6:
                    r.choice([a, b])[i].append(t)
        out.append((a, b, r.choice([-1, 2, 3, 4, 5, 7])))
    for _ in range(40 * scale):
        # very many types at a position of one of the two
        pool = list(range(1, r.randint(8, 13)))
        n = r.randint(1, 4)
        a = [sorted(r.sample(pool, r.randint(0, 2))) for _ in range(n)]
        b = [sorted(r.sample(pool, r.randint(0, 2))) for _ in range(n)]
        i = r.randrange(n)
        a[i] = sorted(r.sample(pool, r.randint(6, len(pool))))
        if r.random() < 0.4:
            b[i] = sorted(r.sample(pool, r.randint(6, len(pool))))
        if r.random() < 0.5:
            a, b = b, a
        out.append((a, b, r.choice([-1, 2, 3, 4])))
    for _ in range(60 * scale):
        # a near miss as far apart as can be told, or one further
        d = r.choice([3, 4, 5, 8, 11, 15, 16, 17, 20, 24, 31, 33, 40, 64, 65])
        n = d + r.randint(1, 12)
        a, b = [[] for _ in range(n)], [[] for _ in range(n)]
        i = r.randrange(n - d)
        t = r.choice([1, 2, 9])
        a[i], b[i + d] = [t], [t]
        for _j in range(r.choice([0, 0, 1, 3])):
            j = r.randrange(n)
            for x in r.choice([(a,), (b,), (a, b)]):
                if r.choice([1, 2, 3]) not in x[j]:
                    x[j] = sorted(set(x[j] + [r.choice([1, 2, 3])]))
        if r.random() < 0.5:
            a, b = b, a
        out.append((a, b, r.choice([d, d + 1, d + 1, d + 2, 2 * d])))
    for _ in range(3 * scale):
        # long texts
        n = r.randint(500, 1100)
        a = [[r.randint(1, 2)] if r.random() < 0.03 else [] for _i in range(n)]
        out.append((a, perturb_string(r, a, [1, 2]), r.choice([-1, -1, 3])))
    return [x for x in out if cheap(x[0], x[1])]


def fact(n):
    return 1 if n < 2 else n * fact(n - 1)


def cheap(a, b):
    '''The library tries all pairings of a position's types: keep that feasible.'''
    return all(fact(len(set(x) - set(y))) * fact(len(set(y) - set(x))) <= 6000 for x, y in zip(a, b))


def gen_bed(chk):
    def go(r, scale):
        ev = [bed(a, b, nt, chk, r) for a, b, nt in bed_inputs(r, scale)]
        r.shuffle(ev)
        return pack(ev, 50)
    return go


def on_other_python(sessions, share):
    '''Copies of some sessions for the other interpreter.'''
    return sessions + [dict(s, id=s['id'] + '-cpython', python='cpython') for s in sessions[:max(2, int(len(sessions) * share))]]


def gen_C03(r, scale):
    ev = []
    for _ in range(60 * scale):
        # types beyond the integers that interpreters share
        a, b = pair_string(r, False, r.choice([[257, 258, 1000], [300], [2, 400], [100000, 100001]]))
        ev.append(bed(a, b, nt_choice(r), ['account', 'intact'], r))
    out = on_other_python(pack(ev, 30, 'big'), 1) + gen_bed(['account', 'intact'])(r, scale)
    return out


gen_C04 = gen_bed(['nearest'])


def gen_C05(r, scale):
    # all ways to divide a few types between the sides (a share of them), each
    # at a position of its own
    out = []
    for pool in ([1, 2, 3, 4, 5, 6], sorted(r.sample(range(1, 15), 6)), sorted(r.sample(range(-3, 9), 7)), sorted(r.sample(range(1, 40), 7))):
        cases = list(itertools.product('abx-', repeat=len(pool)))
        cases = [c for c in cases if fact(c.count('a')) * fact(c.count('b')) <= 6000 and 'a' in c and 'b' in c]
        r.shuffle(cases)
        side = lambda c, s: [t for t, x in zip(pool, c) if x in (s, 'x')]
        for i in range(0, 600 if scale == 1 else len(cases), 20):
            some = cases[i:i + 20]
            out.append(bed([side(c, 'a') for c in some], [side(c, 'b') for c in some], 1, ['paired'], r))
    return pack(out, 10, 'ways') + gen_bed(['paired'])(r, scale)


def gen_C06(r, scale):
    out = []
    ev = []
    for a, b, nt in sample(r, bed_inputs(r, scale), 1500 * scale):
        k = 'k%d' % len(ev)
        ev.append(bed(a, b, nt, ['fewenough'], r, key=k))
        ev.append(bed(b, a, nt, ['mirror', 'fewenough'], r, ref=k))
    for _ in range(500 * scale):
        A, B = pair_bits(r, True)
        if r.random() < 0.4:
            n = r.randint(3, 40)
            A = [r.randint(0, 1) for _ in range(n)]
            B = [1 - x if r.random() < 0.8 else x for x in A]
        t = r.choice([1, 1, 2, 7, 300])
        a = [[t] if x else [] for x in A]
        b = [[t] if x else [] for x in B]
        ev.append(bed(a, b, r.choice([-1, 2]), ['fewest'], r))
    n = 6 if scale == 1 else 8
    for L in range(1, n):
        strings = exhaustive_strings(L, [1])
        for a in strings:
            for b in strings:
                if r.random() < (1 if L < 5 else 0.5 if scale > 1 else 0.15):
                    ev.append(bed(a, b, -1, ['fewest'], r))
    return pack(ev, 50)


# ================================================ C07-C11 similarity metrics

def small_pairs(r, scale, share):
    '''All pairs of small segmentations with one type (a share of them).'''
    for n in range(2, 7 if scale == 1 else 8):
        alls = list(itertools.product([0, 1], repeat=n - 1))
        for A in alls:
            for B in alls:
                if n < 4 or r.random() < share:
                    yield list(A), list(B)


def tiny(r, fns, count):
    '''Texts of one or two units, with every option.'''
    ev = []
    for _ in range(count):
        fn = r.choice(fns)
        f = r.choice(['mass', 'mass', 'position', 'nltk', 'sets'])
        n = r.choice([0, 0, 1]) if f in ('mass', 'position') else 1
        o = opts(nt=nt_choice(r), w=weight_choice(r) if r.random() < 0.3 else [])
        if fn in ('B', 'S'):
            o['rp'] = r.choice(['d', 'T', 'T'])
            if o['rp'] != 'T':
                o['om'] = r.choice(['d', 'T'])
        ev.append(metric(fn, dress(r, f, [r.randint(0, 1) for _i in range(n)]), dress(r, f, [r.randint(0, 1) for _i in range(n)]), o,
                         shape=r.choice(['pos', 'kw']), r=r))
    return ev


def gen_similarity(fn):
    def go(r, scale):
        ev = []
        for A, B in small_pairs(r, scale, 0.12 if scale == 1 else 0.5):
            f = r.choice(['mass', 'mass', 'position', 'nltk', 'sets'])
            ev.append(metric(fn, dress(r, f, A), dress(r, f, B), opts(nt=nt_choice(r)), r=r))
        for _ in range(700 * scale):
            a, b = pair_for_edits(r)
            ev.append(metric(fn, a, b, opts(nt=nt_choice(r), w=weight_choice(r) if r.random() < 0.25 else []), shape=r.choice(['pos', 'pos', 'kw']), r=r))
        for _ in range(3 * scale):
            # long texts
            n = r.randint(500, 1100)
            A = [1 if r.random() < 0.03 else 0 for _i in range(n)]
            B = perturb_bits(r, A)
            f = r.choice(['mass', 'position', 'sets'])
            ev.append(metric(fn, dress(r, f, A), dress(r, f, B), opts(nt=r.choice([-1, 3])), r=r))
        if True:
            # very many boundaries
            n = r.randint(1250, 1600)
            A = [1 if r.random() < 0.93 else 0 for _i in range(n)]
            B = list(A)
            for _i in range(r.randint(1, 8)):
                j = r.randrange(n)
                B[j] = 1 - B[j]
            f = r.choice(['mass', 'position', 'nltk', 'sets'])
            ev.append(metric(fn, dress(r, f, A), dress(r, f, B), opts(nt=r.choice([-1, 3])), r=r))
        for _ in range(40 * scale):
            d = dataset(r, r.choice(['mass', 'position', 'nltk', 'sets', 'types']), r.randint(1, 3), r.randint(2, 4))
            ev.append(metric_ds(fn, d, opts(nt=nt_choice(r))))
        for _ in range(10 * scale):
            m = [1]
            ev.append(metric(fn, {'f': 'mass', 'v': m, 'c': 'list'}, {'f': 'mass', 'v': m, 'c': 'tuple'}, r=r))
            n = r.randint(1, 400)
            ev.append(metric(fn, {'f': 'mass', 'v': [n], 'c': 'list'}, {'f': 'mass', 'v': [n], 'c': 'tuple'}, r=r))
        ev += tiny(r, [fn], 6 * scale)
        r.shuffle(ev)
        return pack(ev, 30)
    return go


gen_C07 = gen_similarity('B')
gen_C08 = gen_similarity('S')
gen_C09 = gen_similarity('stats')


def gen_C10(r, scale):
    ev = []
    for _ in range(900 * scale):
        fn = r.choice(['B', 'S', 'bcm', 'stats'])
        a, b = pair_for_edits(r, f=r.choice(['types', 'types', 'types', 'mass', 'sets', 'position', 'nltk']))
        o = opts(nt=nt_choice(r), w=weight_choice(r))
        if fn in ('B', 'S') and r.random() < 0.3:
            o['om'] = 'T'
        if fn in ('B', 'S') and r.random() < 0.2:
            o['rp'] = 'T'
        if r.random() < 0.2:
            o['wlist'] = True
        if o['w'] == ['a_half', 's_half', 't_half'] and r.random() < 0.5:
            o['fl'] = True
        ev.append(metric(fn, a, b, o, r=r))
    for _ in range(160 * scale):
        # the built-in functions on their own
        fn = r.choice(['a', 's', 's_scale', 's_scale', 't', 't_scale', 't_scale'])
        k = r.choice([0, 1, 1, 2, 3, 5])
        if fn == 'a':
            v, n = [[r.randint(1, 9), r.choice('ab')] for _ in range(k)], []
        elif fn[0] == 's':
            lo = r.choice([1, 1, 2, 4])
            hi = lo + r.choice([0, 1, 2, 3, 7])
            v, n = [[r.randint(lo, hi), r.randint(lo, hi)] for _ in range(k)], [hi, r.choice([-1, lo]) if lo == 1 else lo]
        else:
            m = r.choice([2, 3, 5, 9])
            v = []
            for _ in range(k):
                x = r.randint(0, 20)
                y = x + r.randint(1, m)
                v.append([x, y, r.randint(1, 3)] if r.random() < 0.5 else [y, x, r.randint(1, 3)])
            n = [m]
        ev.append({'op': 'weight', 'fn': fn, 'v': v, 'n': n, 'c': r.choice(['list', 'tuple']), 'kw': r.random() < 0.4, 'chk': ['weight', 'intact']})
    for _ in range(60 * scale):
        d = dataset(r, r.choice(['types', 'mass', 'nltk', 'sets']), r.randint(1, 3), r.randint(2, 4), sparse=True)
        o = opts(nt=nt_choice(r), w=weight_choice(r))
        fn = r.choice(['B', 'S', 'bcm', 'aa', 'aa', 'pi', 'kappa', 'bias'])
        if fn in ('aa', 'pi', 'kappa', 'bias'):
            o['w'] = fair_weights(r)
            d['cls'] = r.choice(['Dataset', 'dict'])
            d = proper(d)
            if fn == 'aa' and r.random() < 0.4:
                o['rp'] = 'T'
            ev.append({'op': 'agree', 'fn': fn, 'd': d, 'cmp': r.choice(['B', 'S']), 'o': o, 'chk': ['agreement']})
        else:
            ev.append(metric_ds(fn, d, o))
    ev += tiny(r, ['B', 'S', 'bcm', 'stats'], 30 * scale)
    r.shuffle(ev)
    return pack(ev, 30)


def gen_C11(r, scale):
    ev = []
    for A, B in small_pairs(r, scale, 0.05 if scale == 1 else 0.4):
        f = r.choice(['mass', 'mass', 'position', 'nltk', 'sets'])
        ev.append(metric('bcm', dress(r, f, A), dress(r, f, B), opts(nt=nt_choice(r)), r=r))
    for _ in range(800 * scale):
        a, b = pair_for_edits(r)
        o = opts(nt=nt_choice(r), w=weight_choice(r) if r.random() < 0.3 else [])
        ev.append(metric('bcm', a, b, o, shape=r.choice(['pos', 'pos', 'kw']), r=r))
    for _ in range(40 * scale):
        d = dataset(r, r.choice(['mass', 'position', 'nltk', 'sets', 'types', 'types']), r.randint(1, 3), r.randint(2, 4))
        ev.append(metric_ds('bcm', d, opts(nt=nt_choice(r), perm=r.choice(['d', 'd', 'T', 'F']))))
    ev += tiny(r, ['bcm'], 10 * scale)
    r.shuffle(ev)
    return pack(ev, 30)


# ==================================================== C12-C14 window metrics

ROUNDS = ['d', 'd', 'd', 'round', 'floor', 'ceil', 'int', 'identity', 'plus3', 'half_up', 'zero', 'negative']


def window_options(r, n, fn):
    o = opts()
    x = r.random()
    if x < 0.5:
        o['k'] = r.choice([1, 2, 3, max(1, n - 1), n, n + 1, r.randint(1, max(2, n))])
    elif x < 0.55:
        o['knone'] = True
    if r.random() < 0.35:
        o['rnd'] = r.choice(ROUNDS)
    if fn == 'wd' and r.random() < 0.4:
        o['lam'] = r.choice(['T', 'T', 'F'])
    return o


def gen_windows(fn):
    def go(r, scale):
        ev = []
        for A, B in small_pairs(r, scale, 0.12 if scale == 1 else 0.5):
            f = r.choice(['mass', 'mass', 'position', 'nltk'])
            ev.append(metric(fn, dress(r, f, A), dress(r, f, B), window_options(r, len(A) + 1, fn), r=r))
        for _ in range(900 * scale):
            a, b = pair_bits(r)
            f = r.choice(['mass', 'mass', 'position', 'nltk'])
            ev.append(metric(fn, dress(r, f, a), dress(r, f, b), window_options(r, len(a) + 1, fn),
                             shape=r.choice(['pos', 'pos', 'kw']), r=r))
        for _ in range(40 * scale):
            d = dataset(r, r.choice(['mass', 'position', 'nltk']), r.randint(1, 3), r.randint(2, 4))
            ev.append(metric_ds(fn, d, opts(perm=r.choice(['d', 'd', 'T', 'F']), lam=r.choice(['d', 'T']) if fn == 'wd' else 'd')))
        for _ in range(10 * scale):
            n = r.choice([1, 1, 2, 3, r.randint(1, 400)])
            ev.append(metric(fn, {'f': 'mass', 'v': [n], 'c': 'list'}, {'f': 'mass', 'v': [n], 'c': 'tuple'}, r=r))
        # many boundaries in one window
        for _ in range(4 * scale):
            n = r.randint(560, 640)
            A = [1] * (n - 1)
            B = [1 if r.random() < 0.9 else 0 for _ in range(n - 1)]
            if r.random() < 0.5:
                A, B = B, A
            ev.append(metric(fn, dress(r, 'mass', A), dress(r, 'mass', B), opts(k=r.randint(257, 300)), r=r))
        if fn == 'wd':
            for _ in range(60 * scale):
                a, b = pair_bits(r)
                k = r.randint(1, max(2, len(a)))
                key = 'p%d' % len(ev)
                A, B = dress(r, 'mass', a), dress(r, 'mass', b)
                o1 = opts(k=k)
                # kept together: sessions are packed after shuffling pairs
                ev.append(('pair', metric('pk', A, B, o1, r=r, key=key, chk=['unit']),
                           metric('wd', A, B, o1, r=r, ref=key, chk=['atleast', 'unit'])))
        r.shuffle(ev)
        flat = []
        for e in ev:
            if isinstance(e, tuple):
                flat.append(e)
            else:
                flat.append(('one', e))
        sessions = []
        for i in range(0, len(flat), 30):
            es = []
            for x in flat[i:i + 30]:
                es += list(x[1:])
            sessions.append({'id': 'w%d' % i, 'ev': es})
        return sessions
    return go


def sweep(r, fn, n, ks):
    '''Every window size on one text, among them the longest.'''
    A = r.choice([[1] * (n - 1), bits(r, n), [1 if r.random() < 0.9 else 0 for _ in range(n - 1)]])
    B = r.choice([[0] * (n - 1), perturb_bits(r, A)])
    f = r.choice(['mass', 'position', 'nltk'])
    a, b = dress(r, f, A), dress(r, f, B)
    return [metric(fn, a, b, opts(k=k), r=r) for k in ks]


def gen_C12(r, scale):
    ev = []
    for _ in range(scale):
        n = r.randint(230, 330)
        A, B = [1] * (n - 1), [0] * (n - 1)
        f = r.choice(['mass', 'position'])
        a, b = dress(r, f, A), dress(r, f, B)
        ev += [metric('pk', a, b, opts(k=k), r=r) for k in range(1, n + 2)]
        ev += sweep(r, 'pk', r.randint(30, 140), range(1, 31))
    return pack(ev, 40, 'sweep') + gen_windows('pk')(r, scale)


def gen_C13(r, scale):
    ev = []
    for _ in range(3 * scale):
        n = r.randint(560, 640)
        A = [1] * (n - 1)
        B = [1 if r.random() < 0.9 else 0 for _ in range(n - 1)]
        ev.append(metric('wd', dress(r, 'mass', A), dress(r, 'mass', B), opts(k=r.randint(257, 300)), r=r))
        a, b = pair_bits(r)
        ev.append(metric('wd', dress(r, 'position', a), dress(r, 'position', b), opts(lam='T'), r=r))
    return on_other_python(pack(ev, 30, 'big'), 1) + gen_windows('wd')(r, scale)


def gen_C14(r, scale):
    ev = []

    def pick(e):
        e['style'] = r.choice(['pos', 'kw'])
        e['fopt'] = r.choice(['omit', 'enum'])
        e['chk'] = ['windowsize', 'intact']
        return e
    for n in range(1, 8 if scale == 1 else 10):
        for m in compositions(n):
            f = r.choice(['mass', 'position'])
            v = m if f == 'mass' else positions(m)
            ev.append(pick({'op': 'wsize', 'kind': 'pair', 'o': opts(rnd=r.choice(ROUNDS)),
                            'a': {'f': f, 'v': v, 'c': r.choice(CONTAINERS), 'lab': r.choice(LABS)}}))
    for _ in range(900 * scale):
        f = r.choice(['mass', 'mass', 'position'])
        x = r.random()
        if x < 0.5:
            k = r.randint(1, 8)
            m = [r.randint(1, 25) for _ in range(k)]
            if r.random() < 0.15:
                # segments of any length
                f = 'mass'
                m = [r.choice([1, 2, 30, 999, 10 ** 4, 65536, 10 ** 6]) + r.randint(0, 3) for _ in range(k)]
        elif x < 0.8:
            # means at and around ties
            k = r.randint(1, 6)
            q = r.randint(1, 20)
            m = [q] * k
            m[0] += r.choice([0, 0, 1])
        elif x < 0.9:
            # means as close as can be to one where the size changes
            f = 'mass'
            k = r.choice([30, 100, 150, 250])
            m = [r.randint(1, 20)] * k
            m[r.randrange(k)] += r.choice([-1, 1]) if m[0] > 1 else 1
        else:
            m = masses_of_bits(bits(r, size(r)))
        v = m if f == 'mass' else positions(m)
        ev.append(pick({'op': 'wsize', 'kind': 'pair', 'o': opts(rnd=r.choice(ROUNDS)),
                        'a': {'f': f, 'v': v, 'c': r.choice(CONTAINERS), 'lab': r.choice(LABS)}}))
    for _ in range(250 * scale):
        d = dataset(r, r.choice(['mass', 'mass', 'position']), r.randint(1, 4), r.randint(1, 4), partial=r.random() < 0.4, big=r.random() < 0.2)
        if not any(row for _, row in d['items']):
            continue
        d['cls'] = r.choice(['Dataset', 'dict'])
        ev.append(pick({'op': 'wsize', 'kind': 'ds', 'd': d, 'o': opts(rnd=r.choice(ROUNDS))}))
    for _ in range(2 * scale):
        # very many segments, of a few sizes, the one before the other
        k = r.randint(6000, 9000)
        m = [r.randint(1, 3)] * (k // 2) + [r.randint(20, 40)] * (k - k // 2)
        if r.random() < 0.4:
            m.reverse()
        ev.append(pick({'op': 'wsize', 'kind': 'pair', 'o': opts(rnd=r.choice(ROUNDS)), 'a': {'f': 'mass', 'v': m, 'c': 'list'}}))
    for bad in ['int', 'none', 'float', 'nested', 'str', 'nestedstr'] * 3:
        e = pick({'op': 'wsize', 'kind': 'bad', 'bad': bad, 'o': opts()})
        e['chk'] = ['metricerror']
        ev.append(e)
    r.shuffle(ev)
    return pack(ev, 40)


# ============================================== C15 one-minus and parts options

def gen_C15(r, scale):
    out = []

    def family(mk, fn, o):
        ev = []
        plain = mk(dict(o), fn)
        plain.update(key='plain', chk=['notanerror'])
        ev.append(plain)
        for om, rp in (('F', 'F'), ('T', 'd'), ('T', 'F'), ('d', 'T'), ('F', 'T'), ('T', 'T')):
            if (om, rp) in (('F', 'F'), ('T', 'F'), ('F', 'T')) and r.random() < 0.6:
                continue
            x = dict(o)
            x.update(om=om, rp=rp)
            e = mk(x, fn)
            e['ref'] = 'plain'
            e['chk'] = ['parts'] if rp == 'T' else ['oneminus'] if om == 'T' else ['same']
            ev.append(e)
        return {'ev': ev}
    for _ in range(420 * scale):
        fn = r.choice(['B', 'S', 'pk', 'wd', 'wd'])
        if fn in ('B', 'S'):
            a, b = pair_for_edits(r)
            o = opts(nt=nt_choice(r), w=weight_choice(r) if r.random() < 0.4 else [])
        else:
            A, B = pair_bits(r)
            f = r.choice(['mass', 'position', 'nltk'])
            a, b = dress(r, f, A), dress(r, f, B)
            o = window_options(r, len(A) + 1, fn)
        shape = r.choice(['pos', 'kw'])
        out.append(family(lambda x, fn: metric(fn, a, b, x, shape, r=r), fn, o))
    # the shortest texts, all of them
    for fn in ('B', 'S', 'pk', 'wd'):
        for n in (0, 1):
            for A in itertools.product([0, 1], repeat=n):
                for B in itertools.product([0, 1], repeat=n):
                    f = r.choice(['mass', 'position'] + (['nltk'] if n else []))
                    a, b = dress(r, f, list(A)), dress(r, f, list(B))
                    for k in ((1, 2) if fn in ('B', 'S') else (-1, 1, 2)):
                        o = opts(nt=k) if fn in ('B', 'S') else opts(k=k)
                        if fn == 'wd' and k > 0 and r.random() < 0.5:
                            o['lam'] = 'T'
                        out.append(family(lambda x, fn: metric(fn, a, b, x, 'pos', r=r), fn, o))
    for _ in range(50 * scale):
        fn = r.choice(['B', 'S', 'pk', 'wd'])
        f = r.choice(['mass', 'position', 'nltk'] + (['sets', 'types'] if fn in ('B', 'S') else []))
        d = dataset(r, f, *shape_of(r, 3, 4))
        o = opts(perm=r.choice(['d', 'T', 'F']))
        if fn in ('B', 'S'):
            o['nt'] = nt_choice(r)
        if fn == 'wd':
            o['lam'] = r.choice(['d', 'T'])
        d2 = None
        if r.random() < 0.4:
            d2 = redraw(r, d, f)
        # which order a pair of coders is compared in is open unless permuted
        if d2 is None and o['perm'] == 'F' or (fn in ('B', 'S') and o['perm'] == 'd' and d2 is None):
            pass
        out.append(family(lambda x, fn: metric_ds(fn, d, x, 'ds2pos' if d2 else r.choice(['dspos', 'dskw']), d2=d2), fn, o))
    for _ in range(110 * scale):
        fn = r.choice(['aa', 'pi', 'kappa', 'bias'])
        d = proper(dataset(r, r.choice(['mass', 'position', 'nltk', 'sets', 'types']), r.randint(1, 3), r.randint(2, 4), sparse=True))
        d['cls'] = r.choice(['Dataset', 'dict'])
        o = opts(nt=nt_choice(r), w=fair_weights(r) if r.random() < 0.4 else [])
        cmp_ = r.choice(['B', 'S'])
        out.append(family(lambda x, fn: {'op': 'agree', 'fn': fn, 'd': d, 'cmp': cmp_, 'o': x}, fn, o))
    r.shuffle(out)
    return number(out, 'C15')


def redraw(r, d, f):
    '''Another dataset of the same texts.'''
    rows = []
    for item, row in d['items']:
        if not row:
            continue
        v = row[0][1]
        if d['f'] == 'sets':
            n = len(v) + 1
        elif d['f'] == 'nltk':
            n = len(v) + 1
        elif d['f'] == 'position':
            n = len(v)
        else:
            n = sum(v)
        who = names_of(r, CODERS, r.randint(1, 3))
        new = []
        for c in who:
            if f == 'types':
                new.append([c, string(r, n - 1, [1, 2, 3])])
            else:
                new.append([c, dress(r, d['f'], bits(r, n))['v']])
        rows.append([item, new])
    if r.random() < 0.4:
        n = r.randint(3, 9)
        v = string(r, n - 1, [1, 2]) if f == 'types' else dress(r, d['f'], bits(r, n))['v']
        rows.append(['only-here', [['c1', v]]])
    r.shuffle(rows)
    e = dict(d)
    e['items'] = rows
    e['coders'] = 'str'
    return e


def count_boundaries(f, v):
    if f == 'sets':
        return sum(len(x) for x in v)
    if f == 'nltk':
        return sum(v)
    if f == 'position':
        return sum(1 for x, y in zip(v, v[1:]) if x != y)
    return len(v) - 1


def proper(d):
    '''Agreement by chance has to stay below 1: no text with boundaries
    everywhere for everybody.'''
    total = full = 0
    for item, row in d['items']:
        for c, v in row:
            n = len(v) if d['f'] in ('sets', 'nltk') else (len(v) if d['f'] == 'position' else sum(v)) - 1
            types = 1
            if d['f'] == 'sets':
                types = max(1, len(set(t for x in v for t in x)))
            total += 1
            full += count_boundaries(d['f'], v) >= n * types
    if full == 0:
        return d
    d = dict(d)
    rows = []
    for item, row in d['items']:
        new = []
        for c, v in row:
            v = json.loads(json.dumps(v))
            n = len(v) if d['f'] in ('sets', 'nltk') else (len(v) if d['f'] == 'position' else sum(v)) - 1
            if d['f'] == 'sets':
                v[0] = []
            elif d['f'] == 'nltk':
                v[0] = 0
            elif d['f'] == 'position':
                if n >= 1:
                    v = [1] + [1 + (x != v[1] and x > v[1]) * (x - v[1]) for x in v[1:]] if v[0] != v[1] else v
            else:
                if v[0] == 1 and len(v) > 1:
                    v = [v[0] + v[1]] + v[2:]
            new.append([c, v])
        rows.append([item, new])
    d['items'] = rows
    return d


# ================================================ C16, C17 confusion matrices

def rational(r, pos=False):
    x = r.random()
    if x < 0.6:
        return [r.randint(0 if pos else -3, 9), 1]
    if x < 0.9:
        return [r.randint(0 if pos else -9, 9), r.choice([2, 4, 8])]
    return [r.randint(0, 2000000), 1]


def gen_C16(r, scale):
    out = []
    for _ in range(240 * scale):
        nl = r.choice([2, 3, 4, 6, 12])
        lset = [0] + r.sample(range(1, 21), 11)
        mats = ['m', 'n'] if r.random() < 0.6 else ['m', 'n', 'o']
        alive, cells, handles = [], {}, {}
        ev = []

        def add(e):
            e['op'] = 'cm'
            e['chk'] = ['matrix', 'matrices']
            ev.append(e)
        rows = {}         # row object -> set of labels, to know what exists
        mat = {}
        counter = [0]

        def row_of(m, p):
            if p not in mat[m]:
                counter[0] += 1
                mat[m][p] = counter[0]
                rows[counter[0]] = set()
            return mat[m][p]
        for _ in range(r.randint(6, 28)):
            x = r.random()
            if not mat or (x < 0.06 and len(mat) < len(mats)):
                m = r.choice([q for q in mats if q not in mat] or mats)
                mat[m] = {}
                add({'act': 'new', 'mat': m})
                continue
            m = r.choice(sorted(mat))
            p, a = r.randrange(nl), r.randrange(nl)
            act = r.choice(['get', 'get', 'set', 'set', 'inc', 'inc', 'row', 'hget', 'hset', 'delrow', 'delcell', 'setrow',
                            'classes', 'classes', 'taint', 'clear', 'measure'])
            if act == 'clear' and r.random() < 0.7:
                act = 'classes'
            e = {'act': act, 'mat': m}
            if act in ('get', 'set', 'inc'):
                e.update(p=p, a=a)
                if r.random() < 0.15:
                    e['how'] = {'get': 'setdefault', 'set': 'update', 'inc': ''}[act]
                if act != 'get':
                    e['v'] = rational(r)
                    e['dec'] = r.random() < 0.3
                rows[row_of(m, p)].add(a)
            elif act == 'row':
                h = r.choice(['h', 'i'])
                e.update(p=p, h=h)
                handles[h] = row_of(m, p)
            elif act in ('hget', 'hset'):
                if not handles:
                    continue
                h = r.choice(sorted(handles))
                e.update(h=h, a=a)
                if act == 'hset':
                    e['v'] = rational(r)
                rows[handles[h]].add(a)
            elif act == 'delrow':
                if not mat[m]:
                    continue
                p = r.choice(sorted(mat[m]))
                e.update(p=p, how=r.choice(['del', 'pop', 'popitem', 'popitem']))
                del mat[m][p]
            elif act == 'delcell':
                full = [(q, b) for q in sorted(mat[m]) for b in sorted(rows[mat[m][q]])]
                if not full:
                    continue
                p, a = r.choice(full)
                e.update(p=p, a=a, how=r.choice(['del', 'pop', 'popitem', 'clear', 'clear']))
                rows[mat[m][p]].discard(a)
            elif act == 'setrow':
                e.update(p=p, how=r.choice(['dict', 'int']))
            elif act == 'taint':
                e['a'] = a
            elif act == 'clear':
                mat[m] = {}
            elif act == 'measure':
                continue
            add(e)
        for m in sorted(mat):
            add({'act': 'classes', 'mat': m})
        out.append({'ev': ev, 'lset': lset})
    return number(out, 'C16')


def random_matrix(r, nl=None):
    nl = nl or r.choice([1, 2, 3, 3, 4, 5])
    labels = r.sample(range(20), nl)
    rows = []
    dens = r.choice([0.3, 0.6, 1.0])
    frac = r.random() < 0.3
    for p in labels:
        if r.random() < 0.15:
            continue
        row = []
        for a in labels:
            if r.random() < dens:
                x = r.random()
                v = [0, 1] if x < 0.15 else rational(r, True) if frac else [r.randint(1, 12), 1]
                row.append([a, v])
        if row or r.random() < 0.4:
            rows.append([p, row])
    return rows


def binary(ms):
    '''Counts that floats hold exactly.'''
    return all(v[1] in (1, 2, 4, 8, 16) for _, m in ms for _, row in m for _, v in row)


BETAS = [[0, 1], [1, 1], [2, 1], [1, 2], [1, 4], [3, 2], [5, 1], [1, 8], [7, 16], [1, 1000], [1234567, 1000], [40, 1], [333, 1000], [123, 125]]
# what a measured collection may be keyed by (see drive.collection_key)
KEYS = ['lab0', 'lab1', '', '3', '#i3', '#i0', '#i-1', '#n', '#t3', '#f25', 'None', u'\u00e9', 'a,b']


def gen_C17(r, scale):
    ev = []
    for _ in range(900 * scale):
        measure = r.choice(['precision', 'recall', 'fmeasure', 'fmeasure'])
        many = r.random() < 0.25
        ms = [[k, random_matrix(r)] for k in r.sample(KEYS, r.randint(1, 4))] if many else [['', random_matrix(r)]]
        if r.random() < 0.04:
            ms = ms[:1]
            ms[0][1] = []
        seen = sorted(set([p for _, m in ms for p, _ in m] + [a for _, m in ms for _, row in m for a, _ in row]) - {0})
        cls = []
        if seen and r.random() < 0.5:
            cls = [r.choice(seen)]
        elif r.random() < 0.05:
            cls = [r.randint(1, 11)]
        beta = [1, 1]
        passbeta = ''
        if measure == 'fmeasure' and r.random() < 0.6:
            beta = r.choice(BETAS)
            passbeta = r.choice(['D', 'f', 'i'] if beta[1] == 1 else ['D', 'f'])
        ev.append({'op': 'measure', 'measure': measure, 'cls': cls, 'avg': r.choice(['d', 'micro', 'macro', 'macro'] + (['unknown'] if r.random() < 0.3 else [])),
                   'bogus': r.choice(['harmonic', 7]), 'beta': beta, 'passbeta': passbeta, 'many': many, 'ms': ms,
                   'dec': r.choice(['', '', 'D'] + (['f'] if binary(ms) else [])), 'style': r.choice(['kwcls', 'kw', 'pos']), 'chk': ['measure', 'intact']})
    # the same over a history: measures between changes
    out = pack(ev, 30)
    for _ in range(90 * scale):
        nl = r.choice([2, 3, 4])
        ev = [{'op': 'cm', 'act': 'new', 'mat': 'm', 'chk': ['matrix']}]
        for _ in range(r.randint(4, 14)):
            if r.random() < 0.5:
                ev.append({'op': 'cm', 'act': r.choice(['inc', 'set']), 'mat': 'm', 'p': r.randrange(nl), 'a': r.randrange(nl),
                           'v': [r.randint(1, 7), 1] if r.random() < 0.8 else [r.randint(1, 9), 4], 'chk': ['matrices']})
            else:
                measure = r.choice(['precision', 'recall', 'fmeasure'])
                cls = [r.randint(1, nl)] if r.random() < 0.5 else []
                ev.append({'op': 'cm', 'act': 'measure', 'mat': 'm', 'measure': measure, 'cls': cls, 'avg': r.choice(['d', 'micro', 'macro']),
                           'beta': [1, 1], 'passbeta': '', 'many': False, 'style': 'kw', 'chk': ['matrix', 'matrices']})
        out.append({'ev': ev})
    return number(out, 'C17')


# ======================================================= C18 dataset comparison

def units(f, v):
    return len(v) + 1 if f in ('sets', 'nltk') else len(v) if f == 'position' else sum(v)


def gen_C18(r, scale):
    out = []
    for i in range(2 * scale):
        # many coders, many texts
        for texts, coders in ((1, 23), (90, 2), (8, 8)):
            fn = r.choice(['B', 'S', 'bcm', 'pk', 'wd'])
            d = crowd(r, r.choice(['mass', 'position', 'nltk']), texts, coders)
            shape = r.choice(['dspos', 'dskw', 'ds2pos'])
            d2 = redraw(r, d, d['f']) if shape == 'ds2pos' and coders < 20 else None
            out.append({'ev': [metric_ds(fn, d, opts(perm=r.choice(['d', 'T', 'F'])), shape if d2 or shape != 'ds2pos' else 'dspos', d2=d2)]})
    for i in range(150 * scale):
        fn = r.choice(['B', 'S', 'bcm', 'stats', 'pk', 'wd'])
        f = r.choice(['mass', 'position', 'nltk'] + (['sets', 'types'] if fn in ('B', 'S', 'bcm', 'stats') else []))
        d = dataset(r, f, *(shape_of(r, 4, 4) if r.random() < 0.6 else (r.randint(1, 4), r.randint(1, 4))), partial=r.random() < 0.6, intcoders=r.random() < 0.15)
        o = opts()
        if fn in ('pk', 'wd'):
            if r.random() < 0.3:
                o['k'] = r.randint(1, 6)
            if r.random() < 0.3:
                o['rnd'] = r.choice(['floor', 'ceil', 'plus3'])
            if fn == 'wd' and r.random() < 0.3:
                o['lam'] = 'T'
        else:
            o['nt'] = nt_choice(r)
            o['w'] = weight_choice(r) if r.random() < 0.3 else []
        if fn not in ('bcm', 'stats'):
            o['om'] = r.choice(['d', 'd', 'T'])
            o['rp'] = r.choice(['d', 'd', 'T'])
        d2 = None
        one = r.random() < 0.07
        if one:
            # compared with itself
            d['items'] = [x for x in d['items'] if x[1]]
            d2 = d if d['items'] else None
        elif r.random() < 0.45:
            d2 = redraw(r, d, f)
            if r.random() < 0.3:
                d2 = dict(d2)
                d2['items'] = d2['items'][1:] or d2['items']
            if not d2['items']:
                d2 = None
        d['items'] = [x for x in d['items'] if x[1]]
        if not d['items']:
            continue
        ev = []
        done = set()

        def single(item, m, n, va, vb):
            name = '%s,%s,%s' % (item, m, n)
            if name in done:
                return
            done.add(name)
            a = {'f': d['f'], 'v': va, 'c': d['c'], 'lab': d['lab']}
            b = {'f': d['f'], 'v': vb, 'c': d['c'], 'lab': d['lab']}
            ev.append(metric(fn, a, b, o, r=r, key='one:' + name, chk=['notanerror']))
        if d2:
            other = dict((i, row) for i, row in d2['items'])
            for item, row in d['items']:
                for m, va in row:
                    for n, vb in other.get(item, []):
                        single(item, m, n, va, vb)
        else:
            for item, row in d['items']:
                for m, va in row:
                    for n, vb in row:
                        if m != n:
                            single(item, m, n, va, vb)
        for perm in r.sample(['d', 'T', 'F'], 2):
            x = dict(o)
            x['perm'] = perm
            shape = r.choice(['ds2pos', 'ds2kw']) if d2 else r.choice(['dspos', 'dskw'])
            if d2:
                ev.append(metric_ds(fn, d, x, shape, d2=d2, ref='one:', chk=['entries'], one=one))
            else:
                ev.append(metric_ds(fn, d, x, shape, ref='one:', chk=['entries']))
        out.append({'ev': ev})
    for _ in range(25 * scale):
        # a metric over datasets twice, in both orders of the datasets
        fn = r.choice(['B', 'bcm', 'pk', 'wd'])
        d = dataset(r, 'mass', r.randint(1, 3), r.randint(1, 3))
        d2 = redraw(r, d, 'mass')
        out.append({'ev': [metric_ds(fn, d, opts(), 'ds2pos', d2=d2), metric_ds(fn, d2, opts(), 'ds2kw', d2=d)]})
    return number(out, 'C18')


# ============================================================= C19 summaries

def gen_C19(r, scale):
    ev = []
    for _ in range(900 * scale):
        n = r.choice([1, 1, 2, 2, 3, 4, 5, 7, 10, 24, 60])
        kind = r.random()
        if kind < 0.3:
            vals = ['i%d' % r.randint(-50, 50) for _ in range(n)]
        elif kind < 0.6:
            vals = ['d0.%s' % ''.join(r.choice('0123456789') for _ in range(r.randint(1, 20))) for _ in range(n)]
        elif kind < 0.75:
            vals = ['d%d.%d' % (r.randint(-1000, 1000), r.randint(0, 999)) for _ in range(n)]
            if r.random() < 0.2:
                # all but the same
                x, k = r.choice(['0.', '1.', '-0.5', '12.25', '0.00']), r.randint(8, 18)
                vals = ['d' + x + '0' * k + str(r.randint(1, 9)) for _ in range(n)]
        elif kind < 0.85:
            vals = [r.choice(['i0', 'i1', 'd0.5', 'd1'])] * n
        elif kind < 0.93:
            vals = [r.choice(['d1E+6', 'd123456.789', 'd-98765.4321', 'i1000000']) for _ in range(n)]
        else:
            vals = [r.choice(['i1', 'i0', 'd0.25', 'd1.0', 'd0.3333333333333333333333333333']) for _ in range(n)]
        if r.random() < 0.2:
            # a small spread around a large value
            base = 10 ** r.randint(3, 16) * r.randint(1, 9) * r.choice([1, -1])
            n = r.choice([2, 4, 8, 5, 10, 16])
            half = n % 2 == 0
            offs = [r.randint(-3, 3) for _ in range(n - 1)]
            if r.random() < 0.5:
                # the mean itself is in the data, or its opposite
                offs = [x for o in offs[:n // 2] for x in (o, -o)] + [0]
                vals = ['i%d' % (base + o) for o in offs]
                n = len(vals)
            else:
                vals = ['d%d.%s' % (base + o, r.choice('05') if half else '0') for o in offs + [r.randint(-3, 3)]]
        elif r.random() < 0.08:
            # means of zero
            offs = [r.choice([1, 2, 3, 7, 100]) for _ in range(r.randint(1, 4))]
            vals = ['%s%d' % (r.choice('id'), x * sg) for x in offs for sg in (1, -1)] + ['i0'] * r.randint(0, 2)
            r.shuffle(vals)
            n = len(vals)
        elif r.random() < 0.012:
            n = r.randint(100, 300)
            vals = ['%s%d' % (r.choice('id'), r.randint(-9, 9)) for _i in range(n)]
        names = ['k%d' % i for i in range(n)]
        data = [[k, v] for k, v in zip(names, vals)]
        ev.append([{'op': 'summary', 'data': data, 'chk': ['summary', 'intact'], 'key': 's'}])
        if r.random() < 0.3:
            sh = list(data)
            r.shuffle(sh)
            sh = [['other%d' % i, v] for i, (k, v) in enumerate(sh)]
            ev[-1].append({'op': 'summary', 'data': sh, 'chk': ['summary', 'same'], 'ref': 's'})
    out = []
    for i in range(0, len(ev), 25):
        out.append({'ev': [e for es in ev[i:i + 25] for e in es]})
    for _ in range(25 * scale):
        fn = r.choice(['B', 'S', 'pk', 'wd'])
        d = dataset(r, 'mass', r.randint(1, 3), r.randint(2, 4))
        out.append({'ev': [metric_ds(fn, d, opts(), key='r', chk=[]), {'op': 'summary', 'from': 'r', 'chk': ['summary']}]})
    return number(out, 'C19')


# ============================================================ C20-C22 agreement

def agreement_dataset(r, sparse=True):
    f = r.choice(['mass', 'mass', 'position', 'nltk', 'sets', 'types', 'types'])
    d = proper(dataset(r, f, *(shape_of(r, 4, 4) if r.random() < 0.8 else (r.choice([1, 1, 2, 3, 4]), 2)), sparse=sparse, intcoders=r.random() < 0.1))
    d['cls'] = r.choice(['Dataset', 'Dataset', 'dict'])
    return d


def crowd(r, f, texts, coders, fair=True):
    '''A dataset of many pairs of codings, of short texts.'''
    who = ['k%d' % j for j in range(coders)]
    r.shuffle(who)
    rows = []
    for i in range(texts):
        n = r.randint(3, 8)
        base = bits(r, n)
        base[r.randrange(n - 1)] = 1
        rows.append(['t%d' % i, [[c, dress(r, f, perturb_bits(r, base, 1) if r.random() < 0.7 else bits(r, n))['v']] for c in r.sample(who, len(who))]])
    return {'f': f, 'items': rows, 'c': r.choice(CONTAINERS), 'lab': None if f != 'sets' else 'set', 'cls': 'Dataset', 'coders': 'str', 'fmt': 'str', 'how': 'init'}


def crowds(r, scale):
    for _ in range(2 * scale):
        yield proper(crowd(r, r.choice(['mass', 'position', 'nltk', 'sets']), *r.choice([(1, 15), (4, 7), (8, 5), (24, 3), (70, 2)])))


def gen_C20(r, scale):
    ev = []
    for d in crowds(r, scale):
        ev.append({'op': 'agree', 'fn': 'aa', 'd': d, 'cmp': r.choice(['B', 'B', 'S']), 'style': r.choice(['pos', 'kw']), 'fopt': 'omit',
                   'o': opts(rp=r.choice(['d', 'T'])), 'chk': ['agreement', 'intact']})
    for _ in range(330 * scale):
        d = agreement_dataset(r, r.random() < 0.7)
        x = r.random()
        if x < 0.08:
            d = empty_codings(d)
        elif x < 0.16:
            d = opposites(r)
        o = opts(nt=nt_choice(r), w=fair_weights(r) if r.random() < 0.35 else [], rp=r.choice(['d', 'd', 'T', 'T', 'F']))
        ev.append({'op': 'agree', 'fn': 'aa', 'd': d, 'cmp': r.choice(['B', 'B', 'S']), 'explicit': r.random() < 0.3,
                   'style': r.choice(['pos', 'kw']), 'fopt': r.choice(['omit', 'enum']), 'o': o, 'chk': ['agreement', 'intact']})
    return pack(ev, 10)


def opposites(r):
    '''Texts on which a coder who placed hardly any boundaries meets coders
    who placed them (nearly) everywhere.'''
    f = r.choice(['mass', 'position', 'nltk', 'sets'])
    who = ['few', 'many', 'all'][:r.choice([2, 2, 3])]
    rows = []
    for i in range(r.randint(1, 3)):
        n = r.choice([2, 5, 9, 14, 20, 33])
        row = [[c, dress(r, f, [0] * n if c == 'few' else [1] * n)['v']] for c in who]
        if r.random() < 0.4:
            row = [[c, dress(r, f, perturb_bits(r, [0] * n if c == 'few' else [1] * n, 1))['v']] for c in who]
        r.shuffle(row)
        rows.append(['t%d' % i, row])
    return {'f': f, 'items': rows, 'c': r.choice(CONTAINERS), 'lab': None if f != 'sets' else 'set', 'cls': 'Dataset', 'coders': 'str', 'fmt': 'str', 'how': 'init'}


def empty_codings(d):
    '''The same dataset with no boundary anywhere.'''
    d = dict(d)
    def blank(v):
        if d['f'] == 'sets':
            return [[] for _ in v]
        if d['f'] == 'nltk':
            return [0 for _ in v]
        if d['f'] == 'position':
            return [1 for _ in v]
        return [sum(v)]
    d['items'] = [[i, [[c, blank(v)] for c, v in row]] for i, row in d['items']]
    return d


def gen_C21(r, scale):
    ev = []
    for d in crowds(r, scale):
        ev.append({'op': 'agree', 'fn': r.choice(['pi', 'kappa', 'kappa', 'bias']), 'd': d, 'cmp': r.choice(['B', 'B', 'S']), 'style': r.choice(['pos', 'kw']),
                   'fopt': 'omit', 'o': opts(rp=r.choice(['d', 'T'])), 'chk': ['agreement', 'intact']})
    for _ in range(260 * scale):
        d = agreement_dataset(r)
        if r.random() < 0.06:
            d = empty_codings(d)
        o = opts(nt=nt_choice(r), w=fair_weights(r) if r.random() < 0.3 else [])
        cmp_ = r.choice(['B', 'B', 'S'])
        for fn in r.sample(['pi', 'kappa', 'bias'], 2):
            x = dict(o)
            x['rp'] = r.choice(['d', 'd', 'T'])
            ev.append({'op': 'agree', 'fn': fn, 'd': d, 'cmp': cmp_, 'style': r.choice(['pos', 'kw']), 'o': x,
                       'explicit': r.random() < 0.3, 'fopt': r.choice(['omit', 'enum']), 'chk': ['agreement', 'intact']})
    for _ in range(20 * scale):
        # everybody places every boundary there can be
        who = names_of(r, CODERS, r.randint(2, 4))
        f = r.choice(['mass', 'position', 'nltk', 'sets'])
        rows = []
        for item in names_of(r, ITEMS, r.randint(1, 3)):
            n = r.randint(2, 8)
            rows.append([item, [[c, dress(r, f, [1] * (n - 1))['v']] for c in who]])
        d = {'f': f, 'items': rows, 'c': 'list', 'cls': 'Dataset', 'coders': 'str', 'how': 'init'}
        fn = r.choice(['pi', 'kappa', 'bias', 'bias'])
        rp = 'T' if fn != 'bias' else r.choice(['d', 'T'])
        ev.append({'op': 'agree', 'fn': fn, 'd': d, 'cmp': r.choice(['B', 'S']), 'o': opts(rp=rp), 'chk': ['agreement', 'intact'] + (['zero'] if rp == 'd' else [])})
    for _ in range(30 * scale):
        # everybody places the same number of boundaries: no bias
        n = r.randint(4, 14)
        k = r.randint(1, n - 2)
        rows = []
        who = names_of(r, CODERS, r.randint(2, 4))
        for item in names_of(r, ITEMS, r.randint(1, 3)):
            row = []
            for c in who:
                pos = r.sample(range(n - 1), k)
                row.append([c, masses_of_bits([1 if i in pos else 0 for i in range(n - 1)])])
            rows.append([item, row])
        d = {'f': 'mass', 'items': rows, 'c': 'list', 'cls': 'Dataset', 'coders': 'str', 'how': 'init'}
        ev.append({'op': 'agree', 'fn': 'bias', 'd': d, 'cmp': 'B', 'o': opts(), 'chk': ['agreement', 'zero']})
    return pack(ev, 10)


def gen_C22(r, scale):
    out = []
    for _ in range(150 * scale):
        d = agreement_dataset(r)
        d['cls'] = 'Dataset'
        o = opts(nt=nt_choice(r), rp=r.choice(['d', 'd', 'd', 'T']))
        cmp_ = r.choice(['B', 'S'])
        ev = []
        coders = sorted(set(c for _, row in d['items'] for c, _ in row))
        for fn in r.sample(['aa', 'pi', 'kappa', 'bias'], 3):
            def call(dd, **kw):
                e = {'op': 'agree', 'fn': fn, 'd': dd, 'cmp': cmp_, 'o': o, 'ref': fn, 'chk': ['same'] }
                e.update(kw)
                return e
            bounded = ['atmostone'] if fn != 'bias' and o['rp'] == 'd' else []
            ev.append(call(d, key=fn, chk=['notanerror'] + bounded))
            # listed in another order
            x = dict(d)
            x['items'] = [[i, r.sample(row, len(row))] for i, row in r.sample(d['items'], len(d['items']))]
            ev.append(call(x, **({} if not (o['rp'] == 'T' and False) else {})))
            # renamed
            x = dict(d)
            fresh = r.sample([c + '~' for c in CODERS], len(coders)) if r.random() < 0.5 else r.sample(coders, len(coders))
            ren = dict(zip(coders, fresh))
            x['coders'] = 'str' if any('~' in c for c in fresh) else d['coders']
            names = dict((i, 'new ' + str(j)) for j, (i, _) in enumerate(r.sample(d['items'], len(d['items']))))
            x['items'] = [[names[i], [[ren[c], v] for c, v in row]] for i, row in d['items']]
            if fn == 'aa' and o['rp'] == 'T':
                x['items'] = [[names[i], row] for i, row in d['items']]
                x['coders'] = d['coders']
            ev.append(call(x))
            # a plain dictionary
            x = dict(d)
            x['cls'] = 'dict'
            ev.append(call(x, fopt=r.choice(['omit', 'enum'])))
            x = dict(d)
            x['how'] = r.choice(['assign', 'later'])
            ev.append(call(x))
        out.append({'ev': ev})
    for _ in range(60 * scale):
        d = agreement_dataset(r)
        same = []
        for i, row in d['items']:
            v = row[0][1]
            same.append([i, [[c, v] for c, _ in row]])
        d['items'] = same
        ev = []
        for fn in ('aa', 'pi', 'kappa'):
            ev.append({'op': 'agree', 'fn': fn, 'd': d, 'cmp': r.choice(['B', 'S']), 'o': opts(nt=nt_choice(r)), 'chk': ['one']})
        out.append({'ev': ev})
    return number(out, 'C22')


# ================================================== C23, C24 datasets and JSON

PROPS = [('name', '"study"'), ('n', '3'), ('list', '[1, 2, [3]]'), ('nested', '{"a": {"b": [1]}, "c": null}'),
         ('x', 'true'), ('unicode', '"caf\\u00e9"'), ('empty', '{}'), ('f', '0.5'), ('s', '""'),
         ('items', '[1]'), ('segmentation_type', '"hierarchical"')]


def some_property(r):
    '''A property of any name and value.'''
    def val(depth):
        x = r.random()
        if x < 0.35 and depth:
            return [val(depth - 1) for _ in range(r.randint(0, 3))] if r.random() < 0.5 else \
                dict((odd_name(r), val(depth - 1)) for _ in range(r.randint(0, 3)))
        return r.choice([None, True, False, 0, -7, 10 ** 20, 0.1, -2.5e-9, 1e300, 1234.56789012345, '', odd_name(r), 'text', 'a\nb', u'\u2028\ud83d\ude00'])
    return r.choice(['p', 'q', odd_name(r), 'note', 'Items', 'date']), json.dumps(val(2))


def some_properties(r, k):
    seen, out = set(), []
    for name, v in r.sample(PROPS, k):
        if r.random() < 0.3:
            name, v = some_property(r)
        if name not in seen:
            seen.add(name)
            out.append([name, canonical(v)])
    return out


def canonical(v):
    return json.dumps(json.loads(v), sort_keys=True, ensure_ascii=True)


BIG = 1500000000       # stands for numbers of more than 60 bits (see drive.py)


def ds_masses(r):
    if r.random() < 0.03:
        return []           # a text of no units
    return masses_of_bits(bits(r, r.randint(2, 10)))


def new_dataset(r, name, items=None, coders=None, fmt=None):
    items = items if items is not None else names_of(r, ITEMS, r.randint(0, 3))
    rows = []
    for i in items:
        who = (r.sample(coders, r.randint(1, min(3, len(coders)))) if coders else names_of(r, CODERS, r.randint(1, 3)))
        rows.append([i, [[c, ds_masses(r)] for c in who]])
    return {'act': 'new', 'd': name, 'items': rows, 'props': some_properties(r, r.randint(0, 3)),
            'types': r.choice([[], [], [1, 2], [1, 2, 3], [5]]), 'fmt': fmt or r.choice(['mass', 'mass', 'position', 'sets', 'nltk']),
            'c': r.choice(CONTAINERS), 'explicit': r.random() < 0.3}


class DsScript(object):
    '''Keeps enough of a model to propose calls that make sense.'''

    def __init__(self, r):
        self.r = r
        self.ev = []
        self.ds = {}        # name -> {item: {coder: id}}
        self.props = {}
        self.paths = {}
        self.count = 0
        self.acts = None
        self.formats = ['mass', 'position', 'sets', 'nltk']
        self.items, self.coders = ITEMS, CODERS
        self.fam = None         # kind of codings, if not masses

    def masses(self, item):
        return ds_masses(self.r)

    def add(self, e):
        e['op'] = 'ds'
        e['chk'] = ['dataset', 'datasets']
        if self.fam:
            e['fam'] = self.fam
        self.ev.append(e)

    def fresh(self):
        self.count += 1
        return self.count

    def names(self):
        return sorted(self.ds)

    def new(self, name, **kw):
        e = new_dataset(self.r, name, **kw)
        self.ds[name] = dict((i, dict((c, self.fresh()) for c, _ in row)) for i, row in e['items'])
        self.props[name] = set(k for k, _ in e['props'])
        self.add(e)

    def clash(self, a, b):
        return any(set(self.ds[a][i]) & set(self.ds[b][i]) for i in set(self.ds[a]) & set(self.ds[b]))

    def shared(self, v):
        return sum(1 for d in self.ds.values() for row in d.values() for x in row.values() if x == v) > 1

    def copy_of(self, d, to):
        self.ds[to] = dict((i, dict((c, self.fresh()) for c in row)) for i, row in self.ds[d].items())
        self.props[to] = set(self.props[d])

    def merge(self, a, b):
        for i, row in list(self.ds[b].items()):
            self.ds[a].setdefault(i, {}).update(row)

    def step(self, names, files=False, weights=None):
        r = self.r
        acts = self.acts or ['copy', 'iadd', 'iadd', 'add', 'add', 'set', 'poke', 'poke', 'delc', 'deli', 'touch', 'prop', 'delprop', 'type', 'coder', 'new', 'fmt', 'drop']
        if files:
            acts += ['jout', 'jout', 'jout', 'jin', 'jin', 'jin', 'raw']
        act = r.choice(acts)
        if not self.ds or act == 'new':
            if len(self.ds) >= len(names):
                return
            return self.new(r.choice([n for n in names if n not in self.ds]), **self.kw())
        d = r.choice(self.names())
        content = self.ds[d]
        cells = [(i, c) for i in sorted(content) for c in sorted(content[i])]
        e = {'act': act, 'd': d}
        if act == 'copy':
            e['to'] = r.choice([n for n in names if n != d])
            self.copy_of(d, e['to'])
        elif act == 'iadd':
            e['other'] = r.choice(self.names())
            if self.clash(d, e['other']):
                # what the rejected merge leaves is open; keep to what is certain
                self.add(e)
                self.add({'act': 'drop', 'd': d})
                del self.ds[d]
                return
            self.merge(d, e['other'])
        elif act == 'add':
            e['other'] = r.choice(self.names())
            e['to'] = r.choice([n for n in names if n not in (d, e['other'])] or names)
            if e['to'] in (d, e['other']):
                return
            if not self.clash(d, e['other']):
                src = json.loads(json.dumps(self.ds[e['other']]))
                self.copy_of(d, e['to'])
                for i, row in src.items():
                    self.ds[e['to']].setdefault(i, {}).update(row)
        elif act == 'set':
            e.update(i=r.choice(sorted(content) + [r.choice(self.items)]), c=r.choice(self.coders))
            e['v'] = self.masses(e['i'])
            content.setdefault(e['i'], {})[e['c']] = self.fresh()
        elif act in ('poke', 'delc'):
            if act == 'poke':
                cells = [x for x in cells if not self.shared(content[x[0]][x[1]])]
            if not cells:
                return
            i, c = r.choice(cells)
            e.update(i=i, c=c)
            if act == 'poke':
                e['v'] = self.masses(i)
            else:
                del content[i][c]
        elif act == 'deli':
            if not content:
                return
            e['i'] = r.choice(sorted(content))
            del content[e['i']]
        elif act == 'touch':
            e['i'] = r.choice(self.items)
            content.setdefault(e['i'], {})
        elif act == 'prop':
            k, v = r.choice(PROPS) if r.random() < 0.7 else some_property(r)
            e.update(key2=r.choice([k, 'name', 'list', 'nested']), val=canonical(r.choice([v, '[9]', '{"z": 1}', '"new"'])))
            self.props[d].add(e['key2'])
        elif act == 'delprop':
            if not self.props[d]:
                return
            e['key2'] = r.choice(sorted(self.props[d]))
            self.props[d].discard(e['key2'])
        elif act == 'type':
            e['t'] = r.randint(1, 9)
        elif act == 'coder':
            e['c'] = r.choice(self.coders)
        elif act == 'fmt':
            e['fmt'] = r.choice(self.formats)
        elif act == 'drop':
            if len(self.ds) < 2 or r.random() < 0.5:
                return
            del self.ds[d]
        elif act == 'jout':
            e['dir'] = r.random() < 0.3
            e['slash'] = r.random() < 0.3
            e['path'] = r.choice(['folder', 'sub/folder', 'dir.v1', 'set.json', 'sub/.x']) if e['dir'] else \
                r.choice(['a.json', 'b.json', 'sub/c.txt', 'folder/output.json', 'dir.v1/b.json', 'plain', '.json'])
            where = e['path'] + '/output.json' if e['dir'] else e['path']
            self.paths[where] = (json.loads(json.dumps(self.ds[d])), set(self.props[d]))
        elif act == 'raw':
            del e['d']
            e['path'] = r.choice(['a.json', 'b.json', 'raw.json'])
            e['file'], content = raw_file(r)
            e['link'] = r.random() < 0.25
            if r.random() < 0.5:
                e['file']['pad'] = 4000    # blank lines before the text
            self.paths[e['path']] = content
        elif act == 'jin':
            if not self.paths:
                return
            del e['d']
            e['path'] = r.choice(sorted(self.paths))
            e['to'] = r.choice(names)
            c = self.paths[e['path']]
            if c is not None:
                self.ds[e['to']] = dict((i, dict((x, self.fresh()) for x in row)) for i, row in c[0].items())
                self.props[e['to']] = set(c[1]) - {'items'} | {'segmentation_type'}
        self.add(e)

    def kw(self):
        return {}


def raw_file(r):
    '''A file somebody else wrote; and what loading it gives, if it loads.'''
    x = r.random()
    if x < 0.25:
        return {'k': 'bad', 'text': r.choice(['', '{', 'not json', '{"items": {}', '[1, 2', '[]', '5', 'null', '"segmentation_type"',
                                               '{"segmentation_type": "linear", "items": {"i": {"c": [1]}}', 'true', '["segmentation_type", "items"]'])}, None
    items = [[i, [[c, ds_masses(r)] for c in names_of(r, CODERS, r.randint(0, 3))]] for i in names_of(r, ITEMS, r.randint(0, 3))]
    props = [x for x in some_properties(r, r.randint(0, 3)) if x[0] not in ('items', 'segmentation_type')]
    f = {'k': 'json', 'type': ['linear'], 'items': [items], 'props': props, 'indent': r.choice([None, 2]), 'raw': r.random() < 0.3}
    if x < 0.4:
        f['type'] = r.choice([[], ['hierarchical'], ['Linear'], [''], ['linear ']])
        return f, None
    if x < 0.5:
        f['items'] = []
        return f, None
    return f, (dict((i, dict((c, 0) for c, _ in row)) for i, row in items), set(k for k, _ in props))


def gen_C23(r, scale):
    out = []
    for _ in range(300 * scale):
        s = DsScript(r)
        few = r.random() < 0.5
        pool = dict(items=None, coders=None)
        if few:
            items = names_of(r, ITEMS, 2)
            coders = names_of(r, CODERS, 5)
            s.kw = lambda: dict(items=[i for i in items if r.random() < 0.8], coders=coders)
        s.new('A', **s.kw())
        s.new('B', **s.kw())
        for _ in range(r.randint(4, 16)):
            s.step(['A', 'B', 'C', 'D'])
        out.append({'ev': s.ev})
    for _ in range(80 * scale):
        # a copy, then changes of every kind on one of the two
        s = DsScript(r)
        s.new('A', items=names_of(r, ITEMS, r.randint(1, 3)))
        s.add({'act': 'copy', 'd': 'A', 'to': 'B'})
        s.copy_of('A', 'B')
        for _ in range(r.randint(3, 9)):
            s.step(['A', 'B'])
        out.append({'ev': s.ev})
    return number(out, 'C23')


def gen_C24(r, scale):
    out = []
    for _ in range(330 * scale):
        s = DsScript(r)
        s.new('A', fmt='mass')
        for _ in range(r.randint(3, 12)):
            s.step(['A', 'B', 'C'], files=True)
        where = r.choice(['a.json', 'z.json'])
        if s.ds:
            d = r.choice(s.names())
            s.add({'act': 'jout', 'd': d, 'path': where, 'dir': False})
            s.add({'act': 'jin', 'path': where, 'to': 'Z'})
        out.append({'ev': s.ev})
    # big masses, many coders
    for _ in range(10 * scale):
        s = DsScript(r)
        s.new('A', fmt='mass')
        s.add({'act': 'set', 'd': 'A', 'i': 'big', 'c': 'c1', 'v': [r.randint(1, 100000) for _ in range(r.randint(1, 300))]})
        s.add({'act': 'set', 'd': 'A', 'i': 'big', 'c': 'c2', 'v': [r.choice([1, 999999999, BIG + r.randint(0, 10 ** 8)]) for _ in range(r.randint(1, 5))]})
        s.add({'act': 'jout', 'd': 'A', 'path': 'a.json', 'dir': False})
        s.add({'act': 'jin', 'path': 'a.json', 'to': 'Z'})
        s.add({'act': 'jout', 'd': 'Z', 'path': 'b.json', 'dir': False})
        s.add({'act': 'jin', 'path': 'b.json', 'to': 'Y'})
        out.append({'ev': s.ev})
    # far more files, one after another, than can be open at a time
    for _ in range(2 * scale):
        s = DsScript(r)
        s.new('A', fmt='mass', items=names_of(r, ITEMS, 1))
        for _ in range(60):
            path = r.choice(['a.json', 'b.json'])
            x = r.random()
            if x < 0.3:
                f, _content = raw_file(r)
                s.add({'act': 'raw', 'path': path, 'file': f})
            else:
                s.add({'act': 'jout', 'd': 'A', 'path': path, 'dir': False})
            s.add({'act': 'jin', 'path': path, 'to': 'Z'})
        out.append({'ev': s.ev, 'nofile': 32})
    return number(out, 'C24')


# ============================================ C25 delimited files and folders

STEMS = ['ch1', 'text', 'a.b', 'A', 'x y', '1', 'doc-2', u'\u00e9t\u00e9', 'data.v2', 'tsv', 'a,b']


def table_rows(r, positions_=False):
    who = names_of(r, CODERS + ['q,r', 'say "x"', '-', '#1', '# x', '//', '%'], r.randint(1, 6) if r.random() < 0.94 else 0)
    rows = []
    for c in who:
        m = ds_masses(r) if r.random() < 0.85 else masses_of_bits(bits(r, r.randint(40, 120)))
        if r.random() < 0.02:
            m = [r.choice([1, 1, 2]) for _ in range(r.randint(257, 600))]
        elif r.random() < 0.03 and not positions_:
            m = m + [BIG + r.randint(0, 10 ** 8)]
        if positions_:
            nums = [r.randint(1, 4) for _ in range(r.randint(1, 20))] if r.random() < 0.5 else positions(m)
        else:
            nums = m
        rows.append([c, nums])
    return rows


def gen_C25(r, scale):
    out = []
    for i in range(420 * scale):
        positions_ = r.random() < 0.35
        rows = table_rows(r, positions_)
        stem = r.choice(STEMS)
        ext = r.choice(['.tsv', '.csv', '.txt', '', '.TSV', '.tsv'])
        item = stem
        if ext == '' and '.' in stem:
            item = stem.rsplit('.', 1)[0]
        delim = r.choice(['\t', '\t', ',', ' ', ';', '|'])
        e = {'op': 'table', 'file': r.choice(['', 'dir.x/']) + stem + ext, 'item': item, 'rows': rows, 'positions': positions_,
             'delim': delim, 'explicit': r.random() < 0.3, 'style': r.choice(['pos', 'kw']), 'eol': r.choice(['lf', 'lf', 'crlf', 'cr']),
             'quote': r.random() < 0.15, 'pad': delim != ' ' and r.random() < 0.1, 'header': r.choice([0, 1, 2, 3]), 'heading': r.choice([None, None, ['0', '1'], ['c', '5', '5', '5', '5', '5'], ['#'], ['', '2']]), 'chk': ['table'],
             'blanks': [j for j in range(len(rows)) if r.random() < 0.15], 'notrail': r.random() < 0.25, 'tail': r.choice([0, 0, 0, 1, 2])}
        if e['header'] == 0:
            e['header'] = 1
        out.append({'ev': [e]})
    for i in range(170 * scale):
        out.append({'ev': [folder_event(r)]})
    # several trees after each other in one process
    for i in range(20 * scale):
        evs = []
        for n in range(3):
            e = folder_event(r)
            e['n'] = n
            evs.append(e)
        out.append({'ev': evs})
    # far more files than can be open at a time
    for i in range(2 * scale):
        for typ in ('tsv', 'json'):
            files, top, flat = [], r.choice([60, 100]), i % 2 == 0 or r.random() < 0.5
            for n in range(top):
                m = ds_masses(r) if r.random() < 0.6 else [r.randint(1, 9)]
                files.append({'heading': r.choice([['c'], ['c', '1'], ['1', '2'], ['coder', 'mass', 'mass', 'mass', 'mass']]), 'path': ['b'] if flat else [['a'], ['b', 'c'], []][n % 3], 'stem': 'f%d' % n, 'ext': '.' + typ,
                              'file': {'k': 'table', 'rows': [['c', m]]} if typ == 'tsv' else
                              {'k': 'json', 'type': ['linear'], 'items': [[['i%d' % n, [['c1', m]]]]], 'props': []}})
            out.append({'ev': [{'op': 'folders', 'n': 0, 'type': typ, 'dirs': [[], ['a'], ['b'], ['b', 'c']], 'files': files,
                                'style': 'pos', 'chk': ['folders']}], 'nofile': 32})
        ev = []
        for n in range(50):
            ev.append({'op': 'table', 'file': 't%d.tsv' % n, 'item': 't%d' % n, 'rows': table_rows(r), 'positions': False, 'delim': '\t',
                       'explicit': False, 'style': 'pos', 'eol': 'lf', 'quote': False, 'header': 1, 'chk': ['table'], 'blanks': [],
                       'notrail': False, 'tail': 0})
        out.append({'ev': ev, 'nofile': 32})
    return number(out, 'C25')


def folder_event(r):
    typ = r.choice(['tsv', 'json'])
    names = ['g1', 'g2', 'deep', 'x.y', 'A', 'b c', 'data.json', 'set.tsv', '.a', '..b', '_x', '__pycache__', '~t', '#1', 'tmp', '10', u'\u00fc', 'CVS', ' s', 's ', ' ', 'Deep', 'g-1', '01', '1']
    dirs = [[]]
    deep = r.random() < 0.1
    for _ in range(r.randint(0, 4) if not deep else 12):
        base = r.choice(dirs) if not deep or r.random() < 0.2 else dirs[-1]
        if len(base) < 3 or (deep and len(base) < 12):
            p = base + [r.choice(names)]
            if p not in dirs:
                dirs.append(p)
    files = []
    used = set()
    clash = r.random() < 0.12
    taken = {}
    for _ in range(r.randint(1, 6)):
        path = r.choice(dirs)
        own = {'tsv': ['.tsv', '.csv', '.TSV', '.CSV', any_case(r, '.tsv'), any_case(r, '.csv')],
               'json': ['.json', '.jsn', '.JSON', '.JSN', any_case(r, '.json'), any_case(r, '.jsn')]}
        x = r.random()
        if x < 0.8:
            ext = r.choice(own[typ][:2] * 3 + own[typ])
            kind = typ
        elif x < 0.9:
            kind = 'json' if typ == 'tsv' else 'tsv'
            ext = r.choice(own[kind])
        else:
            kind = 'other'
            ext = r.choice(['.txt', '.jso', '.ts', '.json~', '.tsvx', '', '.bak'])
        stem = r.choice(['ch1', 'ch2', 'text', 'x', 'B', 'n 1', u'\u00e9', '.hid', '_x', '~x', '#2', '10', 'a.b', 'README', 'index'])
        full = '/'.join(path + [stem + ext]).lower()
        if full in used or path + [stem + ext] in dirs:
            continue
        used.add(full)
        if kind == 'json':
            f, content = raw_file(r) if r.random() < (0.08 if clash else 0.0) else good_file(r)
            rows = f['items'][0] if f['k'] == 'json' and f['items'] else []
            if ext in own[typ] and not clash and content is not None:
                # avoid clashes
                new = []
                for it, row in rows:
                    key = ','.join(path + [it])
                    free = [[c, v] for c, v in row if c not in taken.get(key, set())]
                    taken.setdefault(key, set()).update(c for c, _ in free)
                    new.append([it, free])
                f['items'] = [new]
            files.append({'path': path, 'stem': stem, 'ext': ext, 'file': f})
        elif kind == 'tsv':
            rows = table_rows(r)
            if ext in own[typ] and not clash:
                key = ','.join(path + [stem])
                rows = [[c, v] for c, v in rows if c not in taken.get(key, set())]
                taken.setdefault(key, set()).update(c for c, _ in rows)
            files.append({'path': path, 'stem': stem, 'ext': ext, 'file': {'k': 'table', 'rows': rows}})
        else:
            files.append({'path': path, 'stem': stem, 'ext': ext, 'file': {'k': 'bad', 'text': 'junk\tjunk\n'}})
    for f in files:
        if r.random() < 0.05:
            f['linked'] = True
    e = {'op': 'folders', 'n': 0, 'type': typ, 'dirs': dirs, 'files': files, 'style': r.choice(['pos', 'kw']), 'chk': ['folders'],
         'where': r.choice(['abs', 'abs', 'rel', 'dot', 'slash', 'up']), 'linked': [d for d in dirs if d and r.random() < 0.12]}
    if r.random() < 0.2:
        # into a dataset that is there already
        stems = [f['stem'] for f in files]
        rows = [[i, [[c, ds_masses(r)] for c in names_of(r, CODERS, r.randint(0, 3))]]
                for i in sorted(set(names_of(r, ITEMS, r.randint(0, 2)) + ([r.choice(stems)] if stems and r.random() < 0.5 else [])))]
        e['into'] = {'f': 'mass', 'items': rows, 'c': 'tuple', 'lab': None, 'cls': 'Dataset', 'coders': 'str', 'fmt': 'str', 'how': 'init'}
        if r.random() < 0.5:
            e['prefix'] = names_of(r, names, r.randint(0, 2))
    return e


def any_case(r, s):
    return ''.join(r.choice([c.lower(), c.upper()]) for c in s)


def good_file(r):
    items = [[i, [[c, ds_masses(r)] for c in names_of(r, CODERS, r.randint(1, 3))]] for i in r.sample(['ch1', 'ch2', 'x', 'other'], r.randint(0, 3))]
    return {'k': 'json', 'type': ['linear'], 'items': [items], 'props': [[k, canonical(v)] for k, v in r.sample(PROPS[:-2], r.randint(0, 2))]}, True


# ======================================================== C26 invalid input

def gen_C26(r, scale):
    ev = []
    fns = ['B', 'S', 'bcm', 'stats', 'pk', 'wd']

    def vary_options(fn):
        o = opts()
        if fn in ('pk', 'wd'):
            if r.random() < 0.4:
                o['k'] = r.randint(1, 5)
            if fn == 'wd' and r.random() < 0.4:
                o['lam'] = 'T'
        else:
            o['nt'] = nt_choice(r)
        if fn not in ('bcm', 'stats'):
            o['om'] = r.choice(['d', 'T'])
            o['rp'] = r.choice(['d', 'd', 'T'])
        return o
    for _ in range(520 * scale):
        fn = r.choice(fns)
        f = r.choice(['mass', 'mass', 'position', 'nltk', 'sets'])
        A, B = pair_bits(r, r.random() < 0.3, 3)
        x = r.random()
        bogus = None
        if x < 0.5:
            # different lengths, by one or more, sometimes with the same boundaries or number of segments
            n = len(B) + r.choice([-1, 1, 1, 2, 5])
            if n < 1:
                n = len(B) + 1
            y = r.random()
            if y < 0.4:
                B = (list(A) + [0] * n)[:n]
            elif y < 0.6:
                # a text of one or two units next to a longer one
                B = bits(r, r.choice([1, 1, 2]))
                A = A if len(A) > 1 else [0, 1]
            else:
                B = bits(r, n + 1)
            if r.random() < 0.5:
                A, B = B, A
        e = metric(fn, dress(r, f, A), dress(r, f, B), vary_options(fn), shape=r.choice(['pos', 'kw']), r=r, chk=['verdict'])
        if 0.5 <= x < 0.65:
            e['f'] = 'unknown'
            e['bogus'] = r.choice(['bogus', 'Mass', 'masses', '', 'set', 7, None])
        ev.append(e)
    for _ in range(120 * scale):
        # a dataset in which one pair is incomparable
        fn = r.choice(fns)
        f = r.choice(['mass', 'position', 'nltk', 'sets'])
        d = dataset(r, f, *shape_of(r, 3, 4))
        if r.random() < 0.6:
            i = r.randrange(len(d['items']))
            row = d['items'][i][1]
            j = r.randrange(len(row))
            n = units(f, row[j][1]) + r.choice([1, 1, 2, -1])
            if r.random() < 0.3 and units(f, row[j][1]) > 1:
                n = 1
            row[j][1] = dress(r, f, bits(r, max(1, n)))['v']
        two = r.random() < 0.4
        if two:
            d2 = redraw(r, d, f)
            if r.random() < 0.4:
                g = r.choice([x for x in ['mass', 'position', 'nltk', 'sets'] if x != f])
                d2['f'] = g
                d2['items'] = [[i, [[c, dress(r, g, [0] * (units(f, v) - 1))['v']] for c, v in row]] for i, row in d2['items']]
                d2['lab'] = r.choice(LABS) if g == 'position' else None
            ev.append(metric_ds(fn, d, vary_options(fn), r.choice(['ds2pos', 'ds2kw']), d2=d2, chk=['verdict']))
        else:
            ev.append(metric_ds(fn, d, vary_options(fn), r.choice(['dspos', 'dskw']), chk=['verdict']))
    for _ in range(70 * scale):
        # wrong numbers and kinds of arguments
        fn = r.choice(fns)
        A, B = pair_bits(r, False, 3)
        f = r.choice(['mass', 'position'])
        d = dataset(r, 'mass', r.randint(1, 2), r.randint(2, 3))
        shape = r.choice([
            {'pos': [], 'hyp': '', 'ref': '', 'dataset': ''},
            {'pos': ['seg'], 'hyp': '', 'ref': '', 'dataset': ''},
            {'pos': ['seg', 'seg', 'seg'], 'hyp': '', 'ref': '', 'dataset': ''},
            {'pos': ['ds', 'ds', 'ds'], 'hyp': '', 'ref': '', 'dataset': ''},
            {'pos': ['seg', 'ds'], 'hyp': '', 'ref': '', 'dataset': ''},
            {'pos': ['ds', 'seg'], 'hyp': '', 'ref': '', 'dataset': ''},
            {'pos': [], 'hyp': 'seg', 'ref': '', 'dataset': ''},
            {'pos': [], 'hyp': '', 'ref': 'seg', 'dataset': ''},
            {'pos': [], 'hyp': 'ds', 'ref': 'seg', 'dataset': ''},
            {'pos': [], 'hyp': 'seg', 'ref': 'ds', 'dataset': ''},
            {'pos': [], 'hyp': 'ds', 'ref': '', 'dataset': ''}])
        e = {'op': 'metric', 'fn': fn, 'kind': 'none', 'a': dress(r, f, A), 'b': dress(r, f, B), 'd': d, 'd2': redraw(r, d, 'mass'),
             'f': f, 'fopt': r.choice(['enum', 'str']), 'o': opts(), 'shape': shape, 'chk': ['metricerror']}
        if r.random() < 0.5:
            del e['fopt']
        ev.append(e)
    for _ in range(80 * scale):
        # agreement
        d = agreement_dataset(r)
        x = r.random()
        fn = r.choice(['pi', 'kappa'])
        chk = ['agreeverdict']
        if x < 0.35 and len(d['items']) > 1:
            row = d['items'][r.randrange(len(d['items']))][1]
            del row[r.randrange(len(row))]
        elif x < 0.55:
            fn = 'kappa'
            one = d['items'][0][1][0][0]
            d['items'] = [[i, [cv for cv in row if cv[0] == one]] for i, row in d['items']]
        elif x < 0.8:
            i = r.randrange(len(d['items']))
            row = d['items'][i][1]
            j = r.randrange(len(row))
            f = d['f']
            row[j][1] = dress(r, f, bits(r, units(f, row[j][1]) + r.choice([1, 2])))['v']
            fn = r.choice(['aa', 'pi', 'kappa', 'bias'])
        ev.append({'op': 'agree', 'fn': fn, 'd': d, 'cmp': r.choice(['B', 'S']), 'o': opts(), 'chk': chk})
    r.shuffle(ev)
    return pack(ev, 25)


def meant(shape):
    '''What kind of result to expect, for reading it.'''
    kinds = shape['pos'] + [k for k in (shape['hyp'], shape['ref'], shape['dataset']) if k]
    if len(set(kinds)) != 1 or len(kinds) > 2:
        return 'none'
    if len(kinds) == 1:
        return 'ds' if kinds == ['ds'] and not shape['hyp'] and not shape['ref'] else 'none'
    if shape['dataset'] or len(shape['pos']) == 1:
        return 'none'
    return 'ds2' if kinds[0] == 'ds' else 'pair'


def shape_event(r, fn, shape):
    f = r.choice(['mass', 'mass', 'position', 'nltk'] + (['sets'] if fn not in ('pk', 'wd') else []))
    A, B = pair_bits(r, False, 3)
    d = dataset(r, f, r.randint(1, 2), 2)
    o = opts()
    if fn in ('pk', 'wd'):
        o['k'] = r.choice([-1, -1, 2, 3])
    else:
        o['nt'] = nt_choice(r)
    if fn not in ('bcm', 'stats'):
        o['om'] = r.choice(['d', 'd', 'T'])
        o['rp'] = r.choice(['d', 'd', 'T'])
    kind = meant(shape)
    e = {'op': 'metric', 'fn': fn, 'kind': kind, 'a': dress(r, f, A), 'b': dress(r, f, B), 'd': d, 'd2': redraw(r, d, f),
         'f': f, 'o': o, 'shape': shape, 'pairproj': kind == 'pair', 'chk': ['dispatch', 'intact']}
    e['fopt'] = 'omit' if f == 'mass' and r.random() < 0.5 else r.choice(['enum', 'str'])
    return e


# ============================================================ C28 argument forms

def gen_C28(r, scale):
    out = []
    for _ in range(330 * scale):
        fn = r.choice(['B', 'S', 'bcm', 'stats', 'pk', 'wd'])
        if fn in ('pk', 'wd'):
            a, b = pair_for_windows(r)
            A = len(a['v'])
            o = window_options(r, 6, fn)
        else:
            a, b = pair_for_edits(r)
            o = opts(nt=nt_choice(r), w=weight_choice(r) if r.random() < 0.3 else [])
        if fn not in ('bcm', 'stats'):
            o['om'] = r.choice(['d', 'd', 'T', 'F'])
            o['rp'] = r.choice(['d', 'd', 'T', 'F'])
        ev = [metric(fn, a, b, o, 'pos', r=r, key='x', chk=['value'])]
        ev.append(metric(fn, a, b, o, 'kw', r=r, ref='x', chk=['same']))
        ev.append(metric(fn, a, b, o, 'kw', r=r, ref='x', chk=['same'], kwlast=True))
        # defaults written out
        x = dict(o)
        if fn in ('pk', 'wd'):
            if x['k'] == -1:
                x['knone'] = True
            if x['rnd'] == 'd':
                x['rnd'] = 'round'
            if fn == 'wd' and x['lam'] == 'd':
                x['lam'] = 'F'
        else:
            if x['nt'] == -1:
                x['nt'] = 2
            if not x['w']:
                x['w'] = ['a', 's_scale', 't_scale']
        if fn not in ('bcm', 'stats'):
            x['om'] = 'F' if x['om'] == 'd' else x['om']
            x['rp'] = 'F' if x['rp'] == 'd' else x['rp']
        ev.append(metric(fn, a, b, x, r.choice(['pos', 'kw']), r=r, ref='x', chk=['same'], fopt='enum'))
        ev.append(metric(fn, b, a, o, 'pos', r=r, chk=['value']))
        out.append({'ev': ev})
    for _ in range(80 * scale):
        # one segment given as a bare number
        fn = r.choice(['B', 'S', 'bcm', 'stats', 'pk', 'wd'])
        n = r.choice([2, 3, 7, 12, 40, 300])
        one = {'f': 'mass', 'v': [n], 'c': 'list'}
        bare = {'f': 'mass', 'v': [n], 'c': 'int'}
        other = {'f': 'mass', 'v': masses_of_bits(bits(r, n)), 'c': r.choice(CONTAINERS)}
        o = opts()
        ev = []
        for j, (p, q, p2, q2) in enumerate(((one, other, bare, other), (other, one, other, bare), (one, one, bare, bare))):
            ev.append(metric(fn, p, q, o, 'pos', key='b%d' % j, chk=['value']))
            ev.append(metric(fn, p2, q2, o, r.choice(['pos', 'kw']), ref='b%d' % j, chk=['same']))
        out.append({'ev': ev})
    for many in [0] * (60 * scale) + list(range(1, 49)) * scale:
        fn = METRIC_NAMES[many // 2 % 6] if many else r.choice(METRIC_NAMES)
        f = r.choice(['mass', 'position', 'nltk'] + (['sets', 'types'] if fn not in ('pk', 'wd') else []))
        d = dataset(r, f, *((r.randint(6, 14), 2) if many and many % 2 else (r.randint(1, 2), r.randint(4, 8)) if many else shape_of(r, 3, 3)))
        o = opts()
        if fn not in ('bcm', 'stats'):
            o['om'] = r.choice(['d', 'd', 'T'])
            o['rp'] = r.choice(['d', 'd', 'T'])
        ev = [metric_ds(fn, d, o, 'dspos', key='x', chk=['value']), metric_ds(fn, d, o, 'dskw', ref='x', chk=['same'])]
        x = dict(o)
        x['perm'] = 'T' if fn in ('pk', 'wd') else 'F'
        ev.append(metric_ds(fn, d, x, r.choice(['dspos', 'dskw']), ref='x', chk=['same']))
        d2 = redraw(r, d, f)
        ev.append(metric_ds(fn, d, o, 'ds2pos', d2=d2, key='y', chk=['value']))
        ev.append(metric_ds(fn, d, o, 'ds2kw', d2=d2, ref='y', chk=['same'], kwlast=r.random() < 0.5))
        out.append({'ev': ev})
    for _ in range(80 * scale):
        fn = r.choice(['aa', 'pi', 'kappa', 'bias'])
        d = agreement_dataset(r)
        o = opts()
        mk = lambda **kw: dict({'op': 'agree', 'fn': fn, 'd': d, 'cmp': 'B', 'o': o}, **kw)
        x = opts(nt=2, w=['a', 's_scale', 't_scale'], om='F', rp='F')
        out.append({'ev': [mk(key='x', chk=['agreement']), mk(style='kw', ref='x', chk=['same']),
                           mk(o=x, explicit=True, ref='x', chk=['same'])]})
    for _ in range(60 * scale):
        m = masses_of_bits(bits(r, size(r)))
        a = {'f': 'mass', 'v': m, 'c': r.choice(CONTAINERS)}
        mk = lambda **kw: dict({'op': 'wsize', 'kind': 'pair', 'a': a, 'o': opts(), 'fopt': 'omit'}, **kw)
        out.append({'ev': [mk(key='x', chk=['windowsize']), mk(style='kw', ref='x', chk=['same']),
                           mk(fopt='enum', o=opts(rnd='round'), ref='x', chk=['same'])]})
    for _ in range(60 * scale):
        a, b = pair_string(r)
        if cheap(a, b):
            out.append({'ev': [bed(a, b, -1, ['edits'], key='x'), bed(a, b, 2, ['same'], ref='x'),
                               bed(a, b, 2, ['same'], ref='x', style='pos3'), bed(a, b, -1, ['same'], ref='x', style='kw')]})
    return number(out, 'C28')


# ==================================================== C30 measures of results

def measure_options(r, types):
    cls = [r.choice(types)] if types and r.random() < 0.5 else []
    return {'cls': cls, 'avg': r.choice(['d', 'd', 'micro', 'macro']) if not cls else 'd',
            'beta': r.choice([[1, 1], [1, 1], [1, 1]] + BETAS)}


def pipe(e, to, **kw):
    e = dict(e, op='pipe', to=to, chk=kw.pop('chk', ['pipe']))
    e.setdefault('via', '')
    e.update(cls=[], avg='d', beta=[1, 1])
    e.update(kw)
    return e


def types_in(*segs):
    return sorted(set(t for s in segs for x in s['v'] for t in x)) if segs[0]['f'] == 'sets' else [1]


def placed(s):
    '''How many boundaries a segmentation places.'''
    v = s['v']
    if s['f'] == 'sets':
        return sum(map(len, v))
    if s['f'] == 'mass':
        return len(v) - 1
    if s['f'] == 'position':
        return sum(x != y for x, y in zip(v, v[1:]))
    return sum(str(x) == '1' for x in v)


MEASURES = ['precision', 'recall', 'fmeasure']


def named_pair(r):
    while True:
        A, B = pair_string(r, False, [1, 2, 7])
        if set(t for s in A + B for t in s) <= set([1, 2, 7]):
            return A, B


def gen_C30(r, scale):
    out = []
    ev = []
    for _ in range(380 * scale):
        a, b = pair_for_edits(r)
        o = opts(nt=nt_choice(r), w=fair_weights(r) if r.random() < 0.2 else [])
        to = r.choice(MEASURES)
        ev.append(pipe(metric('bcm', a, b, o, shape=r.choice(['pos', 'kw']), r=r), to, **measure_options(r, types_in(a, b))))
    out += pack(ev, 30)
    for _ in range(130 * scale):
        # exchanging the two exchanges precision and recall
        a, b = pair_for_edits(r)
        o = opts(nt=nt_choice(r))
        ev = []
        for t in types_in(a, b)[:3]:
            for p, q in (('precision', 'recall'), ('recall', 'precision'), ('fmeasure', 'fmeasure')):
                x = r.choice(['', '', 'micro', 'macro']) if p == 'fmeasure' else ''
                kw = {'cls': [t]} if not x else {'avg': x}
                ev.append(pipe(metric('bcm', a, b, o, r=r), p, key='x', **kw))
                ev.append(pipe(metric('bcm', b, a, o, r=r), q, ref='x', chk=['same'], **kw))
        out.append({'ev': ev})
    for _ in range(60 * scale):
        # identical segmentations
        a, _ = pair_for_edits(r)
        if placed(a) == 0:
            continue
        ev = []
        for to in MEASURES:
            kw = measure_options(r, types_in(a))
            ev.append(pipe(metric('bcm', a, a, opts(nt=nt_choice(r)), r=r), to, chk=['pipe', 'one'], **kw))
        out.append({'ev': ev})
    ev = []
    for _ in range(110 * scale):
        # every entry of datasets
        f = r.choice(['mass', 'position', 'nltk', 'sets', 'types', 'types'])
        d = dataset(r, f, *shape_of(r, 3, 4))
        two = r.random() < 0.4
        o = opts(nt=nt_choice(r), perm=r.choice(['d', 'd', 'T', 'F']))
        e = metric_ds('bcm', d, o, *(['ds2pos'] if two else ['dspos']), **({'d2': redraw(r, d, f)} if two else {}))
        kw = measure_options(r, sorted(set(t for _, row in d['items'] for _, v in row for x in v for t in x)) if f in ('types', 'sets') else [1])
        if r.random() < 0.3:
            if not two:
                e['o'] = dict(o, perm='T')
            ev.append(pipe(e, 'summary', via=r.choice(MEASURES), **kw))
        else:
            ev.append(pipe(e, r.choice(MEASURES), **kw))
    for _ in range(150 * scale):
        fn = r.choice(['B', 'S', 'pk', 'wd'])
        f = r.choice(['mass', 'position', 'nltk'] + (['sets', 'types'] if fn in ('B', 'S') else []))
        d = dataset(r, f, *shape_of(r, 3, 4))
        two = r.random() < 0.4
        o = opts(om=r.choice(['d', 'd', 'T']))
        if fn in ('pk', 'wd'):
            o['k'] = r.choice([-1, -1, 2, 3, 5])
            o['lam'] = r.choice(['d', 'T']) if fn == 'wd' else 'd'
        else:
            o['nt'] = nt_choice(r)
            o['perm'] = r.choice(['d', 'T', 'F'])
        ev.append(pipe(metric_ds(fn, d, o, *(['ds2pos'] if two else ['dspos']), **({'d2': redraw(r, d, f)} if two else {})), 'summary'))
    r.shuffle(ev)
    out += pack(ev, 20)
    # boundary confusion matrices are changed, asked and measured like others
    names = [[-1000000, 0], [1, 2], [2, 3], [7, 11]]
    for _ in range(60 * scale):
        ev = []
        mats = ['m', 'n']
        for m in mats:
            A, B = named_pair(r)
            ev.append({'act': 'from', 'mat': m, 'a': dress_string(r, A), 'b': dress_string(r, B), 'nt': nt_choice(r), 'names': names})
        for _ in range(r.randint(4, 14)):
            m = r.choice(mats)
            act = r.choice(['get', 'set', 'inc', 'classes', 'taint', 'measure', 'measure', 'measure', 'from'])
            e = {'act': act, 'mat': m}
            lab = lambda: r.choice([0, 2, 3, 11, 5])
            if act in ('get', 'set', 'inc'):
                e.update(p=lab(), a=lab())
                if act != 'get':
                    e['v'] = rational(r, True)
            elif act == 'taint':
                e['a'] = lab()
            elif act == 'measure':
                cls = [r.choice([2, 3, 11])] if r.random() < 0.5 else []
                e.update(measure=r.choice(MEASURES), cls=cls, avg=r.choice(['d', 'micro', 'macro']), beta=[1, 1], passbeta='', many=False, style='kw')
            elif act == 'from':
                A, B = named_pair(r)
                e.update(a=dress_string(r, A), b=dress_string(r, B), nt=nt_choice(r), names=names)
            ev.append(e)
        out.append({'ev': [dict(e, op='cm', chk=['matrix', 'matrices']) for e in ev]})
    return number(out, 'C30')


# ===================================================== C29 datasets in use

METRIC_NAMES = ['B', 'S', 'bcm', 'stats', 'pk', 'wd']

USES = ['B', 'B', 'S', 'pk', 'wd', 'bcm', 'stats', 'aa', 'aa', 'pi', 'kappa', 'bias', 'wsize']


def use_options(r, what, fn, perm='d'):
    o = opts(perm=perm)
    if what == 'wsize':
        o['perm'] = 'd'
        o['rnd'] = r.choice(['d', 'd', 'floor', 'ceil', 'plus3'])
        return o
    if fn in ('pk', 'wd'):
        if r.random() < 0.3:
            o['k'] = r.randint(1, 6)
        elif r.random() < 0.3:
            o['rnd'] = r.choice(['floor', 'ceil', 'plus3'])
        if fn == 'wd' and r.random() < 0.3:
            o['lam'] = 'T'
    else:
        o['nt'] = nt_choice(r)
        if r.random() < 0.3:
            o['w'] = fair_weights(r) if what == 'agree' else weight_choice(r)
    if fn not in ('bcm', 'stats'):
        o['om'] = r.choice(['d', 'd', 'T'])
        o['rp'] = r.choice(['d', 'd', 'T'])
    if what == 'agree':
        o['perm'] = 'd'
    return o


def use_event(r, what, fn, d, d2='', perm='d'):
    shape = SHAPES[r.choice(['ds2pos', 'ds2kw'] if d2 else ['dspos', 'dskw'])]
    return {'act': 'use', 'what': what, 'fn': fn, 'd': d, 'd2': d2 if what == 'metric' else '',
            'shape': shape if what == 'metric' else SHAPES['dspos'], 'cmp': r.choice(['B', 'B', 'S']),
            'o': use_options(r, what, fn, perm)}


def any_use(r, names):
    fn = r.choice(USES)
    what = 'agree' if fn in ('aa', 'pi', 'kappa', 'bias') else 'wsize' if fn == 'wsize' else 'metric'
    d = r.choice(names)
    d2 = r.choice(names) if r.random() < 0.3 else ''
    return use_event(r, what, fn, d, d2, r.choice(['d', 'd', 'T', 'F']))


def asked_again(r, what, fn):
    '''The same is asked of a dataset before and after a coding of it changes.'''
    s = DsScript(r)
    fam = r.choice(['mass', 'mass', 'position', 'nltk', 'sets'] if fn not in ('pk', 'wd', 'wsize') else ['mass', 'mass', 'position'])
    items, coders = names_of(r, ITEMS, r.randint(1, 3)), names_of(r, CODERS, r.randint(2, 3))
    if fam in ('nltk', 'sets'):
        s.fam = fam
    length = dict((i, r.randint(4, 12) if fn != 'wsize' else r.randint(10, 50)) for i in items)

    def coding(i):
        p = 0.5 if fn != 'wsize' else r.choice([0.05, 0.1, 0.2, 0.5])
        return dress(r, fam, [0] + [1 if r.random() < p else 0 for _ in range(length[i] - 3)] + [1])['v']
    rows = [[i, [[c, coding(i)] for c in coders]] for i in items]
    s.add({'act': 'new', 'd': 'A', 'items': rows, 'props': [], 'types': [], 'fmt': fam, 'c': r.choice(CONTAINERS), 'explicit': False})
    use = use_event(r, what, fn, 'A', '', r.choice(['d', 'd', 'T']))
    use['o']['rp'] = 'd'
    s.add(dict(use))
    for _ in range(r.randint(1, 3)):
        i = r.choice(items)
        act = r.choice(['set', 'poke', 'jin', 'iadd'] if fam == 'mass' and _ == 0 else ['set', 'poke'])
        if act == 'iadd':
            # another text, with codings of everybody
            if len(items) > 3 or '+' in items:
                continue
            length['+'] = r.randint(4, 9)
            s.add({'act': 'new', 'd': 'B', 'items': [['+', [[c, coding('+')] for c in coders]]], 'props': [], 'types': [], 'fmt': fam,
                   'c': r.choice(CONTAINERS), 'explicit': False})
            s.add({'act': 'iadd', 'd': 'A', 'other': 'B'})
        elif act == 'jin':
            f = {'k': 'json', 'type': ['linear'], 'items': [[[i, [[c, coding(i)] for c in coders]] for i in items]], 'props': []}
            s.add({'act': 'raw', 'path': 'a.json', 'file': f})
            s.add({'act': 'jin', 'path': 'a.json', 'to': 'A'})
        else:
            s.add({'act': act, 'd': 'A', 'i': i, 'c': r.choice(coders), 'v': coding(i)})
        s.add(dict(use))
    return s.ev


def gen_C29(r, scale):
    out = []
    for fn in USES:
        what = 'agree' if fn in ('aa', 'pi', 'kappa', 'bias') else 'wsize' if fn == 'wsize' else 'metric'
        for _ in range((5 if fn != 'wsize' else 12) * scale):
            out.append({'ev': asked_again(r, what, fn)})
    for j in range(150 * scale):
        s = DsScript(r)
        fam = r.choice(['mass', 'mass', 'mass', 'position', 'nltk', 'sets', 'types'])
        s.items = names_of(r, ITEMS, r.randint(1, 3))
        s.coders = names_of(r, CODERS, r.randint(2, 4))
        length = dict((i, r.choice([r.randint(3, 12), r.randint(8, 40)])) for i in s.items)
        base = dict((i, bits(r, length[i])) for i in s.items)
        pool = type_pool(r)
        odd = r.random() < 0.15

        def coding(item, fam=fam, length=length, base=base, pool=pool, odd=odd):
            n = length[item] + (1 if odd and r.random() < 0.1 else 0)
            if fam == 'types':
                return string(r, n - 1, pool)
            b = perturb_bits(r, base[item]) if r.random() < 0.7 and n == length[item] else bits(r, n)
            return dress(r, {'types': 'sets'}.get(fam, fam), b)['v']
        s.masses = coding
        fmt = 'sets' if fam == 'types' else fam
        s.fam = fmt if fmt in ('nltk', 'sets') else None
        s.formats = [fmt] if s.fam else ['mass', 'mass', 'position']
        files = fam == 'mass'
        s.acts = ['copy', 'iadd', 'add', 'set', 'set', 'set', 'poke', 'poke', 'delc', 'deli', 'touch', 'prop', 'type', 'coder', 'new', 'fmt', 'drop'] \
            + (['jout', 'jout', 'jin', 'jin'] if files else [])
        if r.random() < 0.6:
            s.acts = [a for a in s.acts if a not in ('fmt', 'touch', 'delc')]

        def full(name, items=None):
            rows = [[i, [[c, coding(i)] for c in r.sample(s.coders, len(s.coders))]] for i in (items or s.items)]
            s.ds[name] = dict((i, dict((c, s.fresh()) for c, _ in row)) for i, row in rows)
            s.props[name] = set()
            s.add({'act': 'new', 'd': name, 'items': rows, 'props': [], 'types': [], 'fmt': fmt, 'c': r.choice(CONTAINERS),
                   'explicit': r.random() < 0.3})

        def make(name, s=s):
            full(name, s.items[:r.randint(1, len(s.items))])
        s.new = make
        if len(s.items) > 1 and r.random() < 0.5:
            # parts to be merged
            k = r.randint(1, len(s.items) - 1)
            full('A', s.items[:k])
            full('B', s.items[k:])
        else:
            full('A')
            if r.random() < 0.5:
                full('B', s.items[:1])
        for _ in range(r.randint(3, 9)):
            if s.ds:
                s.add(any_use(r, s.names()))
            s.step(['A', 'B', 'C'], files=False)
        if s.ds:
            for _ in range(2):
                s.add(any_use(r, s.names()))
        out.append({'ev': s.ev})
    return number(out, 'C29')


GENERATORS = dict((name[4:], f) for name, f in list(globals().items()) if name.startswith('gen_C'))


# ==================================================== C27 histories of calls

# the public names of the package (docs/api.rst)
NAMES = ['boundary_similarity', 'segmentation_similarity', 'pk', 'window_diff', 'compute_window_size', 'summarize',
         'boundary_confusion_matrix', 'boundary_statistics', 'boundary_edit_distance', 'actual_agreement_linear',
         'fleiss_kappa_linear', 'fleiss_pi_linear', 'artstein_poesio_bias_linear', 'Dataset', 'input_linear_mass_tsv',
         'input_linear_mass_json', 'output_linear_mass_json', 'load_nested_folders_dict', 'ConfusionMatrix', 'Average',
         'precision', 'recall', 'fmeasure', 'BoundaryFormat', 'boundary_string_from_masses', 'convert_positions_to_masses',
         'convert_masses_to_positions', 'convert_nltk_to_masses', 'weight_a', 'weight_s', 'weight_s_scale', 'weight_t',
         'weight_t_scale', 'HEARST_1997_STARGAZER', 'HYPOTHESIS_STARGAZER', 'KAZANTSEVA2012_G5', 'KAZANTSEVA2012_G2',
         'COMPLETE_AGREEMENT', 'LARGE_DISAGREEMENT']


def call_alphabet(r):
    '''Groups of arguments in two versions each, and calls upon them.  Returns
    (groups, options, make): make(call, version) is the event.'''
    makers, groups, options = [], [], []

    def call(group, mk, special):
        makers.append(mk)
        groups.append(group)
        options.append(special)

    def two(mk):
        a = mk()
        while True:
            b = mk()
            if b != a:
                return {1: a, 2: b}
    nw = lambda: r.choice([2, 3, 4, 5])
    g = 0

    def mirrored(x):
        return dict(x, v=list(reversed(x['v'])))

    def three(f):
        a, b = pair_for_edits(r, False, f)
        return [a, b, mirrored(a)]

    def alike(mk, turn):
        '''The second version has the length, sum and content of the first, in
        another order.'''
        while True:
            a = mk()
            b = turn(a)
            if b != a:
                return {1: a, 2: b}

    def turned(d):
        return dict(d, items=[[i, [[c, list(reversed(v))] for c, v in row]] for i, row in d['items']])
    for f, same in (('mass', False), ('mass', True), ('position', r.random() < 0.5), ('nltk', r.random() < 0.5),
                    ('sets', r.random() < 0.5), ('types', False), ('types', True)):
        g += 1
        if same:
            V = alike(lambda: three(f), lambda x: [mirrored(y) for y in x])
        else:
            V = two(lambda: three(f))

        def seg(ver, side, V=V, g=g, f=f):
            d = dict(V[ver][side])
            d.update(c='list' if V[1][0]['f'] != 'nltk' else None, id='g%d%s' % (g, 'abc'[side]), ver=ver)
            if d['c'] is None:
                del d['c']
            d['lab'] = V[1][0].get('lab')
            if d['lab'] is None:
                del d['lab']
            if f in ('sets', 'types'):
                d['lab'] = 'set'
            return d

        def pairwise(fn, o, seg=seg, shape='pos', sides=(0, 1), **kw):
            return lambda ver: metric(fn, seg(ver, sides[0]), seg(ver, sides[1]), dict(o), shape, **kw)
        # the same arguments in other places
        for sides in ((1, 0), (0, 2), (2, 1), (0, 0)):
            if f in ('mass', 'types') or r.random() < 0.5:
                call(g, pairwise(r.choice(['B', 'S', 'bcm', 'stats'] + (['pk', 'wd'] if f not in ('sets', 'types') else [])), opts(), sides=sides), 0)
        fair = fair_weights(r) or ['a', 's', 't']
        wopts = opts(nt=nw(), w=fair, om='T')
        wopts['wid'] = 'w%d' % g
        call(g, pairwise('B', opts()), 0)
        call(g, pairwise('B', wopts), 1)
        if f in ('mass', 'types'):
            call(g, pairwise('B', opts(rp='T')), 1)
            call(g, pairwise('S', opts(nt=nw(), rp='T')), 1)
            call(g, pairwise('bcm', opts()), 0)
            call(g, pairwise('bcm', opts(nt=nw(), w=['a2', 's', 't'])), 1)
            call(g, pairwise('stats', opts()), 0)
        call(g, pairwise('S', opts()), 0)
        call(g, pairwise(r.choice(['B', 'S', 'bcm', 'stats']), opts(nt=nw()), shape='kw', kwlast=r.random() < 0.5), 1)
        if f not in ('sets', 'types'):
            call(g, pairwise('pk', opts()), 0)
            call(g, pairwise('wd', opts(lam='T', om='T')), 1)
        if f == 'mass':
            call(g, pairwise('pk', opts(k=3, om='T')), 1)
            call(g, pairwise('pk', opts(rp='T'), shape='kw'), 1)
            call(g, pairwise('wd', opts(lam='T', k=2), shape='kw', kwlast=True), 1)
            call(g, pairwise('pk', opts(rnd='plus3', rp='T')), 1)
            call(g, pairwise('wd', opts()), 0)
            call(g, pairwise('wd', opts(k=4, rp='T')), 1)
            for conv in ('m2p', 'm2s'):
                call(g, lambda ver, conv=conv, seg=seg: {'op': 'conv', 'conv': conv, 'v': seg(ver, 0)['v'], 'c': 'list', 'aid': seg(ver, 0)['id'], 'ver': ver}, 0)
            call(g, lambda ver, seg=seg: {'op': 'wsize', 'kind': 'pair', 'a': seg(ver, 0), 'o': opts(), 'fopt': 'omit'}, 0)
            call(g, lambda ver, seg=seg: {'op': 'wsize', 'kind': 'pair', 'a': seg(ver, 0), 'o': opts(rnd='plus3'), 'fopt': 'enum'}, 1)
        if f == 'position':
            call(g, lambda ver, seg=seg: {'op': 'conv', 'conv': 'p2m', 'v': seg(ver, 0)['v'], 'c': 'list', 'lab': seg(ver, 0).get('lab', 'int'),
                                          'aid': seg(ver, 0)['id'], 'ver': ver}, 0)
        if f == 'types':
            for nt in (-1, 4):
                call(g, lambda ver, seg=seg, nt=nt: bed(seg(ver, 0)['v'], seg(ver, 1)['v'], nt, [], c='list', lab='set', aid=seg(ver, 0)['id'], bid=seg(ver, 1)['id'], ver=ver), nt)
    g += 1
    # one string, where either of its characters may be the boundaries
    N = two(lambda: bits(r, r.randint(3, 9)))
    for sym, fill in (('1', 'x'), ('x', '1')):
        call(g, lambda ver, sym=sym, fill=fill, N=N: {'op': 'conv', 'conv': 'n2m', 'v': [x if sym == '1' else 1 - x for x in N[ver]],
                                                      'sym': sym, 'fill': fill}, 1 if sym == '1' else 0)
    for f, cls, same in (('mass', 'Dataset', r.random() < 0.5), ('types', 'Dataset', r.random() < 0.5), ('position', 'dict', r.random() < 0.5)):
        g += 1
        draw = lambda: proper(dataset(r, f, r.randint(1, 2), r.randint(2, 3), sparse=True))
        V = alike(draw, turned) if same else two(draw)

        def data(ver, V=V, g=g, cls=cls):
            d = dict(V[ver])
            d.update(c='list', lab=V[1]['lab'], cls=cls, fmt='str', how='init', coders='str', id='g%d' % g, ver=ver, shared=False)
            return d

        def agree(fn, cmp_, o, data=data):
            return lambda ver: {'op': 'agree', 'fn': fn, 'd': data(ver), 'cmp': cmp_, 'o': dict(o), 'fopt': 'enum'}
        call(g, agree('aa', 'B', opts(rp='T')), 1)
        call(g, agree('pi', 'B', opts()), 0)
        call(g, agree('kappa', 'S', opts(nt=3)), 1)
        call(g, agree('bias', 'B', opts()), 0)
        if cls == 'Dataset':
            over = lambda fn, o, data=data: lambda ver: metric_ds(fn, data(ver), dict(o))
            call(g, over('B', opts()), 0)
            call(g, over('bcm', opts(perm='T', nt=3)), 1)
            W = dict((v, redraw(r, V[v], f)) for v in (1, 2))

            def second(ver, W=W, V=V, g=g, cls=cls):
                d = dict(W[ver])
                d.update(c='list', lab=V[1]['lab'], cls=cls, fmt='str', how='init', coders='str', id='g%dx' % g, ver=ver, shared=False)
                return d
            both = lambda fn, o, shape, data=data, second=second: lambda ver: metric_ds(fn, data(ver), dict(o), shape, d2=second(ver))
            call(g, both('B', opts(), 'ds2pos'), 0)
            call(g, both('S', opts(om='T', nt=4), 'ds2kw'), 1)
            call(g, both(r.choice(['bcm', 'stats']), opts(), 'ds2kw'), 0)
            call(g, lambda ver, data=data: metric_ds('S', data(ver), opts(rp='T'), 'dskw'), 1)
            if f == 'mass':
                call(g, over('pk', opts(perm='F')), 1)
                call(g, over('wd', opts()), 0)
                call(g, both('wd', opts(lam='T'), 'ds2pos'), 1)
                call(g, both('pk', opts(), 'ds2kw'), 0)
                call(g, lambda ver, data=data: {'op': 'wsize', 'kind': 'ds', 'd': data(ver), 'o': opts()}, 0)
                call(g, lambda ver, data=data, g=g: {'op': 'save', 'd': data(ver), 'file': 'saved%d.json' % g}, 0)
    g += 1
    # files, with other content each time
    F = two(lambda: [table_rows(r), good_file(r)[0], table_rows(r), r.choice([',', '\t'])])
    call(g, lambda ver, F=F, g=g: {'op': 'table', 'file': 'g%d.tsv' % g, 'item': 'g%d' % g, 'rows': F[ver][0], 'positions': False}, 0)
    call(g, lambda ver, F=F, g=g: {'op': 'table', 'file': 'g%d.tsv' % g, 'item': 'g%d' % g, 'rows': F[ver][0], 'positions': True,
                                   'delim': F[ver][3], 'explicit': True}, 1)
    for kind in ('tsv', 'json'):
        call(g, lambda ver, F=F, g=g, kind=kind: {'op': 'folders', 'n': g, 'type': kind, 'dirs': [[], ['a'], ['a', 'b']], 'again': True, 'style': 'kw',
             'files': [{'path': ['a'], 'stem': 'x', 'ext': '.tsv', 'file': {'k': 'table', 'rows': F[ver][0]}},
                       {'path': ['a', 'b'], 'stem': 'y', 'ext': '.csv', 'file': {'k': 'table', 'rows': F[ver][2]}},
                       {'path': [], 'stem': 'z', 'ext': '.json', 'file': F[ver][1]}]}, 0)
    g += 1
    M = two(lambda: [['', random_matrix(r, 3)]])
    for measure, cls, avg in (('precision', [], 'd'), ('recall', [2], 'd'), ('fmeasure', [], 'macro'), ('fmeasure', [], 'd')):
        call(g, lambda ver, measure=measure, cls=cls, avg=avg, M=M, g=g:
             {'op': 'measure', 'measure': measure, 'cls': cls, 'avg': avg, 'beta': [2, 1] if measure == 'fmeasure' and avg == 'macro' else [1, 1],
              'passbeta': 'i' if measure == 'fmeasure' and avg == 'macro' else '', 'many': False, 'ms': M[ver], 'style': 'kw', 'aid': 'g%d' % g, 'ver': ver}, 1 if avg == 'macro' else 0)
    g += 1
    S = two(lambda: [['k%d' % i, 'd0.%d' % r.randint(0, 999)] for i in range(r.randint(2, 5))])
    call(g, lambda ver, S=S, g=g: {'op': 'summary', 'data': S[ver], 'aid': 'g%d' % g, 'ver': ver}, 0)
    g += 1
    # rejected calls
    bad = dict((v, (masses_of_bits(bits(r, 6)), masses_of_bits(bits(r, 7 + v)))) for v in (1, 2))
    for fn in ('B', 'pk', 'wd'):
        call(g, lambda ver, fn=fn, g=g: metric(fn, {'f': 'mass', 'v': bad[ver][0], 'c': 'list', 'id': 'g%da' % g, 'ver': ver},
                                               {'f': 'mass', 'v': bad[ver][1], 'c': 'list', 'id': 'g%db' % g, 'ver': ver}, opts(om='T')), 1)
    return groups, options, makers

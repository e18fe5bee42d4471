'''
Executes session scripts against the library in /repo (through its public API
only) and records what happened: one JSON line per session, each event with
its arguments as the specification sees them and the projected result.

usage: drive.py SCRIPTS TRACES [lazy]

Runs under the repository's own interpreter.  Every session runs in a process
of its own, forked before (lazy) or after the library is imported.
'''
from __future__ import print_function
import sys, os, json, signal, threading, shutil, tempfile, traceback, io, csv, resource, random, decimal, functools
from decimal import Decimal
from fractions import Fraction

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)

EVENT_SECONDS = int(os.environ.get('VERIF_EVENT_SECONDS', '20'))
LIMIT = 2 ** 31 - 1


class Timeout(BaseException):
    pass


def on_alarm(signum, frame):
    raise Timeout()


def lib():
    import segeval
    return segeval


def known(module, name):
    '''A class of the library if that was loaded by now: looking must not be
    what loads it.'''
    return getattr(sys.modules.get('segeval.' + module), name, ())


def boundary_format(f):
    from segeval import BoundaryFormat
    return getattr(BoundaryFormat, f)

# ------------------------------------------------------------------ results

def other(x):
    return {'k': 'other', 'r': ascii(x)[:200]}


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool) and abs(x) < LIMIT


def is_whole(x):
    return isinstance(x, int) and not isinstance(x, bool)


def num(x):
    '''The exact value of a number, as (-1)^neg * m * 1000^-e.'''
    if isinstance(x, bool):
        return other(x)
    if isinstance(x, int):
        d = Decimal(x)
    elif isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return other(x)
        d = Decimal(x)
    elif isinstance(x, Decimal):
        if not x.is_finite():
            return other(x)
        d = x
    else:
        return other(x)
    sign, digits, exp = d.as_tuple()
    n = int(''.join(map(str, digits)) or '0')
    if exp > 600 or exp < -1200:
        return other(x)
    if exp >= 0:
        n *= 10 ** exp
        e = 0
    else:
        e = (-exp + 2) // 3
        n *= 10 ** (3 * e + exp)
    while e > 0 and n % 1000 == 0:
        n //= 1000
        e -= 1
    m = []
    while n:
        m.append(n % 1000)
        n //= 1000
    return {'k': 'num', 'neg': bool(sign) and bool(m), 'm': m, 'e': e}


def is_edit_tuple(x, n):
    return isinstance(x, tuple) and len(x) == n


def adds(xs):
    out = []
    try:
        for x in xs:
            if not (is_edit_tuple(x, 2) and is_int(x[0]) and x[1] in ('a', 'b')):
                return other(xs)
            out.append([x[0], str(x[1])])
    except TypeError:
        return other(xs)
    return {'k': 'adds', 'v': out}


def ints_of(tag, n):
    def project(xs):
        out = []
        try:
            for x in xs:
                if not (is_edit_tuple(x, n) and all(is_int(y) for y in x)):
                    return other(xs)
                out.append(list(x))
        except TypeError:
            return other(xs)
        return {'k': tag, 'v': out}
    return project

subs = ints_of('subs', 2)
trs = ints_of('trs', 3)


def types_(xs):
    try:
        out = list(xs)
    except TypeError:
        return other(xs)
    if not all(is_int(x) for x in out):
        return other(xs)
    return {'k': 'types', 'v': out}


def seq(xs):
    if isinstance(xs, (list, tuple)) and all(is_int(x) for x in xs):
        return {'k': 'seq', 'v': list(xs)}
    return other(xs)


def sets(xs):
    if isinstance(xs, (list, tuple)) and all(isinstance(x, (set, frozenset)) and all(is_int(y) for y in x) for x in xs):
        return {'k': 'sets', 'v': [sorted(x) for x in xs]}
    return other(xs)


def edits(r):
    if isinstance(r, tuple) and len(r) == 3:
        return {'k': 'edits', 'add': adds(r[0]), 'sub': subs(r[1]), 'tr': trs(r[2])}
    return other(r)


NOTHING = -1000000         # NoBoundary in the specification


def matrix(r):
    if not isinstance(r, known('ml', 'ConfusionMatrix')):
        return other(r)

    def label(x):
        return NOTHING if x is None else x
    cls = [label(c) for c in r.classes()]
    cells = []
    for p, row in r.items():
        for a, v in row.items():
            cells.append([[label(p), label(a)], num(v)])
    flat = cls + [x for c in cells for x in c[0]]
    if not all(is_int(x) for x in flat):
        return other(r)
    return {'k': 'cm', 'v': cells, 'cls': cls}


def stats(r):
    names = {'count_edits', 'additions', 'substitutions', 'transpositions', 'full_misses',
             'boundaries_all', 'matches', 'pbs', 'boundary_types'}
    if not (isinstance(r, dict) and names <= set(r)):
        return other(r)
    return {'k': 'stats', 'add': adds(r['additions']), 'sub': subs(r['substitutions']),
            'tr': trs(r['transpositions']), 'match': types_(r['matches']),
            'miss': types_(r['full_misses']), 'types': types_(r['boundary_types']),
            'all': num(r['boundaries_all']), 'pbs': num(r['pbs']), 'count': num(r['count_edits'])}


def tuple_(r):
    return {'k': 'tuple', 'v': [num(x) for x in r]}


def value(fn):
    '''Projection of the result of metric fn on one pair.'''
    def project(r):
        if fn == 'bcm':
            return matrix(r)
        if fn == 'stats':
            return stats(r)
        if isinstance(r, tuple):
            if fn == 'B' and len(r) == 5:
                return {'k': 'tuple', 'v': [num(r[0]), num(r[1]), adds(r[2]), subs(r[3]), trs(r[4])]}
            return tuple_(r)
        return num(r)
    return project


def collection_key(name):
    '''What a name stands for as a key of a collection.'''
    if not name.startswith('#'):
        return name
    kind, rest = name[1], name[2:]
    return {'i': lambda: int(rest), 'n': lambda: None, 't': lambda: ('t', int(rest)), 'f': lambda: int(rest) / 100.0}[kind]()


def key_name(k):
    if isinstance(k, str):
        return k
    if k is None:
        return '#n'
    if is_int(k):
        return '#i%d' % k
    if isinstance(k, float):
        return '#f%d' % round(k * 100)
    if isinstance(k, tuple) and len(k) == 2 and k[0] == 't' and is_int(k[1]):
        return '#t%d' % k[1]
    return None


def mapping(project):
    def go(r):
        if not isinstance(r, dict) or any(key_name(k) is None for k in r):
            return other(r)
        return {'k': 'map', 'v': [[key_name(k), project(v)] for k, v in r.items()]}
    return go


def agreement_result(fn):
    def project(r):
        if isinstance(r, tuple):
            if fn == 'aa':
                if len(r) != 4 or not isinstance(r[3], dict) or len(set(map(len, r[:3]))) != 1:
                    return other(r)
                rows = [[num(x) for x in row] for row in zip(*r[:3])]
                placed = [[str(c), [[num(x) for x in pair] for pair in infos]] for c, infos in r[3].items()]
                flat = [x for row in rows for x in row] + [x for _, infos in placed for i in infos for x in i]
                if any(x['k'] != 'num' for x in flat) or any(len(i) != 2 for _, infos in placed for i in infos):
                    return other(r)
                return {'k': 'aaparts', 'rows': rows, 'placed': placed}
            return tuple_(r)
        return num(r)
    return project


def canonical(v):
    return json.dumps(v, sort_keys=True, ensure_ascii=True)


BIG = 1500000000


def number_of(x):
    '''The number that an event's number stands for: those beyond what TLC
    reads stand for still greater ones.'''
    return 2 ** 60 + 12345678901 * (x - BIG) + 3 if x >= BIG else x


def sign_of(x):
    '''What a number is written as (the inverse of number_of).'''
    if -BIG < x < BIG:
        return int(x)
    j, rest = divmod(x - 3 - 2 ** 60, 12345678901)
    if rest == 0 and 0 <= j < 400000000:
        return BIG + j
    return 2100000000 + abs(x) % 40000000


def content(v):
    '''A coding as numbers: masses, labels, 0/1 characters, or sets of types.'''
    if isinstance(v, str):
        return [int(x == '1') for x in v]
    if isinstance(v, (tuple, list)):
        if all(is_whole(x) for x in v):
            return [sign_of(x) for x in v]
        if all(isinstance(x, (set, frozenset)) and all(is_int(y) for y in x) for x in v):
            return [sorted(x) for x in v]
    return None


def dataset_value(d):
    '''The content of a dataset.'''
    if not isinstance(d, known('data', 'Dataset')):
        return None
    items = []
    for i, codings in list(dict.items(d)):
        if not isinstance(i, str) or not isinstance(codings, dict):
            return None
        row = []
        for c, masses in codings.items():
            v = content(masses)
            if v is None:
                return None
            row.append([str(c), v])
        items.append([i, row])
    try:
        if not all(is_int(t) for t in d.boundary_types) or not isinstance(d.boundary_format, str):
            return None
        return {'items': items, 'coders': [str(c) for c in d.coders],
                'props': [[k, canonical(v)] for k, v in d.properties.items()],
                'types': list(d.boundary_types), 'fmt': d.boundary_format}
    except Exception:
        return None


def dataset_result(d):
    v = dataset_value(d)
    if v is None:
        return other(d)
    if not all(isinstance(m, tuple) for codings in d.values() for m in codings.values()):
        return other(d)          # loaders promise tuples
    v['k'] = 'ds'
    return v


def error(exc):
    if isinstance(exc, known('util', 'SegmentationMetricError')):
        return {'k': 'err', 'c': 'metric'}
    if isinstance(exc, known('data', 'DataIOError')):
        return {'k': 'err', 'c': 'data'}
    return {'k': 'err', 'c': type(exc).__name__, 'm': ascii(str(exc))[:200]}

# ---------------------------------------------------------------- arguments

def seq_of(c, xs):
    return list(xs) if c in ('list', None) else tuple(xs)


class Label(object):
    '''A label that is equal to others of its number, and unlike anything else.'''
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Label) and self.n == o.n

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('Label', self.n))

    def __repr__(self):
        return 'Label(%d)' % self.n


class Clash(Label):
    def __hash__(self):
        return 1

    def __eq__(self, o):
        return isinstance(o, Clash) and self.n == o.n

    def __repr__(self):
        return 'Clash'


def label_maker(lab):
    '''Labels of positions: a new object on every call.'''
    turn = [0]

    def make(i):
        if lab in (None, 'int'):
            return i
        if lab == 'big':
            return i * 1000003 + 10 ** 12
        if lab == 'neg':
            return -i
        if lab == 'str':
            return ''.join(['seg', str(i)])
        if lab == 'char':
            return chr(96 + i) if i < 26 else ''.join(['z', str(i)])
        if lab == 'float':
            return i / 4.0
        if lab == 'tuple':
            return (i, str(i))
        if lab == 'none':
            return None if i == 1 else i
        if lab == 'object':
            return Label(i)
        if lab == 'alike':           # different, but the same when printed
            return (i + 1) // 2 if i % 2 else str((i + 1) // 2)
        if lab == 'prefix':
            return 'a' * i
        if lab == 'case':
            return 'aAbBcCdDeEfF'[(i - 1) % 12] * ((i + 11) // 12)
        if lab == 'close':
            return 1.0 + i * 2.0 ** -40
        if lab == 'falsy':
            return [0, '', None, (), 0.5][i - 1] if i < 6 else i
        if lab == 'clashing':        # equal hashes
            return Clash(i)
        if lab == 'sets':
            return frozenset([i]) if i % 2 else frozenset([i, i - 1])
        if lab == 'lists':           # labels that cannot be hashed
            return [i, [str(i)]]
        if lab == 'equal':           # equal, of several types
            turn[0] += 1
            return [int, float, Decimal, Fraction][turn[0] % 4](i)
        if lab == 'mixed':
            return [i, ''.join(['m', str(i)]), (i,), i + 0.5][i % 4]
        raise ValueError(lab)
    return make


def segmentation(f, v, c=None, lab=None):
    if f == 'mass':
        if c == 'int':
            return v[0]
        return seq_of(c, v)
    if f == 'position':
        make = label_maker(lab)
        return seq_of(c, [make(x) for x in v])
    if f == 'nltk':
        fill = {None: '0', 'dash': '-', 'x': 'x'}.get(lab)
        if fill is None:
            fill = '0'
        if lab == 'varied':
            return ''.join('1' if x else '0-x '[i % 4] for i, x in enumerate(v))
        return ''.join('1' if x else fill for x in v)
    if f == 'sets':
        mk = set if lab == 'set' else frozenset
        return seq_of(c, [mk(x) for x in v])
    raise ValueError(f)


def unite(a, b, equal):
    '''The same for the library, with one object for what is equal.'''
    if equal:
        return a, a
    if all(isinstance(x, (set, frozenset)) for s in (a, b) for x in s):
        objects = {}
        return tuple(type(s)(objects.setdefault(tuple(sorted(x)), x) for x in s) for s in (a, b))
    return a, b


def coder_name(c, kind):
    return int(c) if kind == 'int' else c


def dataset(d):
    data = {}
    objects = {}
    for item, codings in d['items']:
        data[item] = {}
        for coder, v in codings:
            x = segmentation(d['f'], v, d.get('c'), d.get('lab'))
            if d.get('shared'):
                # equal codings are one object
                x = objects.setdefault(json.dumps(v), x)
            data[item][coder_name(coder, d.get('coders'))] = x
    fmt = d['f'] if d.get('fmt', 'str') == 'str' else boundary_format(d['f'])
    if d.get('fmt') == 'dyn':
        fmt = ''.join(list(d['f']))
    if d.get('cls') == 'dict':
        return data
    from segeval import Dataset
    if d.get('how') == 'assign':
        ds = Dataset(boundary_format=fmt)
        for item in data:
            for coder in data[item]:
                ds[item][coder] = data[item][coder]
        return ds
    if d['f'] == 'mass' and d.get('fmt') == 'omit':
        return Dataset(data)
    if d.get('how') == 'later':
        # some given at once, the rest assigned
        first = dict((i, dict(list(row.items())[::2])) for i, row in list(data.items())[:max(1, len(data) // 2)])
        ds = Dataset(first, boundary_format=fmt)
        for item in data:
            for coder in data[item]:
                if coder not in first.get(item, {}):
                    ds[item][coder] = data[item][coder]
        return ds
    return Dataset(data, boundary_format=fmt)


def nested():
    '''A call of the library from within a call.'''
    import segeval
    a, b = [2, 3, 1], [1, 4, 1]
    segeval.boundary_similarity(a, b, n_t=3, one_minus=True, weight=(segeval.weight_a, segeval.weight_s, segeval.weight_t))
    segeval.pk(a, b, window_size=3, return_parts=True)
    segeval.boundary_confusion_matrix(b, a)
    segeval.window_diff(a, b, lamprier_et_al_2007_fix=True)


def w_add(name):
    half = Decimal(1) / 2
    def nest(additions):
        nested()
        return len(additions)
    if name == 'a_nest':
        return nest
    def types(additions):
        return sum(x[0] for x in additions) / Decimal(4)
    def side(additions):
        return sum(3 if x[1] == 'a' else 1 for x in additions)
    table = {'a2': lambda additions: 2 * len(additions), 'a4': lambda additions: 4 * len(additions), 'a_half': lambda additions: len(additions) * half,
             'a_half_f': lambda additions: len(additions) * 0.5,
             'a_side': side, 'a_type': types, 'a_zero': lambda additions: 0, 'a_base': lambda additions: len(additions) + 1}
    return table[name]


def w_sub(name):
    half = Decimal(1) / 2
    def args(substitutions, max_s, min_s=1):
        return len(substitutions) * (max_s * 5 + min_s) / Decimal(8)
    def direct(substitutions, max_s, min_s=1):
        return sum(2 * x[0] + x[1] for x in substitutions) / Decimal(4)
    table = {'s4': lambda substitutions, max_s, min_s=1: 4 * len(substitutions), 's_args': args, 's_dir': direct, 's_half': lambda substitutions, max_s, min_s=1: len(substitutions) * half,
             's_half_f': lambda substitutions, max_s, min_s=1: len(substitutions) * 0.5,
             's_zero': lambda substitutions, max_s, min_s=1: 0,
             's_base': lambda substitutions, max_s, min_s=1: 3 * len(substitutions) + 1}
    return table[name]


def w_tr(name):
    half = Decimal(1) / 2
    def nest(transpositions, max_n):
        nested()
        return len(transpositions)
    if name == 't_nest':
        return nest
    def args(transpositions, max_n):
        return len(transpositions) * max_n / Decimal(8)
    def pos(transpositions, max_n):
        return sum(2 * x[0] + x[1] + x[2] for x in transpositions) / Decimal(4)
    table = {'t4': lambda transpositions, max_n: 4 * len(transpositions), 't_args': args, 't_pos': pos, 't_half': lambda transpositions, max_n: len(transpositions) * half,
             't_half_f': lambda transpositions, max_n: len(transpositions) * 0.5,
             't_zero': lambda transpositions, max_n: 0, 't_base': lambda transpositions, max_n: len(transpositions) + 2}
    return table[name]


def weights(w, fl, wrap=None):
    import segeval
    public = {'a': 'weight_a', 's': 'weight_s', 's_scale': 'weight_s_scale',
              't': 'weight_t', 't_scale': 'weight_t_scale'}
    makers = [w_add, w_sub, w_tr]
    out = []
    for name, mk in zip(w, makers):
        if name in public:
            out.append(getattr(segeval, public[name]))
        else:
            out.append(dressed(mk(name + '_f' if fl and name.endswith('_half') else name), wrap))
    return tuple(out)


class Callable(object):

    def __init__(self, f):
        self.f = f

    def __call__(self, *args, **kwargs):
        return self.f(*args, **kwargs)

    def method(self, *args, **kwargs):
        return self.f(*args, **kwargs)


def dressed(f, how):
    '''A function in one of the forms that callables come in.'''
    return {None: f, 'object': Callable(f), 'method': Callable(f).method, 'partial': functools.partial(f)}[how]


def rounding(name):
    import math
    if name == 'round_nest':
        def nest(x):
            nested()
            return round(x)
        return nest
    return {'round': round, 'floor': math.floor, 'ceil': math.ceil, 'int': int,
            'identity': lambda x: x, 'plus3': lambda x: math.floor(x) + 3,
            'half_up': lambda x: math.floor(x + Decimal('0.5')),
            'zero': lambda x: 0, 'negative': lambda x: -math.floor(x)}[name]


def options(o):
    kw = {}
    flag = {'T': True, 'F': False}
    if o.get('nt', -1) != -1:
        kw['n_t'] = o['nt']
    if o.get('w'):
        kw['weight'] = weights(o['w'], o.get('fl'), o.get('wrap'))
        if o.get('wlist'):
            kw['weight'] = list(kw['weight'])
    if o.get('om', 'd') != 'd':
        kw['one_minus'] = flag[o['om']]
    if o.get('rp', 'd') != 'd':
        kw['return_parts'] = flag[o['rp']]
    if o.get('k', -1) != -1:
        kw['window_size'] = o['k']
    elif o.get('knone'):
        kw['window_size'] = None
    if o.get('rnd', 'd') != 'd':
        kw['fnc_round'] = dressed(rounding(o['rnd']), o.get('wrap'))
    if o.get('lam', 'd') != 'd':
        kw['lamprier_et_al_2007_fix'] = flag[o['lam']]
    if o.get('perm', 'd') != 'd':
        kw['permuted'] = flag[o['perm']]
    return kw


def surroundings():
    '''What a call finds around it and has to leave as it is.'''
    c = decimal.getcontext()
    return (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, sorted(str(t) for t, on in c.traps.items() if on),
            os.getcwd(), sys.getrecursionlimit(), random.getstate())


def snapshot(x):
    '''A deep rendering of an argument, to see whether it was changed.'''
    if isinstance(x, known('data', 'Dataset')):
        return ('Dataset', [(k, snapshot(v)) for k, v in dict.items(x)], sorted(map(repr, x.coders)),
                repr(sorted(x.properties.items())), sorted(x.boundary_types), x.boundary_format)
    if isinstance(x, dict):
        return (type(x).__name__, [(repr(k), snapshot(v)) for k, v in dict.items(x)])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snapshot(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(repr(v) for v in x))
    return repr(x)

def become(old, new):
    '''Change an argument in place into another value, as far as it can change.'''
    if isinstance(old, list) and isinstance(new, list):
        if len(old) == len(new) and all(isinstance(x, set) for x in old + new):
            for x, y in zip(old, new):
                x.clear()
                x.update(y)
        else:
            old[:] = new
        return old
    if isinstance(old, known('ml', 'ConfusionMatrix')):
        old.clear()
        for p, row in dict.items(new):
            old[p]
            for a, v in row.items():
                old[p][a] = v
        return old
    if isinstance(old, dict) and type(old) is type(new):
        for k in [k for k in old if k not in new]:
            del old[k]
        for k, v in dict.items(new):
            if isinstance(v, dict):
                if k not in old:
                    old[k] = {}
                row = old[k]
                for c in [c for c in row if c not in v]:
                    del row[c]
                for c in v:
                    row[c] = become(row[c], v[c]) if c in row else v[c]
            else:
                old[k] = v
        return old
    return new


def containers(x, found):
    '''The changeable objects an argument consists of, by identity.'''
    if isinstance(x, (list, dict, set, tuple)):
        if not isinstance(x, tuple):
            found[id(x)] = x
        for y in (list(dict.values(x)) if isinstance(x, dict) else list(x)):
            containers(y, found)
    return found


def spoil(x, keep):
    '''The caller does what it likes with a result.'''
    if isinstance(x, dict):
        for y in list(dict.values(x)):
            spoil(y, keep)
        if id(x) not in keep:
            dict.clear(x)
            dict.__setitem__(x, 'spoilt', {'spoilt': 1})
    elif isinstance(x, (list, set, tuple)):
        for y in list(x):
            spoil(y, keep)
        if id(x) in keep or isinstance(x, tuple):
            return
        if isinstance(x, list):
            del x[::2]
            x.append(99)
        else:
            x.clear()
            x.add(99)

# ------------------------------------------------------------------- events

METRICS = {'B': 'boundary_similarity', 'S': 'segmentation_similarity', 'pk': 'pk', 'wd': 'window_diff',
           'bcm': 'boundary_confusion_matrix', 'stats': 'boundary_statistics'}
AGREEMENT = {'aa': 'actual_agreement_linear', 'pi': 'fleiss_pi_linear', 'kappa': 'fleiss_kappa_linear',
             'bias': 'artstein_poesio_bias_linear'}


class Session(object):

    def __init__(self, script):
        self.script = script
        self.raw = {}            # key -> raw result
        self.lock = threading.Lock()
        self.mats = {}
        self.rows = {}
        self.labels = script.get('labels')
        if script.get('lset'):
            use_labels(script['lset'])
        self.dss = {}
        self.dir = self.elsewhere = None
        self.hung = False
        self.args = {}           # arguments that are reused between calls

    def arg(self, d, make):
        '''An argument object: made anew, or the one made before under this
        name, changed in place if the caller has changed its mind.'''
        name, ver = (d.get('id'), d.get('ver', 1)) if isinstance(d, dict) else (d, 1)
        if not name:
            return make()
        if name not in self.args:
            self.args[name] = (ver, make())
        elif self.args[name][0] != ver:
            self.args[name] = (ver, become(self.args[name][1], make()))
        return self.args[name][1]

    def options(self, o):
        kw = options(o)
        if o.get('wid') and 'weight' in kw:
            kw['weight'] = self.arg(o['wid'], lambda: kw['weight'])
        return kw

    # --- functional calls
    def ev_conv(self, e):
        import segeval
        v = e['v']
        c = e.get('c')
        me = {'id': e.get('aid'), 'ver': e.get('ver', 1)}
        if e['conv'] == 'm2p':
            x = self.arg(me, lambda: seq_of(c, v))
            return x, lambda: segeval.convert_masses_to_positions(x), seq
        if e['conv'] == 'p2m':
            x = self.arg(me, lambda: segmentation('position', v, c, e.get('lab')))
            return x, lambda: segeval.convert_positions_to_masses(x), seq
        if e['conv'] == 'n2m':
            sym = e.get('sym')
            if sym is None:
                x = segmentation('nltk', v, None, e.get('lab'))
                return x, lambda: segeval.convert_nltk_to_masses(x), seq
            fills = [e['fill']] if e.get('fill') else [ch for ch in '0x-.1' if ch not in sym]
            x = ''.join(sym if y else fills[i % len(fills)] for i, y in enumerate(v))
            if e.get('kw'):
                return x, lambda: segeval.convert_nltk_to_masses(string=x, boundary_symbol=sym), seq
            return x, lambda: segeval.convert_nltk_to_masses(x, sym), seq
        if e['conv'] == 'm2s':
            x = self.arg(me, lambda: seq_of(c, v))
            return x, lambda: segeval.boundary_string_from_masses(x), sets
        if e['conv'] == 'm2p2m':
            x = seq_of(c, v)
            return x, lambda: segeval.convert_positions_to_masses(segeval.convert_masses_to_positions(x)), seq
        raise ValueError(e['conv'])

    def ev_bed(self, e):
        import segeval
        a = self.arg({'id': e.get('aid'), 'ver': e.get('ver', 1)}, lambda: segmentation('sets', e['a'], e.get('c'), e.get('lab')))
        b = self.arg({'id': e.get('bid'), 'ver': e.get('ver', 1)}, lambda: segmentation('sets', e['b'], e.get('c'), e.get('lab')))
        if e.get('one'):
            a, b = unite(a, b, e['a'] == e['b'])
        style = e.get('style')
        if style == 'kw':
            if e['nt'] == -1:
                f = lambda: segeval.boundary_edit_distance(boundary_string_a=a, boundary_string_b=b)
            else:
                f = lambda: segeval.boundary_edit_distance(boundary_string_b=b, n_t=e['nt'], boundary_string_a=a)
        elif e['nt'] == -1:
            f = lambda: segeval.boundary_edit_distance(a, b)
        elif style == 'pos3':
            f = lambda: segeval.boundary_edit_distance(a, b, e['nt'])
        else:
            f = lambda: segeval.boundary_edit_distance(a, b, n_t=e['nt'])
        return (a, b), f, edits

    def ev_metric(self, e):
        import segeval
        fn = getattr(segeval, METRICS[e['fn']])
        kw = self.options(e['o'])
        shape = e['shape']
        project = value(e['fn'])
        objs = {}
        if 'a' in e:
            a = self.arg(e['a'], lambda: segmentation(e['a']['f'], e['a']['v'], e['a'].get('c'), e['a'].get('lab')))
            b = self.arg(e['b'], lambda: segmentation(e['b']['f'], e['b']['v'], e['b'].get('c'), e['b'].get('lab')))
            if e.get('one'):
                a, b = unite(a, b, e['a']['v'] == e['b']['v'])
            if 'third' in e:
                objs['third'] = e['third']
            objs['seg'] = [a, b]
            fopt = e.get('fopt', 'enum')
            if e['f'] == 'unknown':
                kw['boundary_format'] = e.get('bogus', 'bogus')
            elif fopt == 'omit':
                assert e['f'] == 'mass'
            elif fopt == 'enum':
                kw['boundary_format'] = boundary_format(e['f'])
            else:
                kw['boundary_format'] = ''.join(list(e['f']))
        if 'd' in e:
            d = self.arg(e['d'], lambda: dataset(e['d']))
            objs['ds'] = [d]
            if 'd2' in e:
                objs['ds'].append(d if e.get('one') else self.arg(e['d2'], lambda: dataset(e['d2'])))
            project = mapping(project)
        pools = dict((k, list(v)) for k, v in objs.items() if k != 'third')

        def take(kind, j):
            xs = pools[kind]
            return xs[j] if j < len(xs) else xs[-1]
        pos = [take(kind, j) for j, kind in enumerate(shape['pos'])]
        keywords = []
        if shape['hyp']:
            keywords.append(('hypothesis', take(shape['hyp'], 0)))
        if shape['ref']:
            keywords.append(('reference', take(shape['ref'], 1)))
        if shape['dataset']:
            keywords.append(('dataset', take(shape['dataset'], 0)))
        if e.get('kwlast'):
            keywords.reverse()
        allkw = dict(keywords)
        allkw.update(kw)
        args = (pos, allkw)
        shown = [pos, [v for k, v in keywords], kw.get('weight')]
        if e.get('pairproj'):
            project = value(e['fn'])
        return shown, lambda: fn(*pos, **allkw), project

    def ev_pipe(self, e):
        '''A metric, whose result is given to a measure or a summary.'''
        import segeval
        shown, call, _ = self.ev_metric(e)
        stages = []
        for to in ([e['via']] if e.get('via') else []) + [e['to']]:
            if to == 'summary':
                stages.append(segeval.summarize)
                continue
            kw = {}
            if e['cls']:
                kw['classification'] = e['cls'][0]
            if e['avg'] != 'd':
                kw['version'] = getattr(segeval.Average, e['avg'])
            if to == 'fmeasure' and e['beta'] != [1, 1]:
                kw['beta'] = Decimal(e['beta'][0]) / e['beta'][1] if e.get('passbeta') != 'f' else float(e['beta'][0]) / e['beta'][1]
            stages.append(lambda x, f=getattr(segeval, to), kw=kw: f(x, **kw))

        def go():
            x = call()
            for f in stages:
                x = f(x)
            return x
        if e['to'] == 'summary':
            project = lambda r: tuple_(r) if isinstance(r, tuple) else other(r)
        else:
            project = num if e['kind'] == 'pair' else mapping(num)
        return shown, go, project

    def ev_weight(self, e):
        import segeval
        fn = getattr(segeval, 'weight_' + e['fn'])
        v = seq_of(e.get('c'), [tuple(x[:2]) if e['fn'][0] == 'a' else tuple(x) for x in e['v']])
        n = [x for x in e['n'] if x != -1]
        if e.get('kw'):
            kw = dict(zip({'a': [], 's': ['max_s', 'min_s'], 't': ['max_n']}[e['fn'][0]], n))
            return v, lambda: fn(v, **kw), num
        return v, lambda: fn(v, *n), num

    def ev_name(self, e):
        import segeval
        n = e['n']
        return None, lambda: getattr(segeval, n), lambda x: {'k': 'seq', 'v': [int(x is getattr(segeval, n))]}

    def ev_wsize(self, e):
        import segeval
        kw = self.options(e['o'])
        if e['kind'] == 'pair':
            x = self.arg(e['a'], lambda: segmentation(e['a']['f'], e['a']['v'], e['a'].get('c'), e['a'].get('lab')))
            f = e['a']['f']
        elif e['kind'] == 'bad':
            x = {'int': 7, 'str': 'abc', 'none': None, 'float': 2.5, 'nested': {'i': {'c': 5}},
                 'nestedstr': {'i': {'c': 'ab'}}}[e['bad']]
            f = 'mass'
        else:
            x = self.arg(e['d'], lambda: dataset(e['d']))
            f = e['d']['f']
        if f != 'mass' or e.get('fopt') != 'omit':
            kw['boundary_format'] = boundary_format(f)
        if e.get('style') == 'kw':
            return x, lambda: segeval.compute_window_size(reference=x, **kw), num
        return x, lambda: segeval.compute_window_size(x, **kw), num

    def ev_agree(self, e):
        import segeval
        fn = getattr(segeval, AGREEMENT[e['fn']])
        d = self.arg(e['d'], lambda: dataset(e['d']))
        kw = self.options(e['o'])
        if e['d'].get('cls') == 'dict' and not (e['d']['f'] == 'mass' and e.get('fopt') == 'omit'):
            kw['boundary_format'] = boundary_format(e['d']['f'])
        if e['cmp'] == 'S':
            kw['fnc_compare'] = segeval.segmentation_similarity
        elif e.get('explicit'):
            kw['fnc_compare'] = segeval.boundary_similarity
        if e.get('style') == 'kw':
            return (d,), lambda: fn(dataset=d, **kw), agreement_result(e['fn'])
        return (d,), lambda: fn(d, **kw), agreement_result(e['fn'])

    def ev_summary(self, e):
        import segeval
        if e.get('from'):
            vals = self.raw.get(e['from'])
        else:
            vals = {}
            for name, t in e['data']:
                kind, text = t[0], t[1:]
                vals[name] = Decimal(text) if kind == 'd' else int(text)
            made = vals
            vals = self.arg({'id': e.get('aid'), 'ver': e.get('ver', 1)}, lambda: made)
        if isinstance(vals, dict):
            e['vals'] = [num(v) for v in vals.values()]
        else:
            e['vals'] = []
        return vals, lambda: segeval.summarize(vals), lambda r: tuple_(r) if isinstance(r, tuple) else other(r)

    def ev_measure(self, e):
        import segeval
        labels = self.labels

        def build(rows):
            m = segeval.ConfusionMatrix()
            for p, row in rows:
                m[LABELS[p]]
                for a, (n, d) in row:
                    v = n if d == 1 and e.get('dec') != 'D' else Decimal(n) / Decimal(d)
                    if e.get('dec') == 'f':
                        v = float(n) / d
                    m[LABELS[p]][LABELS[a]] = v
            return m
        ms = [self.arg({'id': e.get('aid') and '%s/%d' % (e['aid'], j), 'ver': e.get('ver', 1)}, lambda: build(rows))
              for j, (_, rows) in enumerate(e['ms'])]
        if e['many']:
            arg = dict((collection_key(l), m) for (l, _), m in zip(e['ms'], ms))
            project = mapping(num)
        else:
            arg = ms[0]
            project = num
        return arg, self.measure_call(e, arg), project

    def measure_call(self, e, arg):
        import segeval
        fn = getattr(segeval, e['measure'])
        kw = {}
        pos = [arg]
        if e['cls']:
            if e.get('style') == 'pos':
                pos.append(LABELS[e['cls'][0]])
            else:
                kw['classification'] = LABELS[e['cls'][0]]
        if e['avg'] in ('micro', 'macro'):
            kw['version'] = getattr(segeval.Average, e['avg'])
        elif e['avg'] == 'unknown':
            kw['version'] = e.get('bogus', 'harmonic')
        if e['measure'] == 'fmeasure' and e.get('passbeta'):
            n, d = e['beta']
            kw['beta'] = {'D': Decimal(n) / d, 'f': float(n) / d, 'i': n // d}[e['passbeta']]
        if e.get('style') == 'kw':
            kw['matrix'] = pos.pop(0)
        return lambda: fn(*pos, **kw)

    # --- confusion matrices
    def ev_cm(self, e):
        import segeval
        act = e['act']
        m = self.mats.get(e.get('mat'))
        p = LABELS[e['p']] if 'p' in e else None
        a = LABELS[e['a']] if 'a' in e and act != 'from' else None
        v = None
        if 'v' in e:
            n, d = e['v']
            v = n if d == 1 and not e.get('dec') else Decimal(n) / d

        def labels(c):
            if not isinstance(c, (set, frozenset)) or not all(x in INDEX for x in c):
                return other(c)
            return {'k': 'labels', 'v': sorted(INDEX[x] for x in c)}
        none = lambda r: {'k': 'none'}
        if act == 'new':
            def f():
                self.mats[e['mat']] = segeval.ConfusionMatrix()
            return None, f, none
        if act == 'from':
            x = segmentation(e['a']['f'], e['a']['v'], e['a'].get('c'), e['a'].get('lab'))
            y = segmentation(e['b']['f'], e['b']['v'], e['b'].get('c'), e['b'].get('lab'))
            kw = {} if e['nt'] == -1 else {'n_t': e['nt']}

            def f():
                self.mats[e['mat']] = segeval.boundary_confusion_matrix(x, y, boundary_format=boundary_format(e['a']['f']), **kw)
            return None, f, none
        if act == 'get':
            if e.get('how') == 'setdefault':
                return None, lambda: m[p].setdefault(a, 0), num
            return None, lambda: m[p][a], num
        if act == 'set':
            def f():
                if e.get('how') == 'update':
                    m[p].update({a: v})
                else:
                    m[p][a] = v
            return None, f, none
        if act == 'inc':
            def f():
                m[p][a] += v
                return dict.__getitem__(m, p)[a]
            return None, f, num
        if act == 'row':
            def f():
                self.rows[e['h']] = m[p]
            return None, f, none
        if act == 'hget':
            return None, lambda: self.rows[e['h']][a], num
        if act == 'hset':
            def f():
                self.rows[e['h']][a] = v
            return None, f, none
        if act == 'delrow':
            def f():
                if e.get('how') == 'pop':
                    m.pop(p)
                elif e.get('how') == 'popitem' and list(m)[-1] == p:
                    m.popitem()
                else:
                    del m[p]
            return None, f, none
        if act == 'delcell':
            def f():
                if e.get('how') == 'pop':
                    m[p].pop(a)
                elif e.get('how') == 'popitem' and list(m[p])[-1] == a:
                    m[p].popitem()
                elif e.get('how') == 'clear' and len(m[p]) == 1:
                    m[p].clear()
                else:
                    del m[p][a]
            return None, f, none
        if act == 'clear':
            return None, lambda: m.clear(), none
        if act == 'setrow':
            def f():
                m[p] = {} if e.get('how') != 'int' else 3
            return None, f, none
        if act == 'classes':
            return None, lambda: m.classes(), labels
        if act == 'taint':
            def f():
                c = m.classes()
                r = labels(c)
                if isinstance(c, set):
                    c.add('something new')
                    c.discard(a)
                return r
            return None, f, lambda r: r
        if act == 'measure':
            return None, self.measure_call(dict(e), m), num
        raise ValueError(act)

    def cm_state(self):
        ms = []
        for name, m in self.mats.items():
            rows = []
            for p, row in dict.items(m):
                if p not in INDEX or not all(a in INDEX for a in row):
                    return {'k': 'other'}
                rows.append([INDEX[p], [[INDEX[a], num(v)] for a, v in row.items()]])
            ms.append([name, rows])
        return {'k': 'state', 'ms': ms}

    # --- datasets and files
    def path(self, p):
        with self.lock:
            if self.dir is None:
                self.dir = tempfile.mkdtemp(prefix='segeval-verif-')
        here = threading.current_thread()
        if here is not threading.main_thread():
            # every thread has files of its own
            p = os.path.join('thread%d' % here.ident, p)
            if not os.path.isdir(os.path.join(self.dir, os.path.dirname(p))):
                os.makedirs(os.path.join(self.dir, os.path.dirname(p)))
        return os.path.join(self.dir, p)

    def ev_ds(self, e):
        import segeval
        act = e['act']
        none = lambda r: {'k': 'none'}
        D = self.dss

        def masses(v):
            if e.get('fam') in ('nltk', 'sets'):
                return segmentation(e['fam'], v, e.get('c'), 'set' if e['fam'] == 'sets' else None)
            v = [number_of(x) if is_int(x) else x for x in v]
            return tuple(v) if e.get('c') == 'tuple' else v
        if act == 'new':
            def f():
                data = {}
                for item, codings in e['items']:
                    data[item] = {}
                    for coder, v in codings:
                        data[item][coder] = masses(v)
                kw = {}
                if e['props'] or e.get('explicit'):
                    kw['properties'] = dict((k, json.loads(v)) for k, v in e['props'])
                if e['types']:
                    kw['boundary_types'] = list(e['types'])
                if e['fmt'] != 'mass' or e.get('explicit'):
                    kw['boundary_format'] = e['fmt']
                if e['items'] or e.get('explicit'):
                    D[e['d']] = segeval.Dataset(data, **kw)
                else:
                    D[e['d']] = segeval.Dataset(**kw)
            return None, f, none
        if act == 'copy':
            def f():
                D[e['to']] = D[e['d']].copy()
            return None, f, none
        if act == 'iadd':
            def f():
                x = D[e['d']]
                x += D[e['other']]
                D[e['d']] = x
            return None, f, none
        if act == 'add':
            def f():
                D[e['to']] = D[e['d']] + D[e['other']]
            return None, f, none
        if act == 'set':
            def f():
                D[e['d']][e['i']][e['c']] = masses(e['v'])
            return None, f, none
        if act == 'delc':
            def f():
                del D[e['d']][e['i']][e['c']]
            return None, f, none
        if act == 'deli':
            def f():
                del D[e['d']][e['i']]
            return None, f, none
        if act == 'touch':
            return None, lambda: D[e['d']][e['i']], none
        if act == 'poke':
            def f():
                x = D[e['d']][e['i']][e['c']]
                if isinstance(x, list):
                    x[:] = masses(e['v'])
                elif isinstance(x, tuple):
                    D[e['d']][e['i']][e['c']] = tuple(masses(e['v']))
                else:
                    D[e['d']][e['i']][e['c']] = masses(e['v'])
            return None, f, none
        if act == 'prop':
            def f():
                v = json.loads(e['val'])
                old = D[e['d']].properties.get(e['key2'])
                if isinstance(old, list) and isinstance(v, list):
                    old[:] = v
                elif isinstance(old, dict) and isinstance(v, dict):
                    old.clear()
                    old.update(v)
                else:
                    D[e['d']].properties[e['key2']] = v
            return None, f, none
        if act == 'delprop':
            def f():
                del D[e['d']].properties[e['key2']]
            return None, f, none
        if act == 'type':
            return None, lambda: D[e['d']].boundary_types.add(e['t']), none
        if act == 'coder':
            return None, lambda: D[e['d']].coders.add(e['c']), none
        if act == 'fmt':
            def f():
                D[e['d']].boundary_format = e['fmt']
            return None, f, none
        if act == 'use':
            return self.use(e)
        if act == 'drop':
            def f():
                del D[e['d']]
            return None, f, none
        if act == 'raw':
            def f():
                path = self.path(e['path'])
                if not os.path.isdir(os.path.dirname(path)):
                    os.makedirs(os.path.dirname(path))
                if e.get('link') and not os.path.lexists(path):
                    # what is there is a link to a file that lies elsewhere
                    if self.elsewhere is None:
                        self.elsewhere = tempfile.mkdtemp(prefix='segeval-verif-')
                    os.symlink(os.path.join(self.elsewhere, 'file%d' % len(os.listdir(self.elsewhere))), path)
                write_file(path, e['file'])
            return None, f, none
        if act == 'jout':
            path = self.path(e['path'])
            where = path
            if e['dir'] and not os.path.isdir(path):
                os.makedirs(path)
            if not e['dir'] and not os.path.isdir(os.path.dirname(path)):
                os.makedirs(os.path.dirname(path))
            if e['dir'] and e.get('slash'):
                where = path + '/'
            return None, lambda: segeval.output_linear_mass_json(where, D[e['d']]), none
        if act == 'jin':
            def f():
                D[e['to']] = segeval.input_linear_mass_json(self.path(e['path']))
                r = dataset_result(D[e['to']])
                return {'k': 'none'} if r['k'] == 'ds' else r
            return None, f, lambda r: r if r['k'] == 'none' else {'k': 'err', 'c': 'nottuples'}
        raise ValueError(act)

    def use(self, e):
        '''A call upon datasets of the session.'''
        import segeval
        d = self.dss[e['d']]
        d2 = self.dss[e['d2']] if e['d2'] else None
        kw = options(e['o'])
        if e['what'] == 'wsize':
            kw['boundary_format'] = d.boundary_format
            return d, lambda: segeval.compute_window_size(d, **kw), num
        if e['what'] == 'agree':
            fn = getattr(segeval, AGREEMENT[e['fn']])
            if e['cmp'] == 'S':
                kw['fnc_compare'] = segeval.segmentation_similarity
            return d, lambda: fn(d, **kw), agreement_result(e['fn'])
        fn = getattr(segeval, METRICS[e['fn']])
        project = mapping(value(e['fn']))
        if d2 is None:
            if e['shape']['dataset']:
                return d, lambda: fn(dataset=d, **kw), project
            return d, lambda: fn(d, **kw), project
        if e['shape']['hyp']:
            return (d, d2), lambda: fn(hypothesis=d, reference=d2, **kw), project
        return (d, d2), lambda: fn(d, d2, **kw), project

    def ds_state(self):
        ds = []
        for name, d in self.dss.items():
            v = dataset_value(d)
            if v is None:
                return {'k': 'other', 'ds': [], 'fs': []}
            ds.append([name, v])
        fs = []
        if self.dir:
            for base, dirs, files in os.walk(self.dir):
                for f in files:
                    full = os.path.join(base, f)
                    fs.append([os.path.relpath(full, self.dir), read_file(full)])
        return {'k': 'state', 'ds': ds, 'fs': fs}

    # --- delimited files and folder trees
    def ev_table(self, e):
        import segeval
        from segeval.data.tsv import input_linear_mass_tsv, input_linear_positions_tsv
        path = self.path(e['file'])
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        write_table(path, e['rows'], e)
        with open(path, 'rb') as f:
            before = f.read()
        fn = input_linear_positions_tsv if e['positions'] else segeval.input_linear_mass_tsv
        delim = e.get('delim', '\t')
        if delim == '\t' and not e.get('explicit'):
            f = lambda: fn(path)
        elif e.get('style') == 'kw':
            f = lambda: fn(filepath=path, delimiter=delim)
        else:
            f = lambda: fn(path, delim)

        def project(r):
            with open(path, 'rb') as f:
                after = f.read()
            if after != before:
                return other('file changed')
            return dataset_result(r)
        return None, f, project

    def ev_folders(self, e):
        import segeval
        root = self.path('tree%d' % e['n'])
        if e.get('again') and os.path.isdir(root):
            shutil.rmtree(root)
        os.makedirs(root)
        for path in e['dirs']:
            p = os.path.join(root, *path)
            if path in e.get('linked', []):
                # a symbolic link to a folder that lies elsewhere
                there = self.path('elsewhere%d-%d' % (e['n'], e['linked'].index(path)))
                os.makedirs(there)
                os.symlink(there, p)
            if not os.path.isdir(p):
                os.makedirs(p)
        for f in e['files']:
            p = os.path.join(root, *f['path'])
            if not os.path.isdir(p):
                os.makedirs(p)
            p = os.path.join(p, f['stem'] + f['ext'])
            if f.get('linked'):
                there = self.path('file%d-%d' % (e['n'], e['files'].index(f)))
                os.symlink(there, p)
                p = there
            if f['file']['k'] == 'table':
                write_table(p, f['file']['rows'], f)
            else:
                write_file(p, f['file'])
        where = {'rel': os.path.relpath(root), 'dot': os.path.join('.', os.path.relpath(root)), 'slash': root + os.sep,
                 'up': os.path.join(root, os.pardir, os.path.basename(root))}.get(e.get('where'), root)
        if 'into' in e:
            given = dataset(e['into'])
            kw = {'dataset': given}
            if 'prefix' in e:
                kw['prepend_item'] = list(e['prefix'])
            def project(r):
                out, here = dataset_result(r), dataset_result(given)
                return out if out == here else {'k': 'other', 'v': 'the dataset given and the one returned differ'}
            return None, lambda: segeval.load_nested_folders_dict(where, e['type'], **kw), project
        root = where
        if e.get('style') == 'kw':
            g = lambda: segeval.load_nested_folders_dict(containing_dir=root, filetype=e['type'])
        else:
            g = lambda: segeval.load_nested_folders_dict(root, e['type'])
        return None, g, dataset_result

    def ev_save(self, e):
        '''A dataset is written to a file, over what is there.'''
        import segeval
        d = self.arg(e['d'], lambda: dataset(e['d']))
        path = self.path(e['file'])
        def project(r):
            doc = read_file(path)
            doc['items'] = [sorted([i, sorted(row)] for i, row in rows) for rows in doc.get('items', [])]
            doc['props'] = sorted(doc.get('props', []))
            return {'k': 'file', 'v': json.dumps(doc, sort_keys=True)}
        return [d], lambda: segeval.output_linear_mass_json(path, d), project

    # --- running
    def run(self):
        out = []
        try:
            if self.script.get('threads'):
                return self.run_threads(self.script['threads'])
            for e in self.script['ev']:
                out.append(self.event(e))
                if self.hung:
                    break
        finally:
            for folder in (self.dir, self.elsewhere):
                if folder:
                    shutil.rmtree(folder, ignore_errors=True)
        return out

    def run_threads(self, count):
        '''The events (but for those given) in several threads at once.'''
        sys.setswitchinterval(1e-6)
        out = [dict(e, key=e.get('key', ''), ref='', chk=[]) for e in self.script['ev'] if e['op'] == 'given']
        rest = [e for e in self.script['ev'] if e['op'] != 'given']
        lock = threading.Lock()
        gate = threading.Barrier(count)

        def work(j):
            gate.wait()
            for e in rest[j::count]:
                got = self.event(e)
                with lock:
                    out.append(got)
        ts = [threading.Thread(target=work, args=(j,), daemon=True) for j in range(count)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(EVENT_SECONDS * 3)
        if any(t.is_alive() for t in ts):
            with lock:
                out.append(dict(rest[0], key='', ref=rest[0].get('ref', ''), chk=['same'], intact=True,
                                res={'k': 'other', 'r': 'no result after %d s' % EVENT_SECONDS}))
        with lock:
            return list(out)

    def plainly(self, e):
        try:
            args, call, project = getattr(self, 'ev_' + e['op'])(e)
            before = snapshot(args)
            try:
                raw = call()
            except Exception as exc:
                e['res'] = error(exc)
            else:
                e['res'] = project(raw)
            e['intact'] = snapshot(args) == before
        except Exception as exc:
            e['res'] = {'k': 'other', 'r': 'unusable: ' + ascii(str(exc))[:300]}
        return e

    def event(self, e):
        e = dict(e)
        e.setdefault('key', '')
        e.setdefault('ref', '')
        e.setdefault('chk', [])
        if e['op'] == 'given':          # a result recorded elsewhere
            return e
        e['intact'] = True
        if threading.current_thread() is not threading.main_thread():
            return self.plainly(e)
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(EVENT_SECONDS)
        try:
            try:
                args, call, project = getattr(self, 'ev_' + e['op'])(e)
                before = snapshot(args)
                usual = decimal.getcontext().prec
                if e.get('coarse'):
                    decimal.getcontext().prec = e['coarse']
                around = surroundings()
                try:
                    raw = call()
                except Exception as exc:
                    e['res'] = error(exc)
                else:
                    e['res'] = project(raw)
                    if e['key']:
                        self.raw[e['key']] = raw
                e['intact'] = surroundings() == around and snapshot(args) == before
                if e.get('coarse'):
                    decimal.getcontext().prec = usual
                if e.get('taint') and 'raw' in locals():
                    spoil(raw, containers(args, {}))
            except Timeout:
                e['res'] = {'k': 'other', 'r': 'no result after %d s' % EVENT_SECONDS}
                self.hung = True
            except (ImportError, AttributeError, SyntaxError, NameError, TypeError, ValueError, AssertionError,
                    KeyError, MemoryError, RecursionError, OSError, IndexError, ArithmeticError) as exc:
                # the library could not even be called, or gave something that
                # cannot be rendered
                e['res'] = {'k': 'other', 'r': 'unusable: ' + type(exc).__name__ + ' ' + ascii(str(exc))[:300]}
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
        finally:
            signal.alarm(0)
        if e['op'] == 'cm':
            e['obs'] = self.cm_state()
        elif e['op'] == 'ds':
            e['obs'] = self.ds_state()
        return e


# confusion-matrix labels: index 0 is "no boundary"
LABELS = [None, 'alpha', 1, 2, ('t', 1), 'beta', -3, 2.5, '', 'gamma', 1000003, 7]
LABELS += ['_x', 'None', '__class__', 'predicted', ('t', 2), 'Alpha', -1, 0.5, u'\u00e9']
EVERY = list(LABELS)
INDEX = {}


def use_labels(which):
    '''What the numbers of the specification's labels stand for.'''
    LABELS[:] = [EVERY[k] for k in which]
    INDEX.clear()
    INDEX.update((x, i) for i, x in enumerate(LABELS))


use_labels(range(len(EVERY)))


def write_table(path, rows, e):
    eol = {'crlf': '\r\n', 'lf': '\n', 'cr': '\r'}[e.get('eol', 'lf')]
    delim = e.get('delim', '\t')
    buf = io.StringIO(newline='')
    w = csv.writer(buf, delimiter=delim, lineterminator=eol,
                   quoting=csv.QUOTE_ALL if e.get('quote') else csv.QUOTE_MINIMAL)
    w.writerow(e.get('heading') or ['coder', 'u1', 'u2'][:e.get('header', 3)])
    for j, (coder, nums) in enumerate(rows):
        if j in e.get('blanks', []):
            buf.write(eol)
        pads = ['%d', ' %d', '%d ', '  %d '] if e.get('pad') else ['%d']
        w.writerow([coder] + [pads[(i + j) % len(pads)] % number_of(n) for i, n in enumerate(nums)])
    text = buf.getvalue()
    if e.get('notrail') and text.endswith(eol):
        text = text[:-len(eol)]
    for _ in range(e.get('tail', 0)):
        text += eol
    with open(path, 'wb') as f:
        f.write(text.encode('utf-8'))


def write_file(path, file):
    if file['k'] == 'text':
        data = file['text'].encode('utf-8')
    elif file['k'] == 'bad':
        data = file['text'].encode('utf-8')
    else:
        doc = {}
        if file['type']:
            doc['segmentation_type'] = file['type'][0]
        if file['items']:
            doc['items'] = dict((i, dict((c, [number_of(x) for x in v]) for c, v in row)) for i, row in file['items'][0])
        for k, v in file['props']:
            doc[k] = json.loads(v)
        data = json.dumps(doc, indent=file.get('indent'), ensure_ascii=not file.get('raw')).encode('utf-8')
    data = b'\n' * file.get('pad', 0) + data
    with open(path, 'wb') as f:
        f.write(data)


def read_file(path):
    try:
        with io.open(path, encoding='utf-8') as f:
            doc = json.load(f)
    except Exception:
        return {'k': 'bad'}
    if not isinstance(doc, dict):
        return {'k': 'bad'}
    items = []
    if 'items' in doc:
        rows = []
        if not isinstance(doc['items'], dict):
            return {'k': 'odd'}
        for i, row in doc['items'].items():
            if not isinstance(row, dict) or not all(isinstance(v, list) and all(is_whole(x) for x in v) for v in row.values()):
                return {'k': 'odd'}
            rows.append([i, [[c, [sign_of(x) for x in v]] for c, v in row.items()]])
        items = [rows]
    types = [doc['segmentation_type']] if 'segmentation_type' in doc else []
    if types and not isinstance(types[0], str):
        return {'k': 'odd'}
    return {'k': 'json', 'type': types, 'items': items,
            'props': [[k, canonical(v)] for k, v in doc.items() if k not in ('items', 'segmentation_type')]}


def run_session(script):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if script.get('nofile'):
                # a process may have so many files open at a time
                resource.setrlimit(resource.RLIMIT_NOFILE, (script['nofile'], resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
            out = dict((k, v) for k, v in script.items() if k != 'ev')
            out['ev'] = Session(script).run()
            text = json.dumps(out)
            with os.fdopen(w, 'wb') as f:
                f.write(text.encode('ascii'))
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(3)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0 or not data:
        return json.dumps({'id': script['id'], 'crash': status}).encode('ascii')
    return data


def main():
    limit = 6 * 2 ** 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    except Exception:
        pass
    if len(sys.argv) < 4:
        try:
            s = lib()
            for name in s.__all__:
                getattr(s, name)
        except Exception:
            pass
    hung = 0
    with io.open(sys.argv[1], encoding='ascii') as f, open(sys.argv[2], 'wb') as out:
        for line in f:
            data = run_session(json.loads(line))
            out.write(data + b'\n')
            out.flush()
            if b'"no result after ' in data:
                hung += 1
                if hung == 2:
                    break


if __name__ == '__main__':
    main()

'''What each check does: models, sessions, sizes.'''
import json
import os
import random

import gen


def generated(prop):
    def sessions(check, r, scale, round_):
        return gen.GENERATORS[prop](r, scale)
    return sessions


def m(module, cfg=None, tier=None, what='', **kw):
    d = {'module': module, 'cfg': (cfg or module) + '.cfg', 'what': what}
    if tier:
        d['tier'] = tier
    d.update(kw)
    return d


ENC = m('MCEncodings', what='every segmentation of up to 8 units: encodings invert each other')
EDITS = m('MCEdits', what='near-miss scan as a state machine, all string pairs of length <= 3 over 2 types')
EDITS1 = m('MCEdits', 'MCEditsOne', what='the same, one type, longer strings')
SIM = m('MCSimilarity', what='similarity metrics over all small string pairs')
SIM1 = m('MCSimilarity', 'MCSimilarityOne', 'thorough', what='the same, one type, longer strings')
WIN = m('MCWindows', what='window metrics over all small segmentation pairs')
NUM = m('MCNum', what='exact arithmetic against integers')
LEARN = m('MCLearning', what='information-retrieval measures over small matrices')
LEARND = m('MCLearning', 'MCLearningDeep', 'thorough', what='the same, larger')
MATS = m('MCMatrices', what='confusion matrices under every access sequence of length 4')
MATSD = m('MCMatrices', 'MCMatricesDeep', what='the same, two matrices')
DS = m('MCDatasets', what='two datasets under every operation sequence of length 4')
DSD = m('MCDatasets', 'MCDatasetsDeep', 'thorough', what='the same, length 5')
DSJ = m('MCDatasets', 'MCDatasetsJson', what='datasets and JSON files under every operation sequence of length 4')
DSJD = m('MCDatasets', 'MCDatasetsJsonDeep', 'thorough', what='the same, length 5')

AGR = m('MCAgreement', what='agreement over every small dataset of two coders')
AGRT = m('MCAgreement', 'MCAgreementTypes', what='the same, two boundary types')
AGR3 = m('MCAgreement', 'MCAgreementThree', what='the same, three coders')
AGRD = m('MCAgreement', 'MCAgreementDeep', 'thorough', what='the same, three coders, two items')

MODELS = {'C01': [ENC], 'C02': [ENC], 'C03': [EDITS, EDITS1], 'C04': [EDITS, EDITS1], 'C05': [EDITS], 'C06': [EDITS, EDITS1],
          'C07': [SIM, SIM1], 'C08': [SIM, SIM1], 'C09': [SIM, SIM1], 'C10': [SIM], 'C11': [SIM, SIM1],
          'C12': [WIN], 'C13': [WIN], 'C14': [NUM], 'C15': [WIN], 'C16': [MATS, MATSD], 'C18': [AGR], 'C20': [AGR, AGRT, AGR3, AGRD], 'C21': [AGR, AGRT, AGR3, AGRD], 'C22': [AGR, AGRT, AGR3, AGRD], 'C23': [DS, DSD], 'C24': [DSJ, DSJD], 'C17': [LEARN, LEARND], 'C19': [NUM], 'C25': [m('MCFolders', what='trees of two files read in any order'), m('MCFolders', 'MCFoldersThree', what='trees of three files read in any order')],
          'C26': [m('MCArguments', what='every way of passing arguments')], 'C28': [m('MCArguments', what='every way of passing arguments')],
          'C29': [m('MCSystem', what='results of datasets however they came about, every operation sequence of length 4')],
          'C30': [m('MCPipelines', what='measures of boundary confusion matrices over all small string pairs'),
                  m('MCPipelines', 'MCPipelinesOne', what='the same, one type, longer strings'),
                  m('MCPipelines', 'MCPipelinesDeep', 'thorough', what='the same, two types, longer strings')],
          'C27': [m('MCCalls', what='histories of calls over shared arguments')]}

def calls_sessions(check, r, scale, round_):
    '''C27: every call alone in a process of its own, then in the histories
    that TLC makes up from MCCalls.'''
    groups, options, makers = gen.call_alphabet(r)
    n = len(groups)

    def event(c, ver):
        e = makers[c - 1](ver)
        e['chk'] = ['intact']
        return e
    alone = [{'id': 'alone-%d-%d' % (c, v), 'lazy': True, 'ev': [event(c, v)]} for c in range(1, n + 1) for v in (1, 2)]
    rec = check.run(alone, lazy=True)
    results = {}
    for s in rec:
        if 'crash' not in s:
            _, c, v = s['id'].split('-')
            results[int(c), int(v)] = s['ev'][0]['res']
    path = os.path.join(check.scratch, 'calls.json')
    with open(path, 'w') as f:
        json.dump({'groups': groups, 'options': options}, f)
    env = {'CALLS': path}
    walks = check.behaviours('MCCallsPlay', 'MCCallsWalk', env, simulate=(80 * scale, 24, round_), workers=4)
    pairs = check.behaviours('MCCallsPlay', 'MCCallsPairs', env)
    coarse = check.behaviours('MCCallsPlay', 'MCCallsCoarse', env)
    r.shuffle(pairs)
    r.shuffle(coarse)
    lazy, eager = [], []

    def session(name, hist, **kw):
        ver = dict((g, 1) for g in groups)
        calls = []
        prec = 0
        for kind, x, t in hist:
            if kind == 'change':
                ver[x] = 3 - ver[x]
                continue
            if kind == 'arith':
                prec = 0 if x == 1 else r.choice([3, 6, 9])
                continue
            calls.append((x, ver[groups[x - 1]], t, prec))
        if len(calls) == 2:
            calls.append((calls[0][0], ver[groups[calls[0][0] - 1]], 0, 0))
        used = sorted(set((c, v) for c, v, _, _ in calls))
        ev = [{'op': 'given', 'key': 'alone-%d-%d' % u, 'ref': '', 'chk': [], 'res': results[u]} for u in used if u in results]
        for c, v, t, prec in calls:
            if (c, v) not in results:
                return None
            e = event(c, v)
            e.update(ref='alone-%d-%d' % (c, v), chk=['same', 'intact'])
            if prec:
                # results of coarse arithmetic are not compared, but nothing
                # of it may last
                e.update(ref='', chk=['intact'], coarse=prec)
            if t:
                e['taint'] = True
            o = e.get('o')
            if kw.get('nest') and o is not None:
                o = e['o'] = dict(o)
                if e['op'] in ('metric', 'agree') and e.get('fn') in ('B', 'S', 'bcm', 'aa', 'pi', 'kappa', 'bias', 'stats') and not o['w']:
                    o['w'] = ['a_nest', 's_scale', 't_scale']
                elif e['op'] in ('metric', 'agree') and o['w'] and o['w'][0] == 'a':
                    o['w'] = ['a_nest'] + o['w'][1:]
                elif e['op'] == 'wsize' and o['rnd'] == 'd' or e.get('fn') in ('pk', 'wd') and o['rnd'] == 'd':
                    o['rnd'] = 'round_nest'
                o.pop('wid', None)
            ev.append(e)
        s = {'id': name, 'ev': ev}
        if kw.get('threads'):
            s['threads'] = kw['threads']
        if kw.get('lazy'):
            s['lazy'] = True
        return s
    # every call again after its arguments have changed, calls upon the same
    # arguments with and without a change, and any two calls
    strata = [[], [], [], []]
    for h in pairs:
        used = [x for kind, x, t in h if kind == 'call']
        changed = len(h) > 2
        near = groups[used[0] - 1] == groups[used[1] - 1]
        relevant = changed and groups[used[1] - 1] in [x for kind, x, t in h if kind == 'change']
        strata[0 if used[0] == used[1] and changed else 1 if near and relevant else 2 if near else 3].append(h)
    chosen = [h for s, k in zip(strata, (400, 250, 200, 300)) for h in s[:k * scale]]
    for j, h in enumerate(chosen):
        eager.append(session('pair-%d' % j, h, nest=j % 5 == 0))
    for j, h in enumerate(strata[2][200 * scale:300 * scale] + strata[3][300 * scale:500 * scale]):
        lazy.append(session('lazy-%d' % j, h, lazy=True))
    # calls in coarse arithmetic, most of them repeated in the usual one
    again = [h for h in coarse if h[0][0] == 'arith' and h[1][1] == h[-1][1]]
    for j, h in enumerate(again[:120 * scale] + [h for h in coarse if h not in again][:80 * scale]):
        eager.append(session('coarse-%d' % j, h, nest=j % 5 == 0))
    for j, h in enumerate(walks):
        eager.append(session('walk-%d' % j, h, nest=j % 4 == 0))
    for j in range(6 * scale):
        hist = [['call', r.randint(1, n), 0] for _ in range(48)]
        eager.append(session('threads-%d' % j, hist, threads=4))
    # first uses: every name of the package on its own, then in any order
    names = gen.NAMES
    firsts = [[x] for x in names]
    firsts += [r.sample(names, r.choice([2, 3, 5, len(names)])) for _ in range(60 * scale)]
    for j, order in enumerate(firsts):
        ev = [{'op': 'name', 'n': x, 'chk': ['resolved']} for x in order + [order[0]]]
        lazy.append({'id': 'first-%d' % j, 'lazy': True, 'ev': ev})
    rec += check.run([s for s in eager if s])
    rec += check.run([s for s in lazy if s], lazy=True)
    return {'recorded': rec}


def play_matrices(hist, name):
    mats = sorted(set(e['mat'] for e in hist if 'mat' in e) | {'m'})
    ev = [{'op': 'cm', 'act': 'new', 'mat': x, 'chk': ['matrix', 'matrices']} for x in mats]
    for j, e in enumerate(hist):
        e = dict(e, op='cm', chk=['matrix', 'matrices'])
        if e['act'] in ('delrow', 'delcell'):
            e['how'] = ['del', 'pop'][j % 2]
        if e['act'] == 'setrow':
            e['how'] = ['dict', 'int'][j % 2]
        ev.append(e)
    return {'id': name, 'ev': ev}


def play_datasets(hist, name):
    ev = []
    for j, e in enumerate(hist):
        e = dict(e, op='ds', chk=['dataset', 'datasets'])
        if e['act'] == 'new':
            e['c'] = ['list', 'tuple'][(j + len(hist) + len(name)) % 2]
        ev.append(e)
    return {'id': name, 'ev': ev}


def play_system(hist, name):
    r = random.Random(name + json.dumps(hist))
    ev = []
    for j, e in enumerate(hist):
        if e['act'] == 'use':
            what, fn = e['what'], e['fn']
            if what == 'agree':
                fn = r.choice(['aa', 'pi', 'kappa', 'bias'])
            e = gen.use_event(r, what, fn, e['d'], e['d2'], e['perm'])
        e = dict(e, op='ds', chk=['dataset', 'datasets'] + (['intact'] if e['act'] == 'use' else []))
        if e['act'] == 'new':
            e['c'] = r.choice(['list', 'tuple'])
        ev.append(e)
    return {'id': name, 'ev': ev}


def with_behaviours(prop, play, exhaustive, walk, depth, quick, many):
    '''Generated sessions, and the behaviours TLC enumerates and walks.'''
    def sessions(check, r, scale, round_):
        out = gen.GENERATORS[prop](r, scale)
        if round_ == 0:
            cfg = exhaustive[2] if len(exhaustive) > 2 and check.tier != 'quick' else exhaustive[1]
            hists = check.behaviours(exhaustive[0], cfg)
            if check.tier == 'quick' and len(hists) > quick:
                hists = r.sample(hists, quick)
            out += [play(h, 'all-%d' % j) for j, h in enumerate(hists)]
        hists = check.behaviours(walk[0], walk[1], simulate=(many * scale, depth, round_))
        out += [play(h, 'walk-%d' % j) for j, h in enumerate(hists)]
        return out
    return sessions


def shapes_sessions(prop, accepted):
    '''Generated sessions, and calls of every shape on every metric.'''
    def sessions(check, r, scale, round_):
        out = gen.GENERATORS[prop](r, scale)
        shapes = [h[0] for h in check.behaviours('MCArguments', 'MCArgumentsEmit')]
        if accepted:
            shapes = [s for s in shapes if gen.meant(s) != 'none'] * (12 * scale)
        ev = [gen.shape_event(r, fn, s) for s in shapes for fn in gen.METRIC_NAMES]
        out += [dict(s, id='shape-%d' % j) for j, s in enumerate(gen.pack(ev, 30))]
        return out
    return sessions


def play_tree(r, hist, name):
    t = hist[0]
    dirs = [f['path'] for f in t['files']]
    files = t['files']
    if r.random() < 0.5:
        files = r.sample(files, len(files))
    return {'id': name, 'ev': [{'op': 'folders', 'n': 0, 'type': t['type'], 'dirs': dirs, 'files': files,
                                'style': r.choice(['pos', 'kw']), 'chk': ['folders']}]}


def tree_sessions(check, r, scale, round_):
    out = gen.GENERATORS['C25'](r, scale)
    if round_ == 0:
        hists = check.behaviours('MCFolders', 'MCFoldersEmit')
        n = 2000 if check.tier == 'quick' else 20000
        hists = r.sample(hists, min(n, len(hists)))
        out += [play_tree(r, h, 'tree-%d' % j) for j, h in enumerate(hists)]
    hists = check.behaviours('MCFolders', 'MCFoldersWalk', simulate=(60 * scale, 10, round_))
    out += [play_tree(r, h, 'grown-%d' % j) for j, h in enumerate(hists)]
    return out


PLAN = {}
for p in gen.GENERATORS:
    PLAN[p] = {'sessions': generated(p), 'quick_scale': 1, 'thorough_scale': 3, 'models': MODELS.get(p, [])}

PLAN['C27'] = {'sessions': calls_sessions, 'quick_scale': 1, 'thorough_scale': 3, 'models': MODELS['C27']}

PLAN['C16']['sessions'] = with_behaviours('C16', play_matrices, ('MCMatrices', 'MCMatricesEmit'), ('MCMatrices', 'MCMatricesWalk'), 20, 2500, 40)
PLAN['C23']['sessions'] = with_behaviours('C23', play_datasets, ('MCDatasets', 'MCDatasetsEmit'), ('MCDatasets', 'MCDatasetsWalk'), 20, 3000, 30)
PLAN['C24']['sessions'] = with_behaviours('C24', play_datasets, ('MCDatasets', 'MCDatasetsJsonEmit'), ('MCDatasets', 'MCDatasetsJsonWalk'), 20, 3000, 30)
PLAN['C29']['sessions'] = with_behaviours('C29', play_system, ('MCSystem', 'MCSystemEmit', 'MCSystemLong'), ('MCSystem', 'MCSystemWalk'), 24, 1500, 60)
PLAN['C25']['sessions'] = tree_sessions
PLAN['C26']['sessions'] = shapes_sessions('C26', False)
PLAN['C28']['sessions'] = shapes_sessions('C28', True)

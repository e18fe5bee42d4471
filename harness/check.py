#!/usr/bin/python3
'''
Decides one property: model-checks the specification's own invariants,
records sessions with the library in /repo and has TLC validate them against
the specification.

usage: check.py PROPERTY            (VERIF_TIER, VERIF_SEED)
       check.py PROPERTY --replay FILE

Exit 0: held.  1: violated (VIOLATION lines).  2: the check itself failed.
'''
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
EVIDENCE = os.path.join(ROOT, 'evidence')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import plan

PYTHON = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
TLA = '/opt/veriftools/tla'
CORES = min(8, os.cpu_count() or 8)
REPO = os.environ.get('VERIF_REPO', '/repo')
START = time.time()


class Broken(Exception):
    '''The check, not the library, failed.'''


def log(*args):
    print('[%6.1fs]' % (time.time() - START), *args, flush=True)


def tlc(module, cfg, scratch, env=None, extra=(), timeout=840, workers=CORES, heap='10g'):
    meta = tempfile.mkdtemp(dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-cp',
           '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (TLA, TLA), 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise Broken('TLC did not finish %s in %d s' % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def states(out):
    found = re.findall(r'(\d+) states generated.*?(\d+) distinct states found', out)
    if found:
        return int(found[-1][0]), int(found[-1][1])
    found = re.findall(r'(\d+) states checked', out)
    return (int(found[-1]), 0) if found else (0, 0)

# ---------------------------------------------------------------- execution

OTHER_PYTHON = '/usr/bin/python3'


def other_python_works():
    '''The other interpreter compares equal integers that are not identical;
    sessions marked for it are left out where the library does not run on it.'''
    code = 'import sys; sys.path.insert(0, %r); import segeval; [getattr(segeval, n) for n in segeval.__all__]' % REPO
    try:
        return subprocess.run([OTHER_PYTHON, '-B', '-W', 'ignore', '-c', code], stdout=subprocess.DEVNULL,
                              stderr=subprocess.DEVNULL, timeout=60).returncode == 0
    except (OSError, subprocess.TimeoutExpired):
        return False


def record(scripts, scratch, lazy=False, timeout=700):
    mine = [s for s in scripts if s.get('python') != 'cpython']
    others = [s for s in scripts if s.get('python') == 'cpython']
    out = record_on(PYTHON, mine, scratch, lazy, timeout)
    if others:
        if other_python_works():
            out += record_on(OTHER_PYTHON, others, scratch, lazy, timeout)
        else:
            log('%d sessions left out: the library does not run on %s' % (len(others), OTHER_PYTHON))
    return out


def record_on(python, scripts, scratch, lazy, timeout):
    '''Sessions run by the library: list of recorded sessions, in order.'''
    chunks = [scripts[i::CORES] for i in range(CORES)]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', PYTHONUTF8='1',
               PYTHONHASHSEED='0', TMPDIR=scratch)

    def one(j):
        if not chunks[j]:
            return []
        d = tempfile.mkdtemp(dir=scratch)
        a, b = os.path.join(d, 'scripts'), os.path.join(d, 'traces')
        with open(a, 'w', encoding='ascii') as f:
            for s in chunks[j]:
                f.write(json.dumps(s) + '\n')
        open(b, 'w').close()
        note = ''
        p = subprocess.Popen([python, '-B', os.path.join(HERE, 'drive.py'), a, b] + (['lazy'] if lazy else []),
                             env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                             stderr=subprocess.PIPE, start_new_session=True)
        try:
            _, err = p.communicate(timeout=timeout)
            note = err.decode('utf-8', 'replace')[-2000:]
        except subprocess.TimeoutExpired:
            import signal
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.communicate()
            note = 'stopped after %d s' % timeout
        out = []
        with open(b, encoding='ascii', errors='replace') as f:
            for line in f:
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass
        for k, o in enumerate(out):
            if 'crash' in o:
                o['note'] = note
        if len(out) < len(chunks[j]) and not any('no result after' in json.dumps(o['ev'][-1].get('res', '')) for o in out if o.get('ev')):
            log('driver %d recorded %d of %d sessions: %s' % (j, len(out), len(chunks[j]), note))
            if not out or 'stopped' in note:
                raise Broken('driver: ' + note)
        shutil.rmtree(d, ignore_errors=True)
        return out
    with ThreadPoolExecutor(CORES) as pool:
        parts = list(pool.map(one, range(CORES)))
    out = []
    for i in range(max(map(len, parts)) if parts else 0):
        for part in parts:
            if i < len(part):
                out.append(part[i])
    return out


def plain(x):
    '''Only what TLC's JSON reader takes.'''
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items() if v is not None)
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, float) or x is None:
        return repr(x)
    return x


def judge(sessions, scratch, timeout=840):
    '''Trace validation: (violations, states).  A violation is (session, position, clauses).'''
    violations, total = [], 0
    todo = []
    for s in sessions:
        if 'crash' in s:
            violations.append((s, 0, ['crash']))
        else:
            todo.append(s)
    for attempt in range(8):
        if not todo:
            break
        path = os.path.join(scratch, 'trace%d.ndjson' % attempt)
        with open(path, 'w', encoding='ascii') as f:
            for s in todo:
                f.write(json.dumps(plain(s)) + '\n')
        code, out = tlc('Trace', 'Trace.cfg', scratch, env={'TRACE': path}, timeout=timeout)
        os.remove(path)
        found = {}
        for m in re.finditer(r'<<\s*"BROKEN",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', out):
            found[(int(m.group(1)), int(m.group(2)))] = re.findall(r'"(\w+)"', m.group(3))
        if code == 0:
            total += states(out)[0]
            want = sum(len(s['ev']) + 1 for s in todo)
            if total != want:
                raise Broken('TLC saw %d states of %d\n%s' % (total, want, out[-3000:]))
            violations += [(todo[s - 1], p, c) for (s, p), c in sorted(found.items())]
            return violations, total
        # a result the specification cannot even evaluate
        at = re.findall(r'/\\ sid = (\d+)', out)
        pos = re.findall(r'/\\ pos = (\d+)', out)
        if not at or 'OutOfMemory' in out:
            raise Broken('TLC failed (%d)\n%s' % (code, out[-4000:]))
        s, p = int(at[-1]), int(pos[-1]) + 1
        log('not evaluable: session %d event %d' % (s, p))
        if os.environ.get('VERIF_DEBUG'):
            print(out[-6000:])
        violations.append((todo[s - 1], p, ['unevaluable']))
        todo = [x for k, x in enumerate(todo) if k != s - 1]
        if attempt == 7:
            violations += [(todo[s2 - 1], p2, c) for (s2, p2), c in sorted(found.items()) if s2 < s]
    return violations, total

# -------------------------------------------------------------------- check

def known_findings():
    path = os.path.join(ROOT, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def short(x, n=600):
    t = json.dumps(x, sort_keys=True)
    return t if len(t) <= n else t[:n] + '...'


def script_of(s):
    '''The session as it can be run again.'''
    out = dict((k, v) for k, v in s.items() if k not in ('ev', 'note'))
    out['ev'] = [dict((k, v) for k, v in e.items() if e['op'] == 'given' or k not in ('res', 'obs', 'intact', 'vals'))
                 for e in s.get('ev', [])]
    return out


class Check(object):

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = plan.PLAN[prop]
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.models = []
        self.traces = self.events = self.tstates = 0
        self.violations = []
        self.known = []
        self.clauses = {}
        self.kinds = {}
        self.samples = []
        self.nreplay = 0

    def model(self, m):
        '''Model checking of the specification itself.'''
        t = time.time()
        if m.get('tier', self.tier) != self.tier:
            return
        code, out = tlc(m['module'], m['cfg'], self.scratch, extra=m.get('extra', ()), timeout=m.get('timeout', 840))
        if code != 0:
            raise Broken('the specification does not satisfy %s:\n%s' % (m['cfg'], out[-4000:]))
        gen, distinct = states(out)
        self.models.append({'module': m['module'], 'config': m['cfg'], 'states_generated': gen,
                            'distinct_states': distinct, 'wall_s': round(time.time() - t, 1), 'what': m.get('what', '')})
        log('model %s: %d states' % (m['cfg'], distinct or gen))

    def behaviours(self, module, cfg, env=None, simulate=None, timeout=600, workers=CORES):
        '''Behaviours of the specification, printed by TLC as scripts.'''
        extra = []
        if simulate:
            extra = ['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(self.seed * 1000 + simulate[2])]
        t = time.time()
        code, out = tlc(module, cfg + '.cfg', self.scratch, env=env, extra=extra, timeout=timeout, workers=workers)
        if code != 0:
            raise Broken('no behaviours from %s (%d)\n%s' % (cfg, code, out[-4000:]))
        found = re.findall(r'<<"BEHAVIOUR", ("(?:[^"\\]|\\.)*")>>', out)
        hists = sorted(set(json.loads(x) for x in found))
        hists = [json.loads(x) for x in hists]
        gen, distinct = states(out)
        self.models.append({'module': module, 'config': cfg + '.cfg', 'states_generated': gen, 'distinct_states': distinct,
                            'behaviours': len(hists), 'wall_s': round(time.time() - t, 1), 'what': 'behaviours to be played on the library'})
        log('%d behaviours of %s' % (len(hists), cfg))
        if not hists:
            raise Broken('no behaviours from %s\n%s' % (cfg, out[-3000:]))
        return hists

    def run(self, scripts, lazy=False):
        if not scripts:
            return []
        rec = record(scripts, self.scratch, lazy)
        log('recorded %d sessions, %d events' % (len(rec), sum(len(s.get('ev', [])) for s in rec)))
        return rec

    def validate(self, rec):
        bad, n = judge(rec, self.scratch)
        log('validated %d states, %d broken' % (n, len(bad)))
        self.traces += len(rec)
        self.tstates += n
        for s in rec:
            for e in s.get('ev', []):
                self.events += 1
                for c in e['chk']:
                    self.clauses[c] = self.clauses.get(c, 0) + 1
                k = (e.get('res') or {}).get('k', '?')
                self.kinds[k] = self.kinds.get(k, 0) + 1
        if len(self.samples) < 3 and rec:
            s = rec[len(rec) // 2]
            if s.get('ev'):
                self.samples.append(short(s['ev'][len(s['ev']) // 2], 900))
        for s, pos, clauses in bad:
            self.report(s, pos, clauses)
        return not bad

    def report(self, s, pos, clauses):
        for k in known_findings():
            if k['property'] == self.prop and k.get('session') == s.get('id') and k.get('event') == pos and \
               set(clauses) <= set(k['clauses']):
                self.known.append(k)
                return
        self.violations.append({'session': s.get('id'), 'event': pos, 'clauses': clauses})
        if self.nreplay >= 5:
            return
        path = os.path.join(EVIDENCE, 'replay-%s-%d.json' % (self.prop, self.nreplay))
        self.nreplay += 1
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'session': script_of(s), 'event': pos, 'clauses': clauses,
                       'lazy': bool(s.get('lazy')), 'recorded': s,
                       'how': 'harness/check.py %s --replay %s' % (self.prop, path)}, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
        if s.get('ev') and 1 <= pos <= len(s['ev']):
            e = s['ev'][pos - 1]
            print('  clauses %s broken by %s' % (', '.join(clauses), short(e, 1500)), flush=True)
        else:
            print('  %s: %s' % (', '.join(clauses), s.get('note', '')[:1500]), flush=True)

    def evidence(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        data = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': sum(m['distinct_states'] or m['states_generated'] for m in self.models) + self.tstates,
                'transitions': sum(m['states_generated'] for m in self.models) + self.events,
                'traces_validated_against_impl': self.traces,
                'samples': self.samples or ['(none)'],
                'events': self.events, 'clauses_judged': self.clauses, 'result_kinds': self.kinds,
                'models': self.models, 'known_findings': len(self.known),
            },
            'wall_s': round(time.time() - START, 1), 'violations': len(self.violations),
        }
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(data, f, indent=1)

    def go(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        for f in os.listdir(EVIDENCE):
            if f.startswith('replay-%s-' % self.prop):
                os.remove(os.path.join(EVIDENCE, f))
        try:
            for m in self.plan.get('models', []):
                self.model(m)
            import gen
            budget = self.plan.get(self.tier + '_s', 0)
            rounds = self.plan.get(self.tier + '_rounds', 3 if self.tier == 'quick' else 8)
            scale = self.plan.get(self.tier + '_scale', 1 if self.tier == 'quick' else 3)
            for j in range(rounds):
                if j and (self.violations or time.time() - START > (60 if self.tier == 'quick' else 500)):
                    break
                r = random.Random('%s/%d/%d' % (self.prop, self.seed, j))
                scripts = self.plan['sessions'](self, r, scale, j)
                if isinstance(scripts, dict):
                    rec = scripts['recorded']
                else:
                    rec = self.run(scripts, self.plan.get('lazy', False))
                self.validate(rec)
            for k in {k['id']: k for k in self.known}.values():
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']), flush=True)
            self.evidence()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            print('%s: %d violations in %d events' % (self.prop, len(self.violations), self.events))
            return 1
        print('%s: held on %d sessions, %d events (%.1f s)' % (self.prop, self.traces, self.events, time.time() - START))
        return 0

    def replay(self, path):
        with open(path) as f:
            d = json.load(f)
        try:
            rec = record([d['session']], self.scratch, d.get('lazy', False))
            for s, pos, clauses in judge(rec, self.scratch)[0]:
                self.report(s, pos, clauses)
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)
        return 1 if self.violations else 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    c = Check(prop, tier, seed)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            return c.replay(sys.argv[3])
        return c.go()
    except Broken as e:
        print('CHECK FAILED %s: %s' % (prop, e), flush=True)
        return 2


if __name__ == '__main__':
    sys.exit(main())

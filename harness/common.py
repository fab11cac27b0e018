"""Common machinery of the checks: TLC runs, transition-graph replay, batch
trace validation, verdicts and evidence.  Nothing here knows about mdp."""
import collections
import contextlib
import io
import json
import os
import pickle
import random
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('MDP_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
CPU_LIMIT = 5
THOROUGH = TIER == 'thorough'
JAR = '/opt/veriftools/tla/tla2tools.jar'
CMJAR = '/opt/veriftools/tla/CommunityModules-deps.jar'

warnings.simplefilter('ignore')


def outside_domain(res):
    """TLC could not evaluate the specification on the recorded values."""
    return 'Attempted to' in res.out or 'evaluat' in res.out or 'Assert' in res.out


class Machinery(Exception):
    """The checking machinery failed (never a verdict about the code)."""


class Stuck(Exception):
    """The code under test made no progress."""


def quick(q, t):
    """Pick the bound of the current tier."""
    return t if THOROUGH else q


def rng(*salt):
    return random.Random('%s/%s' % (SEED, '/'.join(map(str, salt))))


# --------------------------------------------------------------- TLC runner
class TLCResult(object):
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        self.emitted = {}
        self.generated = self.distinct = 0
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            self.generated, self.distinct = int(m.group(1)), int(m.group(2))
        self.completed = 'Model checking completed. No error' in out \
            or 'Progress: ' in out and 'Finished in' in out
        self.violated = re.findall(
            r'Error: (?:Invariant|Action property|Temporal property|Property) (\S+) (?:is|was) violated', out)
        self.error = 'Error:' in out


def run_tlc(module, cfg, env=None, workers=1, timeout=800, tags=(), simulate=None,
            depth=None, heap='6g', coverage=False, invariants=None):
    """Run TLC on spec/<module>.tla with configuration text or file `cfg`."""
    tmp = tempfile.mkdtemp(prefix='vtlc')
    try:
        if '\n' in cfg or ' ' in cfg:
            cfgfile = os.path.join(tmp, module + '.cfg')
            with open(cfgfile, 'w') as f:
                f.write(cfg)
        else:
            cfgfile = os.path.join(SPEC, cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4', '-Xmx' + heap, '-Xss32m',
               '-Djava.io.tmpdir=' + tmp,
               '-cp', JAR + ':' + CMJAR, 'tlc2.TLC', '-noGenerateSpecTE',
               '-workers', str(workers), '-metadir', os.path.join(tmp, 'm'),
               '-config', cfgfile]
        if coverage:
            cmd += ['-coverage', '1']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-seed', str(SEED)]
            if depth:
                cmd += ['-depth', str(depth)]
        cmd.append(os.path.join(SPEC, module + '.tla'))
        e = dict(os.environ)
        e.pop('PYTHONPATH', None)
        e.update(env or {})
        outf = os.path.join(tmp, 'out.txt')
        with open(outf, 'wb') as f:
            try:
                rc = subprocess.call(cmd, stdout=f, stderr=subprocess.STDOUT,
                                     cwd=SPEC, env=e, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Machinery('TLC timed out on %s after %ss' % (module, timeout))
        emitted = collections.defaultdict(list)
        rest = []
        with open(outf, encoding='utf-8', errors='replace') as f:
            for line in f:
                if line.startswith('"@'):
                    # a TLA+ string printed by PrintT: a JSON string literal
                    try:
                        val = json.loads(line)
                        emitted[val[1]].append(json.loads(val[2:]))
                    except ValueError:
                        raise Machinery('cannot parse TLC emission %r' % line[:300])
                else:
                    rest.append(line)
        res = TLCResult(''.join(rest), rc)
        res.emitted = emitted
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tlc_tail(res, n=60):
    lines = [l for l in res.out.splitlines()
             if not l.startswith(('Parsing file', 'Semantic processing', 'Linting of'))]
    return '\n'.join(lines[-n:])


# -------------------------------------------------------------------- check
class Check(object):
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.notes = []
        self.assumptions = []
        self.actions = collections.Counter()
        self.viol = []
        self.known_hits = []
        self.extra = {}
        self.known = []
        p = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(p):
            with open(p) as f:
                self.known = [k for k in json.load(f)['findings']
                              if k.get('property') == pid and k.get('status') == 'open']

    # verdicts -----------------------------------------------------------
    def violation(self, what, detail=None, key=None):
        """Report a violation. `key` identifies the failing input / history;
        it is compared with the committed list of known findings."""
        for k in self.known:
            if key is not None and k.get('key') == key:
                if k['key'] not in [h['key'] for h in self.known_hits]:
                    self.known_hits.append(k)
                return False
        self.viol.append({'what': what, 'key': key, 'detail': detail})
        return True

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def add_tlc(self, res):
        self.states += res.distinct
        self.transitions += res.generated

    # exploration ----------------------------------------------------------
    def explore(self, module, cfg=None, env=None, timeout=800, workers=4, expect_ok=True,
                heap='8g'):
        """Exhaustive TLC run; returns emitted transitions (list of dicts)."""
        res = run_tlc(module, cfg or (module + '.cfg'), env=env, timeout=timeout,
                      workers=workers, heap=heap)
        if res.error or not res.completed:
            raise Machinery('TLC failed on %s:\n%s' % (module, tlc_tail(res)))
        self.add_tlc(res)
        if res.generated == 0:
            raise Machinery('vacuous exploration of %s' % module)
        self.notes.append('TLC %s: %d distinct states, %d generated, %d transitions emitted'
                          % (module, res.distinct, res.generated, len(res.emitted['T'])))
        return res

    def replay(self, transitions, driver, maxsteps=None, label=''):
        """Replay every transition of an explored graph in the real code.

        transitions: dicts with c (configuration), f (from), o (operation),
        r (expected outcome), t (to).  `driver(cfg)` returns an object with
        do(op) -> outcome (JSON value) and obs() -> projected state, and
        optionally proj(state) -> the part of the spec state to compare.
        """
        graphs = collections.OrderedDict()
        for t in transitions:
            ck = json.dumps(t['c'], sort_keys=True)
            g = graphs.setdefault(ck, {'cfg': t['c'], 'edges': collections.OrderedDict(),
                                       'init': None, 'st': {}})
            fk = json.dumps(t['f'], sort_keys=True)
            tk = json.dumps(t['t'], sort_keys=True)
            g['st'][fk] = t['f']
            g['st'][tk] = t['t']
            if g['init'] is None:
                g['init'] = fk      # BFS order: the first source is initial
            d = g['edges'].setdefault(fk, collections.OrderedDict())
            d[json.dumps(t['o'], sort_keys=True)] = [t['o'], t['r'], tk, False]
        work = sorted(graphs.values(), key=lambda g: -sum(len(d) for d in g['edges'].values()))
        return self.spread(lambda g: self._replay_graph(g, driver, maxsteps, label), work)

    def spread(self, fn, work, procs=None):
        """Run fn(item) for all items in forked worker processes and merge what
        they report into this check. Returns the sum of the results."""
        procs = procs or int(os.environ.get('VERIF_PROCS', '6'))
        procs = min(procs, len(work))
        if procs <= 1:
            return sum((fn(w) or 0) for w in work)
        sys.stdout.flush()
        kids = []
        # items are dealt out by a shared pipe of indices: dynamic balance
        rd, wr = os.pipe()
        os.set_inheritable(rd, True)
        for k in range(procs):
            f = tempfile.TemporaryFile()
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    os.close(wr)
                    self._child(fn, work, rd, f)
                except BaseException:
                    traceback.print_exc()
                    rc = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(rc)
            kids.append((pid, f))
        os.close(rd)
        try:
            for i in range(len(work)):
                os.write(wr, struct.pack('i', i))
        except BrokenPipeError:
            pass
        os.close(wr)
        total, machinery = 0, None
        for pid, f in kids:
            _, st = os.waitpid(pid, 0)
            f.seek(0)
            try:
                r = pickle.load(f)
            except Exception:
                r = None
            f.close()
            if r is None:
                # the code under test killed its process
                self.violation('the process running the code under test died with status %d' % st,
                               {'status': st})
                continue
            total += r['total']
            self.steps += r['steps']
            self.traces += r['traces']
            self.states += r['states']
            self.actions.update(r['actions'])
            for x in r['samples']:
                self.sample(x)
            for x in r['viol']:
                self.viol.append(x)
            for x in r['known']:
                if x['key'] not in [h['key'] for h in self.known_hits]:
                    self.known_hits.append(x)
            machinery = machinery or r['machinery']
        if machinery and not self.viol:
            raise Machinery(machinery)
        return total

    def _child(self, fn, work, rd, f):
        self.steps = self.traces = self.states = total = 0
        self.actions = collections.Counter()
        self.samples, self.viol, self.known_hits = [], [], []
        machinery = None
        while True:
            b = os.read(rd, 4)
            if len(b) < 4:
                break
            if len(self.viol) > 6 or machinery:
                continue
            try:
                total += fn(work[struct.unpack('i', b)[0]]) or 0
            except BaseException as exc:
                tb = traceback.extract_tb(exc.__traceback__)
                root = os.path.realpath(REPO) + os.sep
                if isinstance(exc, Stuck) or (not isinstance(exc, Machinery) and any(
                        os.path.realpath(x.filename).startswith(root) for x in tb)):
                    self.violation('the code under test raised outside every outcome the '
                                   'specification allows: %s: %s' % (type(exc).__name__, exc),
                                   {'traceback': traceback.format_exc()})
                else:
                    machinery = traceback.format_exc()
        pickle.dump({'total': total, 'steps': self.steps, 'traces': self.traces, 'states': self.states,
                     'actions': self.actions, 'samples': self.samples, 'viol': self.viol,
                     'known': self.known_hits, 'machinery': machinery}, f)
        f.flush()

    def _replay_graph(self, g, driver, maxsteps, label):
        edges = g['edges']
        left = sum(len(d) for d in edges.values())
        steps = 0
        blocked = set()
        while left > 0:
            path = []
            cur = g['init']
            drv = guard(driver, g['cfg'])
            proj = getattr(drv, 'proj', lambda s: s)
            self.traces += 1
            try:
                ok = True
                # the initial observation
                if not eq(guard(drv.obs), proj(g['st'][cur])):
                    self._mismatch(g, label, [], 'initial state', proj(g['st'][cur]), drv.obs())
                    return steps
                progressed = False
                while ok and left > 0:
                    nxt = None
                    for k, e in edges.get(cur, {}).items():
                        if not e[3] and (cur, k) not in blocked:
                            nxt = [k]
                            break
                    if nxt is None:
                        nxt = self._route(edges, cur, blocked)
                        if nxt is None:
                            break
                    for k in nxt:
                        e = edges[cur][k]
                        op, exp, to = e[0], e[1], e[2]
                        if not e[3]:
                            e[3] = True
                            left -= 1
                        progressed = True
                        path.append(op)
                        out = guard(drv.do, op)
                        steps += 1
                        self.steps += 1
                        self.actions[str(op.get('t', '?') if isinstance(op, dict) else op)] += 1
                        if not eq(out, exp):
                            self._mismatch(g, label, path, 'outcome', exp, out)
                            blocked.add((cur, k))
                            ok = False
                            break
                        if isinstance(g['st'][to], dict) and g['st'][to].get('bad') is True:
                            cur = to      # unspecified from here on
                            continue
                        obs = guard(drv.obs)
                        want = proj(g['st'][to])
                        if not eq(obs, want):
                            self._mismatch(g, label, path, 'state', want, obs)
                            blocked.add((cur, k))
                            ok = False
                            break
                        cur = to
                    if maxsteps and len(path) >= maxsteps:
                        break
                if ok:
                    self.sample({'replayed': label, 'cfg': g['cfg'], 'ops': path[:12]})
                if not progressed:
                    break
                if len(self.viol) > 6:
                    return steps
            finally:
                close = getattr(drv, 'close', None)
                if close:
                    close()
        return steps

    def _route(self, edges, cur, blocked):
        """Shortest operation sequence from cur to an unvisited edge."""
        seen = {cur: None}
        dq = collections.deque([cur])
        while dq:
            n = dq.popleft()
            for k, e in edges.get(n, {}).items():
                if (n, k) in blocked:
                    continue
                if not e[3]:
                    path = [k]
                    while seen[n] is not None:
                        n, kk = seen[n]
                        path.append(kk)
                    return path[::-1]
                if e[2] not in seen:
                    seen[e[2]] = (n, k)
                    dq.append(e[2])
        return None

    def _mismatch(self, g, label, path, clause, exp, got):
        key = '%s|%s|%s|%s' % (label, json.dumps(g['cfg'], sort_keys=True), clause,
                               json.dumps(path[-1], sort_keys=True) if path else '')
        self.violation('%s: after %s, %s differs from the specification: expected %s, got %s'
                       % (label, short(path[-2:]), clause, short(exp), short(got)),
                       {'direction': 'model->code', 'label': label, 'cfg': g['cfg'],
                        'ops': path, 'clause': clause, 'expected': exp, 'got': got}, key=key)

    # trace validation ------------------------------------------------------
    def validate(self, module, traces, cfg=None, workers=4, timeout=800, label='', keyfn=None,
                 heap='8g', env=None):
        """Validate recorded traces (list of JSON values) with spec/<module>.tla.

        The trace specification reads IOEnv.TRACE (ndjson), starts one
        behaviour per trace, and prints @V{tid,i,clause,...} for each rejected
        trace; @D{tid} for each fully consumed one."""
        if not traces:
            raise Machinery('no traces for %s' % module)
        tmp = tempfile.mkdtemp(prefix='vtrace')
        try:
            path = os.path.join(tmp, 'trace.ndjson')
            with open(path, 'w') as f:
                for t in traces:
                    f.write(json.dumps(t) + '\n')
            e = {'TRACE': path}
            e.update(env or {})
            res = run_tlc(module, cfg or (module + '.cfg'), env=e,
                          timeout=timeout, workers=workers, heap=heap)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        self.add_tlc(res)
        done = set(d['tid'] for d in res.emitted['D'])
        rejected = collections.OrderedDict()
        for v in res.emitted['V']:
            rejected.setdefault(v['tid'], v)
        if res.error or not res.completed:
            m = re.findall(r'\btid = (\d+)', res.out)
            if res.violated and m:
                tid = int(m[-1])
                rejected.setdefault(tid, {'tid': tid, 'i': -1,
                                          'clause': 'invariant ' + ','.join(res.violated)})
            elif m and outside_domain(res):
                tid = int(m[-1])
                rejected.setdefault(tid, {
                    'tid': tid, 'i': -1,
                    'clause': 'the recorded values lie outside the specification domain: '
                              + tlc_tail(res, 25)})
            else:
                raise Machinery('TLC failed on %s:\n%s' % (module, tlc_tail(res)))
        else:
            missing = set(range(1, len(traces) + 1)) - done - set(rejected)
            if missing:
                raise Machinery('%s: traces without verdict: %s' % (module, sorted(missing)[:5]))
        self.traces += len(traces)
        self.notes.append('TLC %s: %d traces validated (%d rejected), %d states'
                          % (module, len(traces), len(rejected), res.distinct))
        for tid, v in rejected.items():
            tr = traces[tid - 1]
            key = keyfn(tr, v) if keyfn else None
            self.violation('%s: recorded behaviour rejected by %s at step %s: %s'
                           % (label, module, v.get('i'), short(v)),
                           {'direction': 'code->model', 'label': label, 'trace': tr,
                            'verdict': v}, key=key)
        if traces:
            self.sample({'validated': label, 'trace': clip(traces[0])})
        return rejected

    # nondeterministic specifications ---------------------------------------
    def accept(self, module, traces, cfg=None, workers=4, timeout=800, label='', heap='8g',
               env=None, keyfn=None):
        """Each recorded trace must be a behaviour of the (nondeterministic) trace
        specification, which prints @P{tid,i} after consuming event i and
        @D{tid} when a whole trace is consumed."""
        if not traces:
            raise Machinery('no traces for %s' % module)
        tmp = tempfile.mkdtemp(prefix='vtrace')
        try:
            path = os.path.join(tmp, 'trace.ndjson')
            with open(path, 'w') as f:
                for t in traces:
                    f.write(json.dumps(t) + '\n')
            e = {'TRACE': path}
            e.update(env or {})
            res = run_tlc(module, cfg or (module + '.cfg'), env=e, timeout=timeout,
                          workers=workers, heap=heap)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if res.error or not res.completed:
            raise Machinery('TLC failed on %s:\n%s' % (module, tlc_tail(res)))
        self.add_tlc(res)
        done = set(d['tid'] for d in res.emitted['D'])
        far = collections.Counter()
        for p in res.emitted['P']:
            far[p['tid']] = max(far[p['tid']], p['i'])
        bad = 0
        for k, t in enumerate(traces, 1):
            if k in done:
                continue
            bad += 1
            ev = t['ev']
            i = far[k]
            self.violation('%s: no behaviour of %s explains event %d of a recorded history: %s '
                           'after %s' % (label, module, i + 1, short(ev[i]) if i < len(ev) else '?',
                                         short(ev[max(0, i - 4):i])),
                           {'direction': 'code->model', 'label': label, 'trace': t, 'at': i + 1},
                           key=keyfn(t, i) if keyfn else None)
        self.traces += len(traces)
        self.steps += sum(far.values())
        for t in traces:
            for e in t['ev']:
                self.actions[str(e['t'])] += 1
        self.notes.append('TLC %s: %d recorded event histories, %d rejected, %d states'
                          % (module, len(traces), bad, res.distinct))
        self.sample({'accepted': label, 'trace': clip(traces[0])})
        return bad

    # spec as oracle over recorded histories ----------------------------------
    def record(self, driver, cfg, ops):
        """Run the operations in the real code and record the behaviour. `ops`
        is a list, or a function (driver, k) -> next operation or None."""
        drv = guard(driver, cfg)
        tr = {'cfg': cfg, 'ops': [], 'outs': [], 'obs': [guard(drv.obs)]}
        try:
            k = 0
            while True:
                op = ops(drv, k) if callable(ops) else (ops[k] if k < len(ops) else None)
                if op is None:
                    break
                k += 1
                tr['ops'].append(op)
                tr['outs'].append(guard(drv.do, op))
                tr['obs'].append(guard(drv.obs))
                self.actions[str(op.get('t', '?') if isinstance(op, dict) else op)] += 1
            tr['proj'] = getattr(drv, 'proj', lambda s: s)
        finally:
            close = getattr(drv, 'close', None)
            if close:
                close()
        return tr

    def crowd(self, module, driver, jobs, label='', procs=None):
        """Record and compare many histories in parallel. jobs: pairs of a
        configuration and what record() takes as operations."""
        procs = procs or int(os.environ.get('VERIF_PROCS', '6'))

        def share(part):
            self.compare(module, [self.record(driver, c, ops) for c, ops in part], label=label, workers=1, heap='2g')
        self.spread(share, [p for p in (jobs[i::procs] for i in range(procs)) if p], procs)

    def compare(self, module, traces, cfg=None, label='', outproj=None, workers=4,
                timeout=800, env=None, heap='8g'):
        """Have TLC compute what the specification does on every recorded
        operation sequence and compare outcome and state after every step.
        The specification prints @S{tid,i,out,s} for each step (i=0: initial)."""
        if not traces:
            raise Machinery('no traces for %s' % module)
        tmp = tempfile.mkdtemp(prefix='vtrace')
        try:
            path = os.path.join(tmp, 'trace.ndjson')
            with open(path, 'w') as f:
                for t in traces:
                    f.write(json.dumps({'cfg': t['cfg'], 'ops': t['ops']}) + '\n')
            e = {'TRACE': path}
            e.update(env or {})
            res = run_tlc(module, cfg or (module + '.cfg'), env=e,
                          timeout=timeout, workers=workers, heap=heap)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        broken = res.error or not res.completed
        if broken and not outside_domain(res):
            raise Machinery('TLC failed on %s:\n%s' % (module, tlc_tail(res)))
        self.add_tlc(res)
        steps = collections.defaultdict(dict)
        for e in res.emitted['S']:
            steps[e['tid']][e['i']] = e
        nbad = 0
        for k, t in enumerate(traces):
            got = steps[k + 1]
            if sorted(got) != list(range(len(t['ops']) + 1)) and not broken:
                raise Machinery('%s: trace %d not fully evaluated' % (module, k + 1))
            proj, ok = t['proj'], False
            for i in range(len(t['ops']) + 1):
                if i not in got:
                    continue
                if i:
                    want = got[i]['out']
                    if outproj:
                        want = outproj(want, t['cfg'])
                    clause, exp, real = 'outcome', want, t['outs'][i - 1]
                    self.steps += 1
                    if not eq(exp, real):
                        break
                if isinstance(got[i]['s'], dict) and got[i]['s'].get('bad') is True:
                    # unspecified from here on
                    ok = True
                    break
                clause, exp, real = 'state', proj(got[i]['s']), t['obs'][i]
                if not eq(exp, real):
                    break
            else:
                continue
            if ok:
                continue
            nbad += 1
            op = t['ops'][i - 1] if i else None
            key = '%s|%s|%s|%s' % (label, json.dumps(t['cfg'], sort_keys=True), clause,
                                   json.dumps(op, sort_keys=True))
            self.violation('%s: step %d %s: %s differs from the specification: expected %s, got %s'
                           % (label, i, short(op), clause, short(exp), short(real)),
                           {'direction': 'code->model', 'label': label, 'cfg': t['cfg'],
                            'ops': t['ops'][:i], 'clause': clause, 'expected': exp,
                            'got': real}, key=key)
        if broken and not nbad:
            m = re.findall(r'\btid = (\d+)', res.out)
            t = traces[int(m[-1]) - 1] if m else traces[0]
            self.violation('%s: a recorded history leaves the domain of the specification: %s'
                           % (label, tlc_tail(res, 25)),
                           {'direction': 'code->model', 'label': label, 'cfg': t['cfg'],
                            'ops': t['ops'], 'outs': t['outs'], 'obs': t['obs']})
        self.traces += len(traces)
        self.notes.append('TLC %s: %d recorded histories compared (%d differ), %d states'
                          % (module, len(traces), nbad, res.distinct))
        self.sample({'recorded': label, 'cfg': clip(traces[0]['cfg'], 600),
                     'ops': clip(traces[0]['ops'], 800)})
        return nbad

    # end -------------------------------------------------------------------
    def finish(self):
        if self.extra.get('selfcheck_failed'):
            print('MACHINERY-ERROR property=%s %s' % (self.pid, self.extra['selfcheck_failed']))
            sys.stdout.flush()
            os._exit(2)
        outdir = os.path.join(VERIF, 'out')
        os.makedirs(outdir, exist_ok=True)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        wall = time.time() - self.t0
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'steps_compared': self.steps,
               'samples': clip(self.samples) or [{'note': 'none'}],
               'spec_actions_exercised': dict(self.actions),
               'notes': self.notes}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking',
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(wall, 2), 'violations': len(self.viol)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hits:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        rc = 0
        if self.viol:
            rc = 1
            path = os.path.join(outdir, 'replay_%s.json' % self.pid)
            with open(path, 'w') as f:
                json.dump(self.viol, f, indent=1, default=str)
            for v in self.viol[:8]:
                print('  ' + v['what'][:1500])
                if 'traceback' in (v['detail'] or {}):
                    print(v['detail']['traceback'][-1500:])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        else:
            print('OK property=%s tier=%s states=%d traces=%d steps=%d wall=%.1fs'
                  % (self.pid, TIER, self.states, self.traces, self.steps, wall))
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(rc)


# ------------------------------------------------------------------ helpers
def eq(a, b):
    """Equality of JSON values; the specification's "*" stands for anything,
    {"any": [...]} for one of the values listed."""
    x, y = json.dumps(a, sort_keys=True), json.dumps(b, sort_keys=True)
    return x == y or ('"*"' in x + y or '"any"' in x + y) and like(json.loads(x), json.loads(y))


def like(a, b):
    if a == '*' or b == '*':
        return True
    if isinstance(a, dict) and set(a) == {'any'}:
        return any(like(v, b) for v in a['any'])
    if isinstance(b, dict) and set(b) == {'any'}:
        return any(like(a, v) for v in b['any'])
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(like(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(like, a, b))
    return json.dumps(a) == json.dumps(b)


def short(x, n=400):
    s = json.dumps(x, sort_keys=True, default=str) if not isinstance(x, str) else x
    return s if len(s) <= n else s[:n] + '...'


def clip(x, n=3000):
    s = json.dumps(x, default=str)
    if len(s) <= n:
        return x
    if isinstance(x, list):
        out = []
        for i in x:
            out.append(clip(i, n // max(1, min(len(x), 6))))
            if len(out) >= 6:
                break
        return out
    return s[:n] + '...'


def outcome(fn, *args, **kw):
    """('ok', value) or ('exc', class name)."""
    try:
        return 'ok', fn(*args, **kw)
    except Stuck:
        raise
    except Exception as exc:
        return 'exc', exc


@contextlib.contextmanager
def limit(seconds, what):
    """Raise Stuck if the code under test makes no progress (main thread)."""
    def handler(sig, frame):
        raise Stuck('no progress within %ss: %s' % (seconds, what))
    old = signal.signal(signal.SIGALRM, handler)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def exact_int(v):
    """An int for a float that is exactly an integer (specs compare ints)."""
    f = float(v)
    if f == int(f) and abs(f) < 2 ** 30:
        return int(f)
    return 'nonint:%r' % f


_DEPTH = [0]


def guard(fn, *args):
    """Run a step of a driver: the code under test must come back within a
    bounded CPU time, and no error may escape the driver."""
    def handler(sig, frame):
        raise Stuck('no end within %ss of CPU time: %s' % (CPU_LIMIT, short(args)))
    top = threading.current_thread() is threading.main_thread() and not _DEPTH[0]
    if top:
        old = signal.signal(signal.SIGVTALRM, handler)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT, 1)
    _DEPTH[0] += 1
    try:
        return fn(*args)
    except (Stuck, Machinery, MemoryError, OSError, ImportError):
        raise
    except Exception as exc:
        traceback.print_exc()
        raise Stuck('%s: %s in %s' % (type(exc).__name__, exc, short(args)))
    finally:
        _DEPTH[0] -= 1
        if top:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)


def int_rows(x):
    return [[exact_int(v) for v in row] for row in x]

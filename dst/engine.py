"""Runs seeded batches of simulated runs in worker processes, minimises and
writes what it finds, and reports what was covered."""
import collections
import copy
import gc
import hashlib
import json
import mmap
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from dst import boot
from dst.seam import Rand
from dst.shadow import Bad

VERIF = boot.VERIF
SCRATCH = VERIF
SLOT = struct.Struct('qd')
CPU_LIMIT = 40.0        # seconds of CPU one simulated run may take


class HarnessError(Exception):
    pass


def families():
    from dst import registry
    return registry


def sha(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ one run
def repo_frames(tb):
    out = []
    for f in traceback.extract_tb(tb):
        fn = f.filename
        if fn.startswith(boot.REPO + '/') or 'queueing_tool' in fn:
            out.append('%s:%s in %s' % (fn.replace(boot.REPO + '/', ''), f.lineno, f.name))
    return out


def execute(plan, prop):
    """-> (result dict).  bad: None or dict(props, tag, msg)."""
    reg = families()
    fam = reg.FAMILIES[plan['family']]
    try:
        bad, st = fam.run(plan)
    except Exception as e:
        fr = repo_frames(e.__traceback__)
        if not fr:
            return dict(bad=None, st=None, harness=traceback.format_exc())
        bad = Bad([prop], 'exception', '%s: %s at %s' % (type(e).__name__, str(e)[:200], fr[-1].split(':')[0] + ' ' + fr[-1].split(' in ')[-1]))
        st = None
    r = dict(bad=None, st=st, harness=None)
    if bad is not None:
        r['bad'] = dict(props=list(bad.props), tag=bad.tag, msg=bad.msg)
    return r


def isolated(plan, prop, limit=CPU_LIMIT):
    """execute() in a child process of its own: survives crashes and hangs."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(rd)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (int(limit) + 1, int(limit) + 2))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            out = pickle.dumps(execute(plan, prop))
            with os.fdopen(wr, 'wb') as f:
                f.write(out)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(wr)
    buf = b''
    end = time.time() + 8 * limit
    with os.fdopen(rd, 'rb') as f:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([f], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                break
            x = os.read(f.fileno(), 1 << 16)
            if not x:
                break
            buf += x
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
        return pickle.loads(buf)
    if os.WIFEXITED(status):
        return dict(bad=None, st=None, harness='child of the harness failed')
    return dict(bad=died(prop, os.WTERMSIG(status)), st=None, harness=None)


def died(prop, sig):
    if sig in (signal.SIGXCPU, signal.SIGKILL):
        return dict(props=[prop], tag='hang', msg='a call into the library does not return')
    return dict(props=[prop], tag='crash', msg='the process died (signal %d) in a call into the library' % sig)


# ------------------------------------------------------------------ workers
class Agg(object):
    def __init__(self):
        self.runs = self.events = self.taints = self.nontriv = 0
        self.simt = 0.0
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.taint = collections.Counter()
        self.other = collections.Counter()
        self.traces = set()
        self.fams = collections.Counter()
        self.firedruns = 0
        self.states = set()

    def add(self, i, fam, st, need):
        self.runs += 1
        self.fams[fam] += 1
        if st is None:
            return
        self.events += st.get('events', 0)
        self.simt += st.get('simt', 0.0)
        self.fired.update(st['fired'])
        self.probes.update(st['probes'])
        if st['fired']:
            self.firedruns += 1
        if st.get('taint'):
            self.taint[st['taint']] += 1
        hit = not need or any(k in st['probes'] or k in st['fired'] for k in need)
        if hit and st.get('events', 0) > 0:
            self.nontriv += 1
            self.traces.add(st['trace'])
        self.states.update(st.get('states', ()))

    def merge(self, o):
        self.runs += o.runs
        self.events += o.events
        self.nontriv += o.nontriv
        self.simt += o.simt
        self.firedruns += o.firedruns
        self.fired.update(o.fired)
        self.probes.update(o.probes)
        self.taint.update(o.taint)
        self.other.update(o.other)
        self.fams.update(o.fams)
        self.traces |= o.traces
        self.states |= o.states


def make_plan(prop, seed, i, tier):
    reg = families()
    n = int(prop[1:])
    r = Rand(seed, n, i)
    fam = r.weighted(reg.PLAN[prop])
    plan = reg.FAMILIES[fam].gen(prop, r, tier)
    plan['family'] = fam
    return plan


def worker(w, nw, prop, seed, tier, lo, hi, deadline, mm, wr):
    reg = families()
    need = reg.NEED.get(prop)
    agg = Agg()
    last = time.time()
    f = os.fdopen(wr, 'wb')

    def send(kind, *a):
        pickle.dump((kind,) + a, f)
        f.flush()
    gc.freeze()
    for i in range(lo + w, hi, nw):
        now = time.time()
        if now > deadline:
            break
        SLOT.pack_into(mm, w * SLOT.size, i, time.process_time())
        plan = make_plan(prop, seed, i, tier)
        r = execute(plan, prop)
        if r['harness']:
            send('harness', i, r['harness'])
            break
        agg.add(i, plan['family'], r['st'], need)
        if r['bad'] is not None:
            if prop in r['bad']['props']:
                send('bad', i, r['bad'])
                break
            agg.other['%s %s' % ('/'.join(r['bad']['props']), r['bad']['tag'])] += 1
        if now - last > 1.5:
            send('agg', agg)
            agg = Agg()
            last = now
    SLOT.pack_into(mm, w * SLOT.size, 1 << 60, time.process_time())
    send('agg', agg)
    send('end')
    f.close()


def cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            p = f.read().rsplit(')', 1)[1].split()
        return (int(p[11]) + int(p[12])) / float(os.sysconf('SC_CLK_TCK'))
    except (OSError, IndexError):
        return None


def explore(prop, seed, tier, runs, seconds, nw=None):
    """-> (Agg, first violation (index, bad) or None, harness error or None)."""
    nw = nw or int(os.environ.get('DST_WORKERS', 0)) or min(8, os.cpu_count() or 1)
    mm = mmap.mmap(-1, SLOT.size * nw)
    deadline = time.time() + seconds
    procs = {}
    for w in range(nw):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.close(rd)
                for p in procs.values():
                    os.close(p['fd'])
                worker(w, nw, prop, seed, tier, 0, runs, deadline, mm, wr)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(wr)
        procs[w] = dict(pid=pid, fd=rd, buf=b'', done=False, cpu=None, idx=-1)
    total = Agg()
    best = None
    harness = None
    live = set(procs)

    def stop(w):
        try:
            os.kill(procs[w]['pid'], signal.SIGKILL)
        except OSError:
            pass

    while live:
        fds = {procs[w]['fd']: w for w in live}
        rl, _, _ = select.select(list(fds), [], [], 0.5)
        for fd in rl:
            w = fds[fd]
            p = procs[w]
            x = os.read(fd, 1 << 20)
            if x:
                p['buf'] += x
                while True:
                    bio = _Buf(p['buf'])
                    try:
                        m = pickle.load(bio)
                    except (EOFError, pickle.UnpicklingError, IndexError):
                        break
                    p['buf'] = p['buf'][bio.tell():]
                    if m[0] == 'agg':
                        total.merge(m[1])
                    elif m[0] == 'bad':
                        if best is None or m[1] < best[0]:
                            best = (m[1], m[2])
                    elif m[0] == 'harness':
                        harness = harness or (m[1], m[2])
                        p['done'] = True
                    elif m[0] == 'end':
                        p['done'] = True
            else:
                os.close(fd)
                _, status = os.waitpid(p['pid'], 0)
                live.discard(w)
                if not p['done'] and not p.get('killed'):
                    i, _ = SLOT.unpack_from(mm, w * SLOT.size)
                    if os.WIFSIGNALED(status):
                        b = died(prop, os.WTERMSIG(status))
                        if best is None or i < best[0]:
                            best = (i, b)
                    elif i < (1 << 60):
                        harness = harness or (i, 'a worker ended with status %r' % status)
        for w in list(live):
            p = procs[w]
            i, c0 = SLOT.unpack_from(mm, w * SLOT.size)
            if best is not None and i > best[0]:
                p['killed'] = True
                stop(w)
                continue
            c = cpu_of(p['pid'])
            if c is not None and i < (1 << 60) and c - c0 > CPU_LIMIT and i >= 0 and c0 > 0:
                if best is None or i < best[0]:
                    best = (i, died(prop, signal.SIGKILL))
                p['killed'] = True
                stop(w)
    return total, best, harness


import io


class _Buf(io.BytesIO):
    pass


# ------------------------------------------------------------- minimisation
def minimise(plan, prop, bad, seconds, log=None):
    """Smaller plans that fail the same way (property and tag)."""
    reg = families()
    end = time.time() + seconds
    tries = [0]
    limit = 6 if bad['tag'] == 'hang' else CPU_LIMIT

    def same(p):
        if time.time() > end:
            return None
        tries[0] += 1
        r = isolated(p, prop, limit)
        b = r['bad']
        return b if b and prop in b['props'] and b['tag'] == bad['tag'] else None

    best = copy.deepcopy(plan)
    bestbad = bad
    fam = reg.FAMILIES[plan['family']]

    def attempt(p):
        nonlocal best, bestbad
        b = same(p)
        if b:
            best, bestbad = p, b
            return True
        return False

    changed = True
    rounds = 0
    while changed and time.time() < end and rounds < 6:
        changed = False
        rounds += 1
        # drop operations, from big pieces to small
        for key in ('ops',):
            if key not in best:
                continue
            n = max(1, len(best[key]) // 2)
            while n >= 1 and time.time() < end:
                i = 0
                while i < len(best[key]) and time.time() < end:
                    p = copy.deepcopy(best)
                    del p[key][i:i + n]
                    if attempt(p):
                        changed = True
                    else:
                        i += n
                n //= 2
        # smaller counts
        for i, op in enumerate(list(best.get('ops', []))):
            if time.time() >= end:
                break
            if isinstance(op, list) and op[0] in ('step', 'sim', 'simq') and len(op) > 1 and isinstance(op[1], int):
                k = op[1]
                for smaller in (1, k // 4, k // 2, (3 * k) // 4, k - 2, k - 1):
                    if 0 < smaller < best['ops'][i][1]:
                        p = copy.deepcopy(best)
                        p['ops'][i] = [op[0], smaller] + list(op[2:])
                        if attempt(p):
                            changed = True
                            break
        if hasattr(fam, 'reduce'):
            for p in fam.reduce(lambda: best):
                if time.time() >= end:
                    break
                if attempt(p):
                    changed = True
    return best, bestbad, tries[0]


# ------------------------------------------------------------------ the check
def write_replay(prop, seed, i, plan, bad, orig, tries):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%d-run%s.json' % (prop, seed, i))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, seed=seed, run=i, violation=bad, plan=plan, minimised_from=sha(orig),
                       operations=[len(orig.get('ops', [])), len(plan.get('ops', []))], minimiser_runs=tries),
                  f, indent=1, sort_keys=True)
        f.write('\n')
    return path


def fresh_replay(path):
    """Replays path in a new interpreter with another hash seed."""
    env = dict(os.environ, PYTHONHASHSEED='4242')
    p = subprocess.run([os.path.join(VERIF, 'check'), 'replay', path, '--json'], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400)
    try:
        return json.loads(p.stdout.decode().strip().split('\n')[-1])
    except (ValueError, IndexError):
        return None


def replay(path, js=False):
    with open(path) as f:
        rep = json.load(f)
    boot.load()
    from dst import world
    world.setup()
    prop, plan = rep['property'], rep['plan']
    r = isolated(plan, prop)
    if js:
        print(json.dumps(r['bad']))
        return 0
    if r['harness']:
        print(r['harness'])
        return 2
    b = r['bad']
    if b and prop in b['props']:
        same = b['tag'] == rep['violation']['tag'] and b['msg'] == rep['violation']['msg']
        print('%s: %s' % (b['tag'], b['msg']))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if same else ' (not the recorded one)'))
        return 1
    print('replayed without a violation of %s%s' % (prop, '' if not b else ' (but: %s)' % b))
    return 0


def determinism(prop, seed, tier, n):
    """Traces of n runs here and in a fresh interpreter with another hash seed."""
    env = dict(os.environ, PYTHONHASHSEED='777')
    p = subprocess.Popen([os.path.join(VERIF, 'check'), 'traces', prop, str(seed), tier, str(n)], env=env,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p


def traces(prop, seed, tier, n):
    boot.load()
    from dst import world
    world.setup()
    out = []
    for i in range(n):
        plan = make_plan(prop, seed, i, tier)
        r = execute(plan, prop)
        st = r['st'] or {}
        out.append([st.get('trace'), st.get('events'), r['bad'] and r['bad']['tag']])
    return out


def check(prop, tier=None, seed=None, out=sys.stdout):
    t0 = time.time()
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1')) if seed is None else seed
    out.write('property=%s tier=%s seed=%d\n' % (prop, tier, seed))
    out.flush()
    try:
        boot.load()
    except boot.BuildError as e:
        out.write('cannot build /repo: %s\n' % e)
        return 2
    from dst import world
    world.setup()
    reg = families()
    runs, secs = reg.budget(prop, tier)
    tb = time.time()
    ndet = 12 if tier == 'quick' else 60
    det = determinism(prop, seed, tier, ndet)
    total, best, harness = explore(prop, seed, tier, runs, secs)
    texp = time.time() - tb
    try:
        other = json.loads(det.communicate(timeout=300)[0].decode().strip().split('\n')[-1])
    except Exception:
        other = None
    code = 0
    viol = 0
    info = {}
    if best is not None:
        i, bad = best
        plan = make_plan(prop, seed, i, tier)
        viol = 1
        code = 1
        small, sbad, tries = plan, bad, 0
        try:
            small, sbad, tries = minimise(plan, prop, bad, 45 if tier == 'quick' else 180)
        except Exception:
            traceback.print_exc()
        path = write_replay(prop, seed, i, small, sbad, plan, tries)
        same = None
        try:
            again = fresh_replay(path)
            same = bool(again) and again['tag'] == sbad['tag'] and again['msg'] == sbad['msg']
            if not same:
                out.write('note: a fresh process gives %r\n' % (again,))
                path2 = write_replay(prop, seed, i, plan, bad, plan, 0)
                again = fresh_replay(path2)
                path = path2
                same = bool(again) and again['tag'] == bad['tag']
                sbad = bad
        except Exception:
            traceback.print_exc()
        info = dict(run=i, tag=sbad['tag'], message=sbad['msg'], replay=path, reproduced_in_fresh_process=same,
                    operations_before=len(plan.get('ops', [])), operations_after=len(small.get('ops', [])))
        out.write('run %d: %s: %s\n' % (i, sbad['tag'], sbad['msg']))
        out.write('minimised from %d to %d operations in %d runs; reproduced in a fresh process: %s\n'
                  % (len(plan.get('ops', [])), len(small.get('ops', [])), tries, same))
        out.write('VIOLATION property=%s replay=%s\n' % (prop, path))
    elif harness is not None:
        code = 2
        out.write('harness error in run %r:\n%s\n' % harness)
    # determinism of the simulator itself
    detinfo = dict(runs=0, diverged=0)
    if other is not None and code == 0:
        mine = traces(prop, seed, tier, ndet)
        d = [k for k in range(ndet) if k < len(other) and mine[k] != other[k]]
        detinfo = dict(runs=ndet, diverged=len(d), how='same plans in a fresh interpreter with another PYTHONHASHSEED, traces compared')
        if d:
            out.write('note: %d of %d runs differ in a fresh interpreter, first is run %d\n' % (len(d), ndet, d[0]))
    wall = time.time() - t0
    evidence(prop, tier, seed, total, runs, wall, texp, viol, info, detinfo, code)
    out.write('%d runs, %d events, %.3g simulated time units, %d distinct non-trivial, %.1f s\n'
              % (total.runs, total.events, total.simt, len(total.traces), wall))
    if total.other:
        out.write('other anomalies (not of this property): %s\n' % dict(total.other.most_common(5)))
    if code == 0:
        out.write('held on everything explored\n')
    return code


def evidence(prop, tier, seed, total, runs, wall, texp, viol, info, detinfo, code):
    reg = families()
    samples = []
    for i in (0, 1):
        plan = make_plan(prop, seed, i, tier)
        s = json.dumps(plan, sort_keys=True)
        samples.append(dict(run=i, plan=plan if len(s) < 6000 else s[:6000] + ' ...'))
    per_h = total.runs / max(texp, 1e-9) * 3600
    cov = dict(
        evaluations=total.runs,
        distinct_nontrivial=len(total.traces),
        rule=reg.RULE.get(prop, reg.RULE['']),
        samples=samples,
        events=total.events,
        simulated_time=total.simt,
        simulated_time_unit='time units of the simulated clocks, summed over runs',
        runs_per_hour=int(per_h), seeds_per_hour=int(per_h),
        exploration_s=round(texp, 2),
        planned_runs=runs,
        families=dict(total.fams),
        faults_injected=dict(total.fired.most_common()),
        runs_with_faults=total.firedruns,
        conditions_reached=dict(total.probes.most_common()),
        nontrivial_runs=total.nontriv,
        distinctness_measure='64-bit digest of the history of a run (calls of queue_action, arrival_f and service_f with their times; '
                             'of the results compared, in families without events)',
        dropped_runs=dict(total.taint),
        anomalies_of_other_properties=dict(total.other),
        simulator_determinism=detinfo,
        real_components=reg.REAL.get(prop, reg.REAL['']),
        stub_components=reg.STUB.get(prop, reg.STUB['']),
        workers=int(os.environ.get('DST_WORKERS', 0)) or min(8, os.cpu_count() or 1),
    )
    if total.states:
        cov['distinct_states'] = len(total.states)
        cov['states_measure'] = ('local states of a queue after an event: class, kind of its next event, active, collecting, blocking mode (net family), '
                                 'numbers in service, waiting and of servers (each up to 7), full or not (net family)')
    if info:
        cov['violation'] = info
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=reg.ASSUME, wall_s=round(wall, 2), violations=viol)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
    os.rename(tmp, os.path.join(d, prop + '.json'))

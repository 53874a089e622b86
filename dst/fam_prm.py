"""Family 'prm': arrivals generated by poisson_random_measure, alone and driving
a queue, against the rate function by time change: the integrals of the rate
between consecutive points are independent and exponential."""
import bisect
import math

import numpy as np

from dst import boot, world
from dst.seam import R, World, Rand, H
from dst.shadow import Bad, Taint, INF
from dst.fam_route import divergence

SHARES = [0.0005, 0.001, 0.003, 0.01, 0.03, 0.1, 0.2, 0.3, 0.5, 0.7, 0.8, 0.9, 0.97, 0.99, 0.997, 0.999, 0.9995]


def mk_rate(spec):
    """-> (rate, integral from 0, supremum)."""
    k = spec[0]
    if k == 'const':
        c = spec[1]
        return (lambda t: c), (lambda t: c * t), c
    if k == 'sin':
        a, b, w = spec[1:4]
        return (lambda t: a + b * math.sin(w * t)), (lambda t: a * t + b / w * (1 - math.cos(w * t))), a + abs(b)
    if k == 'steps':
        hs, d = spec[1], spec[2]
        n = len(hs)
        cum = [0.0]
        for h in hs:
            cum.append(cum[-1] + h * d)

        def rate(t):
            return hs[int(math.floor(t / d)) % n]

        def integral(t):
            x = t / d
            i = int(math.floor(x))
            return (i // n) * cum[-1] + cum[i % n] + hs[i % n] * d * (x - i)
        return rate, integral, max(hs)
    raise ValueError(spec)


def gen(prop, r, tier):
    k = r.below(4)
    if k == 0:
        spec = ['const', r.pick([0.1, 1.0, 7.5])]
    elif k == 1:
        a = r.pick([0.5, 2.0, 10.0])
        spec = ['sin', a, a * r.pick([1.0, 0.9, 0.3, -0.7]), r.pick([0.3, 1.0, 2 * math.pi])]
    else:
        n = r.rng(2, 6)
        hs = [r.pick([0.0, 0.0, 0.2, 1.0, 4.0, 9.0]) for _ in range(n)]
        if not any(hs):
            hs[r.below(n)] = 3.0
        spec = ['steps', hs, r.pick([0.5, 1.0, 3.0])]
    slack = r.pick([1.0, 1.0, 1.3, 3.0])
    unit = r.pick([1.0] * 8 + [1e-6, 1e-3, 1e3, 1e5, 1e7])
    return dict(unit=unit, spec=spec, slack=slack, n=70000 if r.chance(0.01) else r.pick([400, 800, 1500]), t0=r.pick([0.0, 0.0, 0.0, 3.7, 3.7, 100.25, 100.25, 1.7e9 / max(unit, 1e3)]), seed=r.u64() >> 1,
                real=r.chance(0.4), queue=r.chance(0.35), ux=r.pick([0, 0, 0, 0.001]), ops=[])


def run(plan):
    st = dict(events=0, simt=0.0, fired={}, probes={}, trace=0, taint=None)
    try:
        go(plan, st)
    except Bad as e:
        return e, st
    finally:
        R.cur = None
    return None, st


def bad(tag, msg, plan):
    raise Bad(['C18'], tag, '%s [rate %r, rate_max %r times its maximum, unit of time %r]' % (msg, plan['spec'], plan['slack'], plan.get('unit', 1.0)))


def go(plan, st):
    qt = boot.qt
    rate0, integral0, top = mk_rate(plan['spec'])
    u = plan.get('unit', 1.0)       # of time

    def rate(t):
        return rate0(t / u) / u

    def integral(t):
        return integral0(t / u)
    top /= u
    rmax = top * plan['slack']
    n = plan['n']
    w = World(plan['seed'], plan['ux'])
    calls = []

    def asked(t):
        calls.append(t)
        return rate(t)
    np.random.seed(plan['seed'] & 0x7fffffff)
    R.cur = None if plan['real'] else w
    pts = [plan['t0'] * u]
    d0 = R.draws
    cand = 0

    def step(t):
        del calls[:]
        x = qt.poisson_random_measure(t, asked, rmax)
        if not calls or calls[-1] != x:
            bad('accept', 'it returned %r, the last time rate was asked for is %r' % (x, calls[-1:]), plan)
        last = t
        for c in calls:
            if c < last or (c == last and not plan['ux']):
                bad('order', 'started at %r it asked for the rate at %r after %r' % (t, c, last), plan)
            last = c
        if rate(x) <= 0:
            bad('zero', 'it returned %r, where the rate is zero' % x, plan)
        if x < t or (x == t and not plan['ux']):
            bad('order', 'it returned %r for a start at %r' % (x, t), plan)
        return x

    if plan['queue']:
        q = qt.QueueServer(num_servers=3, arrival_f=step, service_f=lambda t: t + 0.01 * u, collect_data=True, deactive_t=1e15)
        pts = [0.0]
        q.set_active()
        q.simulate(nA=n)
        q.set_inactive()
        q.simulate(n=2 * n + 5)
        pts += [float(x) for x in q.fetch_data()[:, 0]]
        st['probes']['points that drove a queue'] = n
    else:
        for _ in range(n):
            pts.append(step(pts[-1]))
            cand += len(calls)
    R.cur = None
    st['events'] = len(pts) - 1
    st['simt'] = pts[-1] - pts[0]
    if R.draws - d0 < len(pts) - 1:
        bad('draws', 'only %d draws of numpy.random for %d points' % (R.draws - d0, len(pts) - 1), plan)
    st['probes']['candidates rejected'] = max(0, cand - n)
    if w.fired:
        st['fired'].update(w.fired)
    st['trace'] = hash(tuple(pts[:50]))
    if plan['real'] and not plan['queue']:
        # reproducible from the global generator
        np.random.seed(plan['seed'] & 0x7fffffff)
        a = [pts[0]]
        for _ in range(20):
            a.append(qt.poisson_random_measure(a[-1], rate, rmax))
        if a != pts[:21]:
            bad('seed', 'with numpy.random.seed the points are not the same again', plan)
    if plan['ux']:
        return
    x = sorted(integral(b) - integral(a) for a, b in zip(pts, pts[1:]))
    m = len(x)
    # the share of gaps below a number of bounds (Chernoff, exp(-31))
    for p in SHARES:
        b = -math.log1p(-p)
        k = bisect.bisect_right(x, b)
        if m * divergence(k / float(m), p) > 31:
            bad('law', 'the points are not those of a Poisson process of that rate: of %d gaps %d are below %.3g, expected %.1f' % (m, k, b, m * p), plan)
    D = 0.0
    for i, v in enumerate(x):
        F = 1 - math.exp(-v)
        D = max(D, abs(F - i / float(m)), abs(F - (i + 1) / float(m)))
    if D > 3.4 / math.sqrt(m):
        bad('law', 'the points are not those of a Poisson process of that rate: distance %.3f for %d points (mean of the exponential gaps %.3f)'
            % (D, m, sum(x) / m), plan)
    y = [integral(b) - integral(a) for a, b in zip(pts, pts[1:])]
    y = [1 - math.exp(-v) - 0.5 for v in y]
    c = sum(a * b for a, b in zip(y, y[1:])) / (m - 1) * 12
    if abs(c) > 6.5 / math.sqrt(m):
        bad('dependent', 'consecutive gaps are correlated: %.3f' % c, plan)
    st['probes']['laws compared'] = 1

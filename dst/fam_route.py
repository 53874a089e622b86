"""Family 'route': the frequencies of the edges agents choose, while the
transition probabilities are changed in a running network."""
import math

import numpy as np

from dst import boot, world, fam_net, fam_twin
from dst.seam import R, World, Rand, H
from dst.shadow import Bad, Taint, INF


def gen(prop, r, tier):
    k = r.weighted([(2, 2), (3, 3), (r.rng(4, 12), 4), (30, .4), (r.rng(45, 300), .5)])
    V = k + 2
    # the hub is some vertex in the middle of the order
    hub = r.below(V)
    others = [v for v in range(V) if v != hub]
    src = r.pick(others)
    outs = [v for v in others if v != src]
    edges = [[src, hub, 1]]
    for v in outs:
        edges.append([hub, v, 2 + outs.index(v)])
    loop = r.chance(0.3)
    if loop:
        edges.append([hub, hub, 5000])
    q = {str(e[2]): dict(cls='QS', ns=None, arr=['exp', 1.0], svc=['exp', 0.01], ag=[r.pick(['A', 'R', 'A'])], buf=None) for e in edges}
    # the others lead back, so that they are not terminal
    for i, v in enumerate(outs):
        if r.chance(0.5):
            edges.append([v, src, 6000 + i])
            q[str(6000 + i)] = dict(cls='QS', ns=None, arr=['exp', 1.0], svc=['exp', 0.01], ag=['A'], buf=None)
    cfg = dict(V=V, edges=edges, q=q, blocking='BAS', seed=r.u64() >> 1, max=None, ux=0, hub=hub)
    if r.chance(0.3):
        cfg['order'] = r.shuffle(list(range(V)))
    ops = []
    for _ in range(r.rng(1, 4)):
        ws = [r.weighted([(0, 2), (1, 3), (r.u(), 5), (0.01, 1), (20, .7)]) for _ in range(k + 1)]
        if r.chance(0.15):
            ws = [0] * (k + 1)
            ws[r.below(len(ws))] = 1
        elif r.chance(0.3):
            # nearly all of the probability on one edge, a little elsewhere
            ws = [0] * (k + 1)
            for i in r.sample(list(range(k + 1)), r.rng(1, 3)):
                ws[i] = r.pick([1e-3, 1e-4, 2e-5, 1e-6, 1e-9, 1e-13])
            ws[r.below(len(ws))] = 1
        rare = r.chance(0.1)
        if rare:
            # some edges are rare, but often enough to be seen
            last = k if loop else k - 1
            ws = [r.pick([1, 1, 0]) for _ in range(k + 1)] if r.chance(0.3) else [0] * (k + 1)
            one = r.pick([0, last, r.below(last + 1)])
            ws[one] = 1
            for i in r.sample([x for x in range(last + 1) if x != one], 1 if last < 2 else r.rng(1, 2)):
                ws[i] = r.pick([5e-4, 6e-4, 8e-4, 2e-3, 5e-3]) * max(sum(ws), 1)
        if rare or r.chance(0.85):
            ops.append(['set', ws, r.below(4)])
        if r.chance(0.3):
            ops.append(['other', r.u64() >> 20])
        ops.append(['calls', 70000 if rare else r.rng(1500, 4000) if r.chance(0.96) else 150000])
        if r.chance(0.6):
            ops.append(['edge', r.rng(200, 600), r.u64() >> 20])
        if r.chance(0.5):
            ops.append(['sim', r.rng(100, 700)])
        if r.chance(0.3):
            ops.append(['copy'])
    return dict(cfg=cfg, ops=ops)


def divergence(x, p):
    """Kullback-Leibler divergence of a coin with x from one with p."""
    d = 0.0
    for a, b in ((x, p), (1 - x, 1 - p)):
        if a > 0:
            if b <= 0:
                return 0.0 if a < 1e-12 else INF
            d += a * math.log(a / b)
    return d


def tally(counts, pairs, n, ps, what):
    for i, p in enumerate(ps):
        c = counts[i]
        if p <= 0 and c:
            raise Bad(['C09'], 'zero', '%s: edge %d of the vertex was taken %d times, its probability is zero' % (what, i, c))
        # Chernoff: the probability of such a count is below exp(-31)
        if n * divergence(c / float(n) if n else p, p) > 31:
            raise Bad(['C09'], 'frequency', '%s: edge %d of the vertex was taken %d times in %d, its probability is %r' % (what, i, c, n, p))
    if pairs is not None:
        for i, p in enumerate(ps):
            for j, s in enumerate(ps):
                c = pairs.get((i, j), 0)
                e = (n - 1) * p * s
                if abs(c - e) > 8 * (e * (1 - p * s)) ** 0.5 + 25:
                    raise Bad(['C09'], 'dependent', '%s: edges %d and %d were taken one after the other %d times in %d, expected %.0f' % (what, i, j, c, n, e))


def run(plan):
    st = dict(events=0, simt=0.0, fired={}, probes={}, trace=0, taint=None)
    try:
        go(plan, st)
    except Bad as e:
        return e, st
    except Taint as e:
        st['taint'] = str(e)
    finally:
        R.cur = None
    return None, st


def go(plan, st):
    cfg = plan['cfg']
    s = fam_twin.Sys(cfg)
    hub = cfg['hub']
    net = s.net
    outs = net.out_edges[hub]
    if len(outs) < 2:
        raise Taint('one edge')
    k = len(outs)
    ps = [1.0 / k] * k
    into = [q for q in net.edge2queue if q.edge[1] == hub and q.edge[0] != hub][0]
    s.do(['init', [s.live.index(into.edge[2])]]) if into.edge[2] in s.live else None
    s.inited = into.edge[2] in s.live
    tr = 0
    for op in plan['ops']:
        net = s.net
        if op[0] == 'set':
            ws = [op[1][i % len(op[1])] for i in range(k)]
            if sum(ws) <= 0:
                ws = [1] * k
            ps = [w / float(sum(ws)) for w in ws]
            d = {net.edge2queue[e].edge[1]: p for e, p in zip(outs, ps)}
            if op[2] == 0:
                net.set_transitions({hub: d})
            elif op[2] == 1:
                mat = net.transitions()
                mat[hub, :] = 0
                for v, p in d.items():
                    mat[hub, v] = p
                net.set_transitions(mat)
            elif op[2] == 3:
                net.set_transitions({hub: {v: d[v] for v in sorted(d, reverse=True) if d[v] != 0}})
            else:
                allt = net.transitions(return_matrix=False)
                allt[hub] = d
                net.set_transitions(allt)
            st['fired']['transitions changed'] = st['fired'].get('transitions changed', 0) + 1
        elif op[0] == 'other':
            # another vertex: nothing may change here
            vs = [v for v in range(cfg['V']) if v != hub and len(net.out_edges[v]) > 0]
            v = vs[op[1] % len(vs)]
            ds = [net.edge2queue[e].edge[1] for e in net.out_edges[v]]
            net.set_transitions({v: {x: 1.0 if i == 0 else 0.0 for i, x in enumerate(ds)}})
        elif op[0] == 'copy':
            s = s.copy()
            st['fired']['continued on a copy'] = st['fired'].get('continued on a copy', 0) + 1
        elif op[0] == 'calls':
            a = boot.qt.Agent((0, 0)) if op[1] % 2 else boot.qt.ResourceAgent((0, 0))
            n = op[1]
            counts = [0] * k
            pairs = {}
            pos = {e: i for i, e in enumerate(outs)}
            last = None
            R.cur = s.w
            edge = into.edge
            for _ in range(n):
                e = a.desired_destination(net, edge)
                i = pos.get(e)
                if i is None:
                    raise Bad(['C09'], 'route', 'edge %r does not leave vertex %r' % (e, hub))
                counts[i] += 1
                if last is not None:
                    pairs[last, i] = pairs.get((last, i), 0) + 1
                last = i
                tr = hash((tr, i))
            R.cur = None
            st['events'] += n
            tally(counts, pairs, n, ps, 'desired_destination')
            st['probes']['routes counted'] = st['probes'].get('routes counted', 0) + n
        elif op[0] == 'edge':
            # draws close to the bounds between the edges
            a = boot.qt.Agent((0, 0))
            rr = Rand(cfg['seed'], op[2])
            cum = [0.0]
            for p in ps:
                cum.append(cum[-1] + p)
            tot = cum[-1]

            def near(_):
                x = rr.pick(cum) / tot
                d = rr.pick([0.0, 1.0 / (1 << 53), 1e-15, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2]) * rr.pick([1, 1, rr.u()])
                x += d * rr.pick([-1, 1])
                return min(max(x, 0.0), 1.0 - 1.0 / (1 << 53))
            s.w.uhook = near
            R.cur = s.w
            for _ in range(op[1]):
                e = a.desired_destination(net, into.edge)
                if e not in outs:
                    raise Bad(['C09'], 'route', 'edge %r does not leave vertex %r' % (e, hub))
                if ps[outs.index(e)] <= 0:
                    raise Bad(['C09'], 'zero', 'edge %d of the vertex was taken after an extreme draw, its probability is zero' % outs.index(e))
            R.cur = None
            s.w.uhook = None
            st['events'] += op[1]
            st['fired']['extreme draw'] = st['fired'].get('extreme draw', 0) + op[1]
        else:
            if not s.inited:
                continue
            before = [(q.num_arrivals[0]) for q in net.edge2queue]
            dep0 = sum(net.edge2queue[e].num_departures for e in net.in_edges[hub])
            s.w.log = []
            s.do(op)
            st['events'] += op[1]
            counts = [0] * k
            pos = {e: i for i, e in enumerate(outs)}
            n = 0
            for e in s.w.log:
                if e[0] == 'D' and net.edge2queue[e[2]].edge[1] == hub:
                    if e[3] not in pos:
                        raise Bad(['C09'], 'route', 'edge %r does not leave vertex %r' % (e[3], hub))
                    counts[pos[e[3]]] += 1
                    n += 1
            s.w.log = []
            tally(counts, None, n, ps, 'in the network')
            # and they really arrived there (no arrivals from outside at these)
            for i, e in enumerate(outs):
                q = net.edge2queue[e]
                if isinstance(q, boot.qt.NullQueue) or q.edge[1] == hub:
                    continue
                if q.num_arrivals[0] - before[e] != counts[i]:
                    raise Bad(['C09', 'C02'], 'arrived', '%d agents chose edge %d, %d arrived there' % (counts[i], e, q.num_arrivals[0] - before[e]))
            st['probes']['routes counted in a run'] = st['probes'].get('routes counted in a run', 0) + n
            st['simt'] = float(net.current_time)
    st['trace'] = tr

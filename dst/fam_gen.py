"""Family 'gen': the random graph generators under simulated draws.

Every draw is answered by the seeded generator of the run, which also gives
extreme values (0, just below 1, the same again).  What comes out is compared
with an independent statement of what was asked for, and then simulated.
"""
import math

import numpy as np
import networkx as nx

from dst import boot, world, fam_twin
from dst.seam import R, World, Rand, Overrun, H
from dst.shadow import Bad, Taint, INF


def gen_props(r, zero):
    ks = r.sample([1, 2, 3, 4, 5, 8] + ([0] if zero else []), r.rng(1, 4))
    ws = [r.pick([1, 1, 2, 0.3, 7, r.u(), 0]) for _ in ks]
    if sum(ws) <= 0:
        ws[0] = 1
    s = float(sum(ws))
    return [[k, w / s] for k, w in zip(ks, ws)]


def gen_graph(r):
    n = r.rng(1, 12)
    es = []
    for u in range(n):
        for v in range(n):
            if r.chance(0.25):
                es.append([u, v])
    if not es:
        es = [[0, 0]]
    return dict(n=n, edges=r.shuffle(es), form=r.pick(['nx', 'qn', 'nx', 'dict']), pos=r.chance(0.5))


def gen(prop, r, tier):
    ops = []
    for _ in range(r.rng(1, 4)):
        k = r.weighted([('min', 3), ('random', 4), ('pagerank', 3), ('types', 3), ('rank', 4), ('badtypes', 1), ('union', 2)])
        n = r.weighted([(1, 1), (2, 1), (3, 1), (r.rng(4, 12), 5), (r.rng(13, 40), 2), (r.rng(41, 130), 0.1 if k != 'union' else 3)])
        op = dict(op=k, n=n, seed=None if r.chance(0.7) else r.below(1000))
        if k in ('random', 'types'):
            if r.chance(0.7):
                op['props'] = gen_props(r, r.chance(0.25))
            if r.chance(0.7):
                op['loops'] = gen_props(r, True)
            if k == 'random' and r.chance(0.8):
                op['prob_loop'] = r.pick([0, 1, 0.5, 0.1, r.u()])
        if k in ('types', 'rank', 'badtypes'):
            op['g'] = gen_graph(r)
        if k in ('pagerank', 'rank'):
            op['p2'] = r.pick([None, 0.0, 0.1, 0.25, 0.5, 1.0, r.u(), r.u() * 0.2])
            op['p3'] = r.pick([None, 0.0, 0.1, 0.25, 0.5, 1.0, r.u(), r.u() * 0.2])
        if k == 'rank':
            m = r.pick([2, 5, 1000])
            op['rank'] = [float(r.below(m)) / r.pick([1.0, 7.0]) for _ in range(op['g']['n'])]
        if k == 'union':
            op.update(key=r.u64() >> 20, how=r.pick(['random', 'level', 'level', 'chain']), kind=r.pick(['int', 'str', 'tuple']), ask=r.pick([0, 0, 0.1, 0.5]))
        if k == 'badtypes':
            op['which'] = r.below(2)
            op['props'] = [[1, r.pick([0.5, 0.2, 0.999])], [2, r.pick([0.4, 0.7])]]
            if r.chance(0.4):
                op['props'] = [[1, 0.5]]
        ops.append(op)
    return dict(ops=ops, seed=r.u64() >> 1, ux=r.pick([0, 0, 0.05, 0.3]), real=r.chance(0.1), sim=r.rng(0, 40))


def bad(tag, msg):
    raise Bad(['C21'], tag, msg)


def connected(n, edges):
    adj = {v: [] for v in range(n)}
    for u, v in edges:
        adj[u].append(v)
        adj[v].append(u)
    seen, todo = {0}, [0]
    while todo:
        for v in adj[todo.pop()]:
            if v not in seen:
                seen.add(v)
                todo.append(v)
    return len(seen) == n


def check_minimal(g, n, what, loops=False):
    """n vertices with positions, and exactly the pairs within the smallest
    distance that makes it connected."""
    if sorted(g.nodes()) != list(range(n)):
        bad('vertices', '%s has vertices %r, expected %d' % (what, sorted(g.nodes())[:50], n))
    if not isinstance(g, boot.qt.QueueNetworkDiGraph):
        bad('kind', '%s is a %s' % (what, type(g).__name__))
    pos = {}
    for v in range(n):
        p = g.vp(v, 'pos')
        if p is None or len(p) != 2 or not all(math.isfinite(x) for x in p):
            bad('pos', '%s: vertex %d has position %r' % (what, v, p))
        if list(p) != list(g.pos[v]):
            bad('pos', '%s: vertex %d has position %r, pos says %r' % (what, v, list(p), list(g.pos[v])))
        pos[v] = [float(x) for x in p]
    es = {e for e in g.edges() if e[0] != e[1]}
    if not loops and len(es) != g.number_of_edges():
        bad('loops', '%s has loops' % what)
    for u, v in es:
        if (v, u) not in es:
            bad('direction', '%s has the edge %r but not the opposite one' % (what, (u, v)))
    if n == 1:
        return
    if not connected(n, es):
        bad('connected', '%s is not connected' % what)
    d = {(u, v): (pos[u][0] - pos[v][0]) ** 2 + (pos[u][1] - pos[v][1]) ** 2 for u in range(n) for v in range(u)}
    rad = max(x for p, x in d.items() if p in es)
    eps = 1e-9 * max(1.0, rad)
    for p, x in d.items():
        if x < rad - eps and p not in es:
            bad('missing', '%s has no edge between %r at distance %r, the longest one has %r' % (what, p, math.sqrt(x), math.sqrt(rad)))
    short = [p for p, x in d.items() if x < rad - eps]
    if connected(n, short):
        bad('minimal', '%s has edges of length %r, but is connected with the shorter ones' % (what, math.sqrt(rad)))


def freq(counts, n, props, what):
    for t, c in counts.items():
        if c and dict(props).get(t, 0) <= 0:
            bad('type', '%s: %d have type %r, which has no share' % (what, c, t))
    for t, p in props:
        c = counts.get(t, 0)
        if abs(c - n * p) > 7 * math.sqrt(n * p * (1 - p)) + 9:
            bad('share', '%s: %d of %d have type %r, expected a share of %r' % (what, c, n, t, p))


def tally(g, loop):
    c = {}
    for e in g.edges():
        if (e[0] == e[1]) == loop:
            t = g.ep(e, 'edge_type')
            if t is None:
                bad('type', 'edge %r has no type' % (e,))
            c[int(t)] = c.get(int(t), 0) + 1
    return c


def make(s):
    """-> (graph to pass, edges it stands for)"""
    qt = boot.qt
    es = [tuple(e) for e in s['edges']]
    if s['form'] == 'dict':
        d = {u: [] for u in range(s['n'])}
        for u, v in es:
            d[u].append(v)
        for u in range(s['n']):
            if not d[u]:
                d[u] = [u]
                es.append((u, u))
        return d, sorted(es)
    g = nx.DiGraph()
    g.add_nodes_from(range(s['n']))
    g.add_edges_from(es)
    if s['pos']:
        nx.set_node_attributes(g, name='pos', values={v: (math.cos(v * 1.7), math.sin(v * 2.3)) for v in range(s['n'])})
    return (qt.QueueNetworkDiGraph(g) if s['form'] == 'qn' else g), sorted(es)


def unit(p):
    return (math.cos(p[0]) * math.cos(p[1]), math.cos(p[0]) * math.sin(p[1]), math.sin(p[0]))


def angle(p, q):
    a, b = unit(p), unit(q)
    return 2 * math.asin(min(1.0, math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b))) / 2))


def near_int(x):
    return abs(x - round(x)) < 1e-9


def check_rank(g, n, before, rank, p2, p3, what, st):
    p2 = 0.1 if p2 is None else p2
    p3 = 0.1 if p3 is None else p3
    if sorted(g.nodes()) != list(range(n)):
        bad('vertices', '%s has vertices %r' % (what, sorted(g.nodes())))
    ks = {int(math.ceil(n * p2))} | ({int(round(n * p2))} if near_int(n * p2) else set())
    ms = {int(n * p3)} | ({int(round(n * p3))} if near_int(n * p3) else set())
    ty = {e: g.ep(e, 'edge_type') for e in g.edges()}
    two = sorted(e[0] for e, t in ty.items() if t == 2 and e[0] == e[1])
    three = sorted(e[0] for e, t in ty.items() if t == 3 and e[0] == e[1])
    top = sorted(rank, reverse=True)
    want = [sorted(v for v in range(n) if rank[v] >= top[k - 1]) if k else [] for k in ks]
    if two not in want:
        bad('rank', '%s: the vertices of type 2 are %r, expected %r (ranks %r, share %r)' % (what, two, want[0], rank, p2))
    for e, t in ty.items():
        if e[0] != e[1] or e[0] not in two + three:
            if t != 1:
                bad('rank', '%s: edge %r has type %r, expected 1' % (what, e, t))
    if sorted(set(ty) - {(v, v) for v in two + three}) != sorted(set(before) - {(v, v) for v in two + three}):
        bad('edges', '%s: edges %r were added or lost' % (what, sorted(set(ty) ^ set(before))))
    if len(three) > max(ms):
        bad('rank', '%s: %d vertices are of type 3, at most %d expected' % (what, len(three), max(ms)))
    rest = [v for v in range(n) if v not in two]
    if min(ms) >= 1 and two and rest and not three:
        bad('rank', '%s: no vertex is of type 3, share %r of %d' % (what, p3, n))
    pos = {v: [float(x) for x in g.vp(v, 'pos')] for v in range(n)}
    for v in three:
        if not any(angle(pos[v], pos[d]) <= min(angle(pos[u], pos[d]) for u in rest) + 0.0045 for d in two):
            bad('near', '%s: vertex %d is of type 3 but near no vertex of type 2' % (what, v))
    if two:
        st['probes']['vertices chosen by rank'] = st['probes'].get('vertices chosen by rank', 0) + 1
    if three:
        st['probes']['vertices chosen by distance'] = st['probes'].get('vertices chosen by distance', 0) + 1


def run(plan):
    st = dict(events=0, simt=0.0, fired={}, probes={}, trace=0, taint=None)
    w = World(plan['seed'], plan['ux'])
    w.arrays = True
    try:
        if not plan['real']:
            R.cur = w
        np.random.seed(plan['seed'] & 0x7fffffff)
        for j, op in enumerate(plan['ops']):
            one(plan, j, op, st, w)
    except Bad as e:
        return e, st
    except Taint as e:
        st['taint'] = str(e)
    except Overrun:
        st['taint'] = 'too many steps'
    finally:
        R.cur = None
        for k, v in w.fired.items():
            st['fired'][k] = st['fired'].get(k, 0) + v
    return None, st


def union(op, st):
    """UnionFind against the plain partition."""
    r = Rand(op['key'], 3)
    n = op['n']
    names = [{'int': k, 'str': 'v%d' % k, 'tuple': (k % 7, k)}[op['kind']] for k in range(n)]
    u = boot.qt.union_find.UnionFind(r.shuffle(list(names)))
    cl = {x: {x} for x in names}

    def query(x, y):
        st['events'] += 1
        if u.size(x) != len(cl[x]):
            bad('union', 'UnionFind: size(%r) is %r, expected %d' % (x, u.size(x), len(cl[x])))
        a, b = u.find(x), u.find(y)
        if a not in cl[x] or b not in cl[y] or (a == b) != (cl[x] is cl[y]):
            bad('union', 'UnionFind: find(%r) is %r and find(%r) is %r, they are %s' % (x, a, y, b, 'in one set' if cl[x] is cl[y] else 'not in one set'))

    def merge(x, y):
        st['events'] += 1
        u.union(x, y)
        if cl[x] is not cl[y]:
            m = cl[x] | cl[y]
            for z in m:
                cl[z] = m
        k = len({id(c) for c in cl.values()})
        if u.nClusters != k:
            bad('union', 'UnionFind: nClusters is %r after union(%r, %r), expected %d' % (u.nClusters, x, y, k))
        if r.chance(op['ask']):
            query(r.pick(names), r.pick(names))
    if op['how'] == 'level':
        # sets of equal size, which gives the deepest trees
        step = 1
        while step < n:
            for i in range(0, n - step, 2 * step):
                # leaders or any members of the sets
                merge(names[i + r.below(step)] if r.chance(0.3) else names[i], names[min(i + step + r.below(step), n - 1)] if r.chance(0.3) else names[i + step])
            step *= 2
    else:
        for i in range(r.rng(0, 2 * n)):
            x = names[i % n] if op['how'] == 'chain' else r.pick(names)
            merge(x, r.pick(names))
    for x in names:
        query(x, r.pick(names))
    st['probes']['union'] = st['probes'].get('union', 0) + 1


def one(plan, j, op, st, w):
    if op['op'] == 'union':
        union(op, st)
        return
    qt = boot.qt
    n, k = op['n'], op['op']
    kw = {}
    if op['seed'] is not None:
        kw['seed'] = op['seed']
    if 'props' in op and k != 'badtypes':
        kw['proportions'] = {t: p for t, p in op['props']}
    if 'loops' in op:
        kw['loop_proportions'] = {t: p for t, p in op['loops']}
    if op.get('p2') is not None:
        kw['pType2'] = op['p2']
    if op.get('p3') is not None:
        kw['pType3'] = op['p3']
    props = op.get('props') or [[t, 1. / 3] for t in (1, 2, 3)]
    lprops = op.get('loops') or [[t, 1. / 4] for t in range(4)]
    exact = plan['ux'] == 0
    st['events'] += 1
    if k == 'min':
        g = qt.minimal_random_graph(n, **kw)
        check_minimal(g, n, 'minimal_random_graph(%d)' % n)
    elif k == 'random':
        if 'prob_loop' in op:
            kw['prob_loop'] = op['prob_loop']
        pl = op.get('prob_loop', 0.5)
        g = qt.generate_random_graph(n, **kw)
        what = 'generate_random_graph(%d)' % n
        check_minimal(g, n, what, True)
        nl = sum(1 for e in g.edges() if e[0] == e[1])
        if (pl <= 0 and nl) or (pl >= 1 and nl != n):
            bad('loops', '%s has %d loops, their probability is %r' % (what, nl, pl))
        if exact:
            freq({1: nl, 2: n - nl}, n, [[1, pl], [2, 1 - pl]], what + ' loops')
            freq(tally(g, False), g.number_of_edges() - nl, props, what + ' edges')
            freq(tally(g, True), nl, lprops, what + ' loops')
        else:
            freq0(g, props, lprops, what)
    elif k == 'pagerank':
        g = qt.generate_pagerank_graph(n, **kw)
        what = 'generate_pagerank_graph(%d)' % n
        check_minimal(g, n, what, True)
        before = [e for e in g.edges() if e[0] != e[1]]
        h = nx.DiGraph()
        h.add_nodes_from(range(n))
        h.add_edges_from(before)
        rank = pagerank(h, n)
        check_pagerank(g, n, before, rank, op.get('p2'), op.get('p3'), what, st)
    elif k == 'types':
        a, es = make(op['g'])
        g = qt.set_types_random(a, **kw)
        what = 'set_types_random'
        if sorted(g.edges()) != es or sorted(g.nodes()) != list(range(op['g']['n'])):
            bad('edges', '%s changed the edges: %r, were %r' % (what, sorted(g.edges()), es))
        if exact:
            nl = sum(1 for e in es if e[0] == e[1])
            freq(tally(g, False), len(es) - nl, props, what + ' edges')
            freq(tally(g, True), nl, lprops, what + ' loops')
        else:
            freq0(g, props, lprops, what)
    elif k == 'badtypes':
        a, es = make(op['g'])
        tot = sum(p for _, p in op['props'])
        if abs(tot - 1) < 1e-3:
            return
        old = {e: (a.ep(e, 'edge_type') if hasattr(a, 'ep') else None) for e in es}
        u0 = w.ucount
        try:
            qt.set_types_random(a, **{'loop_proportions' if op['which'] else 'proportions': {t: p for t, p in op['props']}})
        except ValueError:
            pass
        else:
            bad('accepted', 'set_types_random accepted proportions that sum to %r' % tot)
        if hasattr(a, 'ep') and {e: a.ep(e, 'edge_type') for e in a.edges()} != old:
            bad('accepted', 'set_types_random changed the graph although it raised')
        if w.ucount != u0:
            bad('accepted', 'set_types_random drew although it raised')
        st['probes']['refused'] = st['probes'].get('refused', 0) + 1
        return
    else:
        a, es = make(op['g'])
        m = op['g']['n']
        g = qt.set_types_rank(a, rank=np.array(op['rank']), **kw)
        check_rank(g, m, es, op['rank'], op.get('p2'), op.get('p3'), 'set_types_rank', st)
    st['probes'][k] = st['probes'].get(k, 0) + 1
    st['trace'] = hash((st['trace'], tuple(sorted((u, v, int(g.ep((u, v), 'edge_type') or 0)) for u, v in g.edges()))))
    # and it can be simulated
    if k != 'min' and plan['sim']:
        simulate(plan, g, st, w)


def freq0(g, props, lprops, what):
    """Only types that have a share (the draws are not uniform)."""
    for loop, ps in ((False, props), (True, lprops)):
        for t, c in tally(g, loop).items():
            if dict(ps).get(t, 0) <= 0:
                bad('type', '%s: %d edges have type %r, which has no share' % (what, c, t))


def pagerank(h, n):
    """The stationary law of the random surfer, by power iteration."""
    x = np.ones(n) / n
    outs = [sorted(v for _, v in h.out_edges(u)) for u in range(n)]
    for _ in range(400):
        y = np.ones(n) * 0.15 / n
        for u in range(n):
            if outs[u]:
                for v in outs[u]:
                    y[v] += 0.85 * x[u] / len(outs[u])
            else:
                y += 0.85 * x[u] / n
        if abs(y - x).sum() < 1e-14:
            break
        x = y
    return [float(v) for v in x]


def check_pagerank(g, n, before, rank, p2, p3, what, st):
    """As check_rank, with ranks known up to the error of the iteration."""
    q2 = 0.1 if p2 is None else p2
    k = int(math.ceil(n * q2))
    top = sorted(rank, reverse=True)
    two = [v for v in range(n) if g.is_edge((v, v)) and g.ep((v, v), 'edge_type') == 2]
    if not near_int(n * q2):
        eps = 1e-4
        for v in range(n):
            if k and rank[v] > top[k - 1] + eps and v not in two:
                bad('rank', '%s: vertex %d has pagerank %r and is not of type 2' % (what, v, rank[v]))
            if (not k or rank[v] < top[k - 1] - eps) and v in two:
                bad('rank', '%s: vertex %d has pagerank %r and is of type 2' % (what, v, rank[v]))
        if len(two) < k:
            bad('rank', '%s: %d vertices are of type 2, expected at least %d' % (what, len(two), k))
    # the rest is as for any ranks that give these vertices
    check_rank(g, n, before, [1.0 if v in two else 0.0 for v in range(n)], len(two) / float(n), p3, what, st)


def simulate(plan, g, st, w):
    qt = boot.qt
    types = {int(g.ep(e, 'edge_type')) for e in g.edges()}
    cls = {t: (qt.LossQueue if t % 2 else qt.QueueServer) for t in types if t}
    args = {t: dict(num_servers=1 + t % 3, AgentFactory=world.mk_factory(t, ['A'], 1), arrival_f=world.mk_arrival(t, ['exp', 1.0]),
                    service_f=world.mk_service(t, ['exp', 0.7])) for t in cls}
    if not cls:
        return
    old = R.cur
    R.cur = w
    w.log = []
    try:
        net = qt.QueueNetwork(g, q_classes=cls, q_args=args, max_agents=30)
        if not any(q.edge[3] for q in net.edge2queue):
            return
        net.initialize(nActive=3)
        net.simulate(n=plan['sim'])
        if net.num_events != plan['sim'] and net.next_event_description()[0] != 'Nothing':
            bad('simulate', 'simulate(%d) on a generated graph performed %d events' % (plan['sim'], net.num_events))
        for e in w.log:
            if e[0] == 'D' and net.edge2queue[e[3]].edge[0] != net.edge2queue[e[2]].edge[1]:
                bad('simulate', 'an agent went from edge %r to edge %r' % (net.edge2queue[e[2]].edge, net.edge2queue[e[3]].edge))
        st['events'] += int(net.num_events)
        t = net.current_time
        if t < INF:
            st['simt'] += float(t)
        st['probes']['simulated'] = st['probes'].get('simulated', 0) + 1
    finally:
        R.cur = old
        w.log = []

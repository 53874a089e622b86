"""Family 'repro': seeded simulations on the real generator of numpy, repeated
in a perturbed process and in fresh ones; digests have to be the same."""
import gc
import hashlib
import json
import os
import random as pyrandom
import subprocess
import time

import numpy as np
import networkx as nx

from dst import boot
from dst.seam import R, Rand, H
from dst.shadow import Bad, Taint, INF


def gen_sub(r):
    return dict(kind=r.weighted([('net', 6), ('solo', 3), ('graph', 2)]), key=r.u64() >> 1, seed=r.weighted([(r.below(1 << 31), 8), (0, 1), (1, .3), (2 ** 32 - 1, .3)]), np=r.weighted([(0, 4), (1, 1), (2, 1)]), how=r.below(2),
                n=r.rng(20, 300))


def gen(prop, r, tier):
    fresh = r.chance(0.012 if tier == 'quick' else 0.02)
    if fresh:
        return dict(ops=[gen_sub(r) for _ in range(r.rng(8, 20))], fresh=True, hashseed=r.rng(1, 4000000), pert=0)
    return dict(ops=[gen_sub(r) for _ in range(r.rng(1, 2))], fresh=False, pert=r.u64() >> 1)


def hexed(h, x):
    if isinstance(x, (list, tuple)):
        h.update(b'[')
        for y in x:
            hexed(h, y)
        h.update(b']')
    elif isinstance(x, np.ndarray):
        h.update(repr(x.shape).encode())
        hexed(h, x.tolist())
    elif isinstance(x, dict):
        # in its own order
        for k, v in x.items():
            hexed(h, [k, v])
    elif isinstance(x, (float, np.floating)):
        h.update(float(x).hex().encode() + b';')
    else:
        h.update(repr(x).encode() + b';')


def digest_graph(h, g):
    hexed(h, [list(g.edges()), list(g.nodes())])
    for e in g.edges():
        hexed(h, g.edges[e].get('edge_type'))
    if getattr(g, 'pos', None) is not None:
        hexed(h, np.asarray(g.pos))


def one(sub, disturb=None, stir=lambda: None):
    """Digest of one seeded simulation."""
    qt = boot.qt
    r = Rand(sub['key'])
    s = (int, np.int64, np.uint32)[sub.get('np', 0)](sub['seed'])
    h = hashlib.sha256()
    if sub['kind'] == 'graph':
        np.random.seed(s)
        k = r.below(5)
        n = r.rng(5, 30)
        stir()
        if k == 0:
            g = qt.generate_random_graph(n, seed=s)
        elif k == 1:
            g = qt.generate_pagerank_graph(n, seed=s)
        elif k == 2:
            g = qt.minimal_random_graph(n, seed=s)
        elif k == 3:
            g = qt.minimal_random_graph(n, seed=s)
            stir()
            g = qt.set_types_random(g, seed=s)
        else:
            g = qt.generate_random_graph(n, prob_loop=0.3, seed=s)
        digest_graph(h, g)
        if disturb:
            disturb()
        stir()
        hexed(h, qt.generate_transition_matrix(g, seed=s))
        if k % 2:
            # a layout that is drawn at random
            g = qt.QueueNetworkDiGraph(nx.DiGraph(list(g.edges())))
            np.random.seed(s)
            g.set_pos()
            hexed(h, np.asarray(g.pos))
        return h.hexdigest()[:24]
    if sub['kind'] == 'solo':
        cls = r.pick([qt.QueueServer, qt.LossQueue, qt.InfoQueue, qt.ResourceQueue])
        kw = dict(num_servers=r.rng(1, 4), collect_data=True)
        if r.chance(0.4):
            a, m = r.pick([1.0, 3.0]), 4.0
            kw['arrival_f'] = lambda t: qt.poisson_random_measure(t, lambda x: a + np.sin(x), m)
            kw['service_f'] = lambda t: t + np.random.gamma(2, 0.3)
        if cls is not qt.QueueServer:
            kw['qbuffer'] = r.rng(0, 4)
        stir()
        if sub['how']:
            q = cls(seed=s, **kw)
        else:
            np.random.seed(s)
            q = cls(**kw)
        q.set_active()
        for _ in range(3):
            q.simulate(n=sub['n'])
            if disturb:
                disturb(q)
            hexed(h, [q.current_time, q.time, q.num_arrivals, q.num_departures, q.num_system, q.fetch_data()])
        return h.hexdigest()[:24]
    # a network
    n = r.rng(4, 20)
    which = r.below(4)
    stir()
    if which == 0:
        g = qt.generate_pagerank_graph(n, seed=s)
    elif which == 1:
        g = qt.generate_random_graph(n, seed=s)
    elif which == 2:
        g = nx.DiGraph()
        vs = r.sample(range(n), n)
        for v in vs:
            for u in r.sample(range(n), 2):
                g.add_edge(v, u, edge_type=r.rng(1, 4))
        g.add_nodes_from(range(n))
    else:
        adj = {v: sorted(set(r.below(n) for _ in range(2))) for v in range(n)}
        g = qt.adjacency2graph(adj, edge_type={v: {u: r.rng(1, 3) for u in adj[v]} for v in adj})
    classes = {1: r.pick([qt.QueueServer, qt.LossQueue]), 2: r.pick([qt.LossQueue, qt.QueueServer, qt.InfoQueue]),
               3: r.pick([qt.LossQueue, qt.ResourceQueue])}
    args = {}
    r2 = Rand(sub['key'] ^ 0x5eed)
    seeds = r2.chance(0.3)
    for t in (1, 2, 3):
        a = dict(num_servers=r.rng(1, 3))
        if classes[t] is qt.InfoQueue:
            a['net_size'] = m = g.number_of_edges() + n
            a['AgentFactory'] = lambda i, m=m: qt.InfoAgent(i, m)
        elif r.chance(0.3):
            a['AgentFactory'] = qt.GreedyAgent
        if classes[t] is qt.ResourceQueue:
            a['AgentFactory'] = qt.ResourceAgent
        if classes[t] is not qt.QueueServer and r.chance(0.5):
            a['qbuffer'] = r.rng(0, 3)
        if r.chance(0.3):
            m = r.pick([0.5, 1.0])
            a['service_f'] = lambda t, m=m: t + m
        if seeds and r2.chance(0.4):
            a['seed'] = s + t if s < 2 ** 31 else s
        args[t] = a
    kw = dict(q_classes=classes, q_args=args, blocking=r.pick(['BAS', 'RS']))
    if r.chance(0.3):
        kw['max_agents'] = r.rng(5, 60)
    if disturb:
        # the same arguments were used before
        for _ in range(r2.below(2)):
            qt.QueueNetwork(g, seed=s, **kw)
    stir()
    if sub['how']:
        net = qt.QueueNetwork(g, seed=s, **kw)
    else:
        np.random.seed(s)
        net = qt.QueueNetwork(g, **kw)
    if disturb:
        disturb(net)
    hexed(h, net.transitions())
    if r.chance(0.5):
        if r.chance(0.5) and which in (0, 1):
            stir()
            net.set_transitions(qt.generate_transition_matrix(g, seed=s))
        else:
            net.set_transitions(net.transitions())
    net.start_collecting_data()
    net.initialize(r.rng(1, 6))
    for _ in range(3):
        net.simulate(n=sub['n'])
        if disturb:
            disturb(net)
        hexed(h, [net.current_time, net.num_events, net.num_agents, net.next_event_description()])
    hexed(h, net.get_queue_data())
    d = net.get_agent_data()
    hexed(h, [[k, v] for k, v in d.items()])
    hexed(h, np.asarray(net.g.pos))
    return h.hexdigest()[:24]


def disturber(r, w):
    """Things that must not matter, while a simulation runs."""
    def f(x=None):
        k = r.below(7)
        w['disturbed'] = w.get('disturbed', 0) + 1
        if k == 0:
            pyrandom.seed(r.u64())
        elif k == 1:
            gc.collect()
        elif k == 2:
            [object() for _ in range(r.below(500))]
        elif k == 3 and x is not None:
            repr(x)
            x.next_event_description()
            if hasattr(x, 'transitions'):
                x.transitions()
                x.get_queue_data()
        elif k == 4 and x is not None:
            x.copy()
        elif k == 5 and x is not None:
            if hasattr(x, 'g'):
                x.get_agent_data()
                x.g.lines_scatter_args()
            else:
                x.fetch_data()
        elif k == 6:
            pyrandom.random()
    return f


def run(plan):
    st = dict(events=0, simt=0.0, fired={}, probes={}, trace=0, taint=None)
    R.cur = None
    try:
        go(plan, st)
    except Bad as e:
        return e, st
    return None, st


def go(plan, st):
    first = []
    for sub in plan['ops']:
        first.append(one(sub))
        st['events'] += 3 * sub['n']
    st['trace'] = int(hashlib.sha256(repr(first).encode()).hexdigest()[:15], 16)
    if plan['fresh']:
        env = dict(os.environ, PYTHONHASHSEED=str(plan['hashseed']), MALLOC_PERTURB_='165', TZ='Asia/Tokyo', COLUMNS='33')
        p = subprocess.run([os.path.join(boot.VERIF, 'check'), 'digests'], env=env, input=json.dumps(plan['ops'][::-1]).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        try:
            other = json.loads(p.stdout.decode().strip().split('\n')[-1])[::-1]
        except (ValueError, IndexError):
            raise Bad(['C11'], 'fresh', 'a fresh process fails: %s' % p.stderr.decode()[-300:])
        st['fired']['repeated in a fresh process (hash seed, memory, order changed)'] = len(plan['ops'])
        for sub, a, b in zip(plan['ops'], first, other):
            if a != b:
                raise Bad(['C11'], 'process', 'seeded %s differs in another process' % sub['kind'])
        return
    r = Rand(plan['pert'])
    f = st['fired']
    # what earlier simulations leave behind
    keep = time.time, os.environ.get('TZ')
    try:
        for _ in range(r.below(3)):
            one(gen_sub(r))
            f['earlier simulation'] = f.get('earlier simulation', 0) + 1
        np.random.seed(r.below(1 << 31))
        np.random.uniform(size=r.below(100))
        np.random.standard_normal(r.below(4))
        pyrandom.seed(r.u64())
        t0 = r.u() * 4e9
        time.time = lambda: t0
        f['clock set'] = f.get('clock set', 0) + 1
        junk = [dict() for _ in range(r.below(2000))]
        d = disturber(r, f)

        def stir():
            # what a seed is given for does not depend on what was drawn before
            np.random.seed(r.below(1 << 31))
            f['generator in another state before a seeded call'] = f.get('generator in another state before a seeded call', 0) + 1
        for i, sub in enumerate(plan['ops']):
            b = one(sub, d if i % 2 == 0 else None, stir)
            if b != first[i]:
                raise Bad(['C11'], 'again', 'seeded %s differs when repeated in the same process' % sub['kind'])
            st['events'] += 3 * sub['n']
        del junk
    finally:
        time.time = keep[0]

"""Family 'form': the same network described in several ways.

A plan has one abstract network (vertices, edges, edge types, classes and
arguments of the types) and several descriptions of it: dicts of lists or of
dicts, matrices, networkx graphs, in different orders, with the edge types
inside or beside it, adjusted by the code or before.  Every network built from
them is compared with the network the description means, and then simulated
with the same draws; the histories must be the same.  The first construction
can crash inside the constructor of a queue and is then repeated from the same
objects.
"""
import copy

import numpy as np
import networkx as nx

from dst import boot, world, fam_net, fam_twin
from dst.seam import R, World, SimCrash, Overrun, H
from dst.shadow import Bad, Taint, INF

FORMS = [('lists', 3), ('dicts', 3), ('matrix', 2), ('nx', 3), ('qn', 2), ('undir', 0), ('qnd', 2), ('back', 2), ('fixed', 2), ('tlists', 2), ('nxm', 1), ('both', 2), ('edit', 3), ('again', 1)]
PROF = dict(fam_twin.PROF, classes=[('QS', 4), ('LOSS', 4), ('RES', 1)], agents=[('A', 6), ('G', 2), ('C', 1)])
OPS = [o for o in fam_twin.OPS if o[0] != 'attr']


def gen(prop, r, tier):
    V, es = fam_net.gen_graph(r, r.chance(0.03))
    if r.chance(0.25):
        # vertices without edges, or without outgoing ones
        V += r.rng(1, 2)
        if r.chance(0.5):
            es = sorted(set(es + [(r.below(V), V - 1)]))
    # relabelled, so that the order of the numbers means nothing
    perm = r.shuffle(list(range(V)))
    es = sorted((perm[u], perm[v]) for u, v in es)
    T = r.rng(1, 4)
    pool = [r.pick([1, 1, 2, 3, 4, 5, 6, 9, 40, -2]) for _ in range(T)]
    edges = []
    for u, v in es:
        edges.append([u, v, 0 if r.chance(0.06) else r.pick(pool)])
    types = sorted({t for _, _, t in edges if t} | {1})
    q = {}
    lattice = r.chance(0.4)
    for t in types:
        c = fam_net.gen_q(r, PROF, lattice)
        how = 'full'
        if r.chance(0.15):
            how = 'class' if (t > 4 or t < 0) or r.chance(0.5) else 'none'     # no arguments, or neither
        c['how'] = how
        if r.chance(0.3):
            c['sens'] = r.pick([0.5, 1, 3, 10])
        if how == 'full' and r.chance(0.12):
            # some arguments are left to their defaults
            c['drop'] = [k for k in ('arrival_f', 'service_f', 'num_servers', 'AgentFactory') if r.chance(0.4)]
        q[str(t)] = c
    cfg = dict(V=V, edges=edges, q=q, blocking=r.weighted([('BAS', 6), ('RS', 4)]), seed=r.u64() >> 1, ux=0)
    if r.chance(0.4):
        cfg['pos'] = [[r.u() * 4, r.u() * 4] for _ in range(V)]
        if r.chance(0.2):
            cfg['nopos'] = r.sample(range(V), r.rng(1, V))
    if r.chance(0.2):
        cfg['max'] = r.rng(2, 30)
    if r.chance(0.15):
        cfg['noargs'] = True
    forms = []
    for _ in range(r.rng(2, 4)):
        forms.append(dict(form=r.weighted(FORMS), key=r.u64() >> 20, crash=r.weighted([(0, 3), (r.rng(1, 6), 2)]), twice=r.chance(0.15)))
    n = r.rng(1, 5)
    ops = fam_twin.gen_ops(r, False, cfg, n, ops=OPS)
    if any(c['how'] != 'full' or c.get('drop') for c in q.values()) or any(str(t) not in q for t in pool):
        # agents that are not the simulator's may try for ever without notice
        ops = [['sim', 3 + int(8 * o[1])] if o[0] == 'simt' else o for o in ops]
    return dict(cfg=cfg, forms=forms, ops=ops)


def reduce(cur):
    p = cur()
    for i in range(len(p['forms'])):
        q = copy.deepcopy(cur())
        if i < len(q['forms']) and len(q['forms']) > 1:
            del q['forms'][i]
            yield q
    for i in range(len(cur()['forms'])):
        q = copy.deepcopy(cur())
        q['forms'][i].update(crash=0, twice=False)
        yield q
    for i in range(len(cur()['cfg']['edges']) - 1, -1, -1):
        q = copy.deepcopy(cur())
        if len(q['cfg']['edges']) > 1 and i < len(q['cfg']['edges']):
            del q['cfg']['edges'][i]
            yield q


# ------------------------------------------------------------- descriptions
def adjusted(cfg, way):
    """The edges (with types) after terminal vertices are taken care of."""
    e = {(u, v): t for u, v, t in cfg['edges']}
    outs = {u for u, _ in e}
    for v in range(cfg['V']):
        if v in outs:
            continue
        if way == 1:
            e[v, v] = 0
        else:
            for x in e:
                if x[1] == v:
                    e[x] = 0
    return e


def describe(cfg, form, key, prev):
    """-> (g, way terminal vertices are adjusted, adjust_graph)"""
    qt = boot.qt
    from dst.seam import Rand
    r = Rand(key, 5)
    V = cfg['V']
    edges = r.shuffle([tuple(e) for e in cfg['edges']])
    verts = r.shuffle(list(range(V)))
    outs = {v: [] for v in verts}
    for u, v, t in edges:
        outs[u].append((v, t))
    touched = {x for u, v, _ in edges for x in (u, v)}
    adjust = r.pick([1, 2])
    hide = r.chance(0.5)        # leave out the type if it is the default one

    def attr(t):
        return {} if t == 1 and hide else {'edge_type': t}

    def beside():
        """Edge types as a separate argument."""
        if all(t for _, _, t in edges) and r.chance(0.4):
            m = np.zeros((V, V), int if r.chance(0.7) else float)
            for u, v, t in edges:
                m[u, v] = t
            return m
        d = {}
        for u, v, t in r.shuffle(list(edges)):
            if not (t == 1 and hide):
                d.setdefault(u, {})[v] = t
        return d or None

    # positions of all vertices or of some of them
    pos = {v: tuple(cfg['pos'][v]) for v in verts if v not in cfg.get('nopos', ())} if cfg.get('pos') else None

    def graph(d, types=None, **kw):
        """adjacency2graph, also when it fails, leaves what it is given."""
        types0 = repr(types)
        snap = snapshot(d)
        if isinstance(types, dict) and r.chance(0.1):
            wrong = {u: dict(x) for u, x in types.items()}
            wrong[V + 1] = {0: 1}
            try:
                qt.adjacency2graph(d, edge_type=wrong, **kw)
            except (KeyError, ValueError):
                pass
        g = qt.adjacency2graph(d, edge_type=types, **kw) if types is not None or r.chance(0.5) else qt.adjacency2graph(d, **kw)
        if snapshot(d) != snap or repr(types) != types0:
            bad('description', 'adjacency2graph changed its arguments: %r, was %r' % (snapshot(d), snap))
        return g

    def withpos(g):
        if pos:
            nx.set_node_attributes(g, name='pos', values=pos)
        return g

    if form == 'lists':
        # terminal vertices need no entry
        d = {u: [v for v, _ in outs[u]] for u in verts if outs[u] or u not in touched or r.chance(0.5)}
        return withpos(graph(d, beside(), adjust=adjust)), adjust, True
    if form == 'tlists':
        types = {t for _, _, t in edges}
        if types != {1}:
            form = 'dicts'
        else:
            d = {u: [v for v, _ in outs[u]] for u in verts if outs[u] or u not in touched or r.chance(0.5)}
            return d, 1, True
    if form in ('dicts', 'qnd'):
        d = {u: {v: attr(t) for v, t in outs[u]} for u in verts if outs[u] or u not in touched or r.chance(0.5)}
        if form == 'qnd':
            snap = snapshot(d)
            g = qt.QueueNetworkDiGraph(d)
            if snapshot(d) != snap:
                bad('description', 'QueueNetworkDiGraph changed its argument: %r, was %r' % (snapshot(d), snap))
            return withpos(g), 1, True
        return d, 1, True
    if form == 'both':
        # types beside the description replace those inside
        by = {}
        d = {u: {} for u in verts if outs[u] or u not in touched or r.chance(0.5)}
        for u in d:
            for v, t in outs[u]:
                d[u][v] = attr(t)
                if r.chance(0.6):
                    d[u][v] = r.pick([{}, {'edge_type': r.rng(0, 5)}, {'edge_type': t}])
                    by.setdefault(u, {})[v] = t
        return withpos(graph(d, by or None, adjust=adjust)), adjust, True
    if form == 'matrix':
        kind = r.pick([int, float, bool])
        m = np.zeros((V, V), kind)
        for u, v, _ in edges:
            # any entry but zero is an edge
            m[u, v] = r.pick({int: [1, 1, 2, 7, -1], float: [1, 1, 0.5, 1e-3, 3.7, -0.5], bool: [True]}[kind])
        return withpos(graph(m, beside(), adjust=adjust)), adjust, True
    if form == 'nxm' and all(t == 1 for _, _, t in edges):
        m = np.zeros((V, V), int)
        for u, v, _ in edges:
            m[u, v] = 1
        return m, 2, True
    if form == 'back' and prev is not None:
        # through the dict of a network built before
        net, way = prev
        d = qt.graph2dict(net.g)
        keep = {u: {v: {'edge_type': a['edge_type']} for v, a in d[u].items()} for u in d}
        return (keep if way == 1 else withpos(graph(keep, adjust=2))), way, True
    g = nx.DiGraph()
    g.add_nodes_from(verts)
    if form == 'fixed':
        # nothing is left to adjust
        e = adjusted(cfg, adjust)
        for u, v in r.shuffle(sorted(e)):
            g.add_edge(u, v, **attr(e[u, v]))
        g = withpos(g)
        k = r.below(4)
        if k == 1:
            g = qt.QueueNetworkDiGraph(g)
        elif k == 2:
            g = qt.QueueNetworkDiGraph(g).copy()
        elif k == 3:
            g = qt.QueueNetworkDiGraph(g).subgraph(verts).copy()
        return g, adjust, False
    if form == 'again' and prev is not None:
        # the graph of another network
        net, way = prev
        return net.g, way, r.chance(0.3)
    if form == 'edit':
        # a graph that was made step by step
        done = r.chance(0.4)
        e = adjusted(cfg, adjust) if done else {(u, v): t for u, v, t in edges}
        g = edited(r, V, e, pos, attr)
        return g, adjust if done else 2, not done
    for u, v, t in edges:
        g.add_edge(u, v, **attr(t))
    withpos(g)
    if form == 'qn':
        return qt.QueueNetworkDiGraph(g), 2, True
    return g, 2, True


def edited(r, V, e, pos, attr):
    """A QueueNetworkDiGraph that gets vertices V and edges e by editing another one."""
    qt = boot.qt
    other = sorted({(u, v) for u in range(V + 2) for v in range(V + 2)} - set(e)) if V < 12 else []
    keep = [x for x in sorted(e) if r.chance(0.5)]
    gone = [x for x in other if r.chance(0.1)]
    g = nx.DiGraph()
    g.add_edges_from(r.shuffle(keep + gone))
    if pos and r.chance(0.5):
        nx.set_node_attributes(g, name='pos', values={v: (9.0, 9.0) for v in g})
    g = qt.QueueNetworkDiGraph(g) if r.chance(0.8) or not keep + gone else qt.QueueNetworkDiGraph({u: {v: {} for v in g[u]} for u in g if len(g[u])})
    todo = [('node', v) for v in range(V)] + [('rest', None)] * r.below(3)
    todo += [('cut', x) for x in gone] + [('add', x) for x in sorted(e) if r.chance(0.7)]
    for k, x in r.shuffle(todo):
        if k == 'node':
            g.add_node(x)
        elif k == 'cut' and g.has_edge(*x):
            g.remove_edge(*x)
        elif k == 'add':
            g.add_edge(*x)
        elif k == 'rest':
            g.add_edges_from(r.shuffle([x for x in sorted(e) if r.chance(0.3)]))
    for v in range(V, V + 2):
        if g.has_node(v):
            g.remove_node(v)
    for u, v in list(g.edges()):
        if (u, v) not in e:
            g.remove_edge(u, v)
    for x in r.shuffle(sorted(e)):
        if not g.has_edge(*x):
            g.add_edge(*x)
        g.adj[x[0]][x[1]].clear()
        if r.chance(0.3) and attr(e[x]) and g.is_edge(x):
            g.set_ep(x, 'edge_type', e[x])
        else:
            g.adj[x[0]][x[1]].update(attr(e[x]))
    if pos:
        k = r.below(2)
        if k == 0 and len(pos) == V:
            g.set_pos(pos)
        else:
            nx.set_node_attributes(g, name='pos', values=pos)
    elif r.chance(0.3):
        return g.copy()
    return g


def snapshot(g):
    """What must not change in a description."""
    if isinstance(g, np.ndarray):
        return g.tolist()
    if isinstance(g, dict):
        return {k: {u: dict(a) for u, a in v.items()} if isinstance(v, dict) else list(v) for k, v in g.items()}
    return ([(v, repr(sorted(d.items()))) for v, d in sorted(g.nodes(data=True))], [(u, v, repr(sorted(d.items()))) for u, v, d in sorted(g.edges(data=True), key=lambda x: x[:2])])


class Bomb(object):
    """Makes the constructor of the n-th queue fail."""
    left = 0


def classes(cfg):
    cls, args = {}, {}
    ne = len(cfg['edges']) + cfg['V']
    for t, c in cfg['q'].items():
        k = world.cls_of(c['cls'])
        if c['how'] != 'none':
            cls[int(t)] = bombed(k)
        if c['how'] == 'full':
            args[int(t)] = world.q_kwargs(int(t), c, ne)
            for k in c.get('drop', ()):
                del args[int(t)][k]
    return cls, args


_bombed = {}


def bombed(base):
    if base not in _bombed:
        def init(self, *a, **k):
            if Bomb.left:
                Bomb.left -= 1
                if not Bomb.left:
                    raise SimCrash()
            base.__init__(self, *a, **k)
        _bombed[base] = type(base.__name__, (base,), dict(__init__=init))
    return _bombed[base]


def expected_class(cfg, t):
    qt = boot.qt
    c = cfg['q'].get(str(t))
    if c is None or c['how'] == 'none':
        return {0: qt.NullQueue, 1: qt.QueueServer, 2: qt.LossQueue, 3: qt.LossQueue, 4: qt.LossQueue}[t]
    return bombed(world.cls_of(c['cls']))


def bad(tag, msg):
    raise Bad(['C20'], tag, msg)


def inspect(cfg, net, way, where):
    e = adjusted(cfg, way)
    g = net.g
    if sorted(g.nodes()) != list(range(cfg['V'])) or net.num_vertices != cfg['V'] or net.num_nodes != cfg['V']:
        bad('vertices', '%s: the network has vertices %r (%r), expected %d' % (where, sorted(g.nodes()), net.num_vertices, cfg['V']))
    want = sorted(e)
    got = sorted(g.edges())
    if got != want or net.num_edges != len(want) or len(net.edge2queue) != len(want):
        bad('edges', '%s: the network has edges %r, expected %r' % (where, got, want))
    for k, x in enumerate(want):
        q = net.edge2queue[k]
        if tuple(q.edge[:2]) != x or q.edge[2] != k:
            bad('index', '%s: queue %d says it is on edge %r, expected %r' % (where, k, q.edge, x + (k,)))
        if q.edge[3] != e[x] or g.ep(x, 'edge_type') != e[x]:
            bad('type', '%s: edge %r has type %r (the graph says %r), expected %r' % (where, x, q.edge[3], g.ep(x, 'edge_type'), e[x]))
        if g.edge_index[x] != k:
            bad('index', '%s: edge_index of %r is %r, expected %d' % (where, x, g.edge_index[x], k))
        c = expected_class(cfg, e[x])
        if type(q) is not c:
            bad('class', '%s: the queue on %r of type %r is a %s, expected %s' % (where, x, e[x], type(q).__name__, c.__name__))
        s = cfg['q'].get(str(e[x]))
        if s is not None and s['how'] == 'full':
            exp = dict(num_servers=INF if s['ns'] is None else s['ns'], active_cap=INF if s.get('cap') is None else s['cap'], deactive_t=s.get('deact') or INF,
                       collect_data=bool(s.get('collect', False)), coloring_sensitivity=s.get('sens') or 2)
            if 'num_servers' in s.get('drop', ()):
                exp['num_servers'] = 10 if isinstance(q, boot.qt.ResourceQueue) else 1
            if s['cls'] != 'QS':
                exp['buffer'] = world.num(s.get('buf', 0))
        elif e[x]:
            exp = dict(num_servers=10 if isinstance(q, boot.qt.ResourceQueue) else 1, active_cap=INF, deactive_t=INF, collect_data=False)
        else:
            exp = {}
        for a, v in exp.items():
            if getattr(q, a) != v:
                bad('argument', '%s: %s of the queue on %r is %r, expected %r' % (where, a, x, getattr(q, a), v))
    for v in range(cfg['V']):
        o = [k for k, x in enumerate(want) if x[0] == v]
        i = [k for k, x in enumerate(want) if x[1] == v]
        if list(net.out_edges[v]) != o or list(net.in_edges[v]) != i:
            bad('index', '%s: vertex %d has out_edges %r and in_edges %r, expected %r and %r' % (where, v, net.out_edges[v], net.in_edges[v], o, i))
    for t in sorted(set(e.values())):
        if sorted(g.get_edge_type(t)) != [x for x in want if e[x] == t]:
            bad('type', '%s: get_edge_type(%r) is %r' % (where, t, g.get_edge_type(t)))
    tr = net.transitions()
    for v in range(cfg['V']):
        o = [x[1] for x in want if x[0] == v]
        for u in range(cfg['V']):
            p = 1.0 / len(o) if u in o else 0.0
            if abs(tr[v, u] - p) > 1e-12:
                bad('transitions', '%s: transitions()[%d, %d] is %r, expected %r' % (where, v, u, tr[v, u], p))
    d = boot.qt.graph2dict(g, return_dict_of_dict=False)
    if {v: sorted(x) for v, x in d.items()} != {v: sorted(x[1] for x in want if x[0] == v) for v in range(cfg['V'])}:
        bad('dict', '%s: graph2dict gives %r' % (where, d))


def build(cfg, f, prev, st):
    """-> (Sys, way)"""
    w = World(cfg['seed'], 0)
    R.cur = w
    np.random.seed(cfg['seed'] & 0x7fffffff)
    try:
        g, way, adj = describe(cfg, f['form'], f['key'], prev)
        snap = snapshot(g)
        where0 = {} if isinstance(g, (dict, np.ndarray)) else nx.get_node_attributes(g, 'pos')
        cls, args = classes(cfg)
        for t in sorted(set(adjusted(cfg, way).values())):
            if (t > 4 or t < 0) and t not in cls:
                raise Taint('type without a class')
        kw = dict(blocking=cfg['blocking'], max_agents=cfg.get('max') or INF, adjust_graph=adj, q_classes=cls)
        if not (cfg.get('noargs') and not args):
            kw['q_args'] = args
        net = None
        Bomb.left = f['crash']
        if f['crash']:
            try:
                net = boot.qt.QueueNetwork(g, **kw)
            except SimCrash:
                st['fired']['crash inside the construction'] = st['fired'].get('crash inside the construction', 0) + 1
                if snapshot(g) != snap:
                    bad('description', 'an interrupted construction changed its description: %r, was %r' % (snapshot(g), snap))
        Bomb.left = 0
        if net is None or f['twice']:
            if net is not None:
                st['probes']['built again from the same description'] = st['probes'].get('built again from the same description', 0) + 1
                net = None
            if net is None:
                net = boot.qt.QueueNetwork(g, **kw)
        if snapshot(g) != snap:
            bad('description', 'the construction changed its description: %r, was %r' % (snapshot(g), snap))
        where = 'built from %s' % f['form']
        inspect(cfg, net, way, where)
        for v in range(cfg['V']):
            p = where0.get(v, net.g.pos[v])
            if not (np.isfinite(p).all() and np.allclose(net.g.pos[v], p) and np.allclose(net.g.vp(v, 'pos'), p)):
                bad('pos', '%s: vertex %d is at %r, expected %r' % (where, v, net.g.pos[v], p))
    finally:
        R.cur = None
        Bomb.left = 0
    w.log = []
    s = fam_twin.Sys.__new__(fam_twin.Sys)
    s.cfg, s.w, s.net, s.q = cfg, World(cfg['seed'], 0), net, None
    s.inited, s.events = False, 0
    s.live = [k for k, q in enumerate(net.edge2queue) if not isinstance(q, boot.qt.NullQueue)]
    st['probes'][f['form']] = st['probes'].get(f['form'], 0) + 1
    return s, way


def defaults(cfg, net, way, key):
    """Times between arrivals and service times that are not given are
    exponential with mean 1 and 0.9."""
    e = adjusted(cfg, way)
    for q in net.edge2queue:
        c = cfg['q'].get(str(e[tuple(q.edge[:2])]))
        given = c is not None and c['how'] == 'full'
        if isinstance(q, boot.qt.NullQueue) or (given and not {'arrival_f', 'service_f'} & set(c.get('drop', ()))):
            continue
        R.cur = World(key, 0)
        try:
            for what, f, mean in (('arrival', q.arrival_f, 1.0), ('service', q.service_f, 0.9)):
                if given and what + '_f' not in c['drop']:
                    continue
                n = 2500
                x = np.array([f(3.0) for _ in range(n)]) - 3.0
                # 8 standard deviations
                if not (x >= 0).all() or abs(x.mean() / mean - 1) > 0.16 or abs((x > mean).mean() - np.exp(-1)) > 0.08:
                    bad('default', 'the default %s times of the queue on %r have mean %.3f, expected %.1f' % (what, q.edge, x.mean(), mean))
        finally:
            R.cur = None
        return True


def run(plan):
    st = dict(events=0, simt=0.0, fired={}, probes={}, trace=0, taint=None)
    try:
        go(plan, st)
    except Bad as e:
        return e, st
    except Taint as e:
        st['taint'] = str(e)
    except Overrun:
        st['taint'] = 'too many steps'
    finally:
        R.cur = None
    return None, st


def go(plan, st):
    cfg = plan['cfg']
    hist = {}
    prev = None
    tr = 0
    for f in plan['forms']:
        s, way = build(cfg, f, prev, st)
        prev = (s.net, way)
        if f['key'] % 3 == 0 and defaults(cfg, s.net, way, f['key']):
            st['probes']['default distributions'] = st['probes'].get('default distributions', 0) + 1
        if not s.live:
            st['probes']['nothing but terminal edges'] = st['probes'].get('nothing but terminal edges', 0) + 1
            continue
        h = []
        for op in plan['ops']:
            s.do(op)
            h.append((s.take_log(), s.canon()))
            for e in h[-1][0]:
                if e[0] in 'ASQ':
                    tr = hash((tr, e[1], e[3] if e[0] != 'Q' else e[2:4]))
        st['events'] += s.nev()
        t = s.now()
        if t < INF:
            st['simt'] += float(t)
        if way in hist:
            ref, form = hist[way]
            for j, (a, b) in enumerate(zip(ref, h)):
                d = fam_twin.logdiff(a[0], b[0]) or fam_twin.differ(a[1], b[1])
                if d:
                    bad('history', 'operation %d %r: the network built from %s differs from the one built from %s: %s' % (j, plan['ops'][j], f['form'], form, d))
            st['probes']['histories compared'] = st['probes'].get('histories compared', 0) + 1
        else:
            hist[way] = (h, f['form'])
    st['trace'] = tr

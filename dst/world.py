"""Builds the simulated systems: real queues and networks of queueing_tool with
user supplied functions (arrival_f, service_f, AgentFactory, agents) that belong
to the simulator."""
import math

import numpy as np
import networkx as nx

from dst import boot
from dst.seam import R, World, H

INF = float('inf')
U = 1.0 / (1 << 53)


# ---------------------------------------------------------------- durations
def rescale(plan, f, off):
    """The same plan with another unit of time, and a clock that starts late."""
    def spec(s):
        k = s[0]
        if k in ('exp', 'det'):
            return [k, s[1] * f]
        if k == 'uni':
            return [k, s[1] * f, s[2] * f]
        if k == 'lat':
            return [k, s[1] * f] + s[2:]
        if k == 'burst':
            return [k, s[1], spec(s[2])]
        return [k, s[1], s[2] * f, spec(s[3])]
    cfg = plan['cfg']
    for c in list(cfg.get('q', {}).values()) + ([cfg['solo']] if 'solo' in cfg else []):
        c['arr'], c['svc'] = spec(c['arr']), spec(c['svc'])
        if off:
            c['off'] = off
        if c.get('deact') is not None:
            c['deact'] = c['deact'] * f + off
    for op in plan.get('ops', []) + plan.get('pre', []):
        if op[0] == 'simt':
            op[1] *= f
        if op[0] == 'delay' and op[2] is not None:
            op[2] *= f
        if op[0] == 'attr' and op[2] in ('svc', 'arr'):
            op[3] = spec(op[3])
        if op[0] == 'attr' and op[2] == 'deact' and op[3] is not None:
            op[3] *= f
    cfg['unit'] = [f, off]
    return plan


def unit(r, plan, p):
    """With probability p another unit of time or a late start."""
    if r.chance(p):
        f = r.pick([2.0 ** -20, 1e-6, 1e-3, 1024.0, 1e6, 1.0, 1.0])
        off = r.pick([0.0, 0.0, 1e5, 2.0 ** 30, 1.7e9, 1.7e12]) if f >= 1e-3 else 0.0
        if off > 1e6 and f < 1:
            off = 1e5
        rescale(plan, f, off)
    return plan


def dist(spec):
    """spec -> function of a 64 bit draw giving a duration >= 0."""
    k = spec[0]
    if k == 'exp':
        m = spec[1]
        return lambda x: -m * math.log1p(-((x >> 11) * U))
    if k == 'det':
        v = spec[1]
        return lambda x: v
    if k == 'uni':
        a, b = spec[1], spec[2]
        return lambda x: a + (b - a) * ((x >> 11) * U)
    if k == 'lat':        # multiples of a dyadic step: exact ties
        step, lo, hi = spec[1], spec[2], spec[3]
        n = hi - lo + 1
        return lambda x: step * (lo + (x >> 20) % n)
    if k == 'burst':      # with probability p a zero gap, else base
        p, base = spec[1], dist(spec[2])
        lim = int(p * 1024)
        return lambda x: 0.0 if (x & 1023) < lim else base(H(x))
    if k == 'stall':      # with probability p a very long one
        p, big, base = spec[1], spec[2], dist(spec[3])
        lim = int(p * 1024)
        return lambda x: big if (x & 1023) < lim else base(H(x))
    raise ValueError(spec)


_dists = {}


def dist_of(spec):
    k = repr(spec)
    d = _dists.get(k)
    if d is None:
        if len(_dists) > 500:
            _dists.clear()
        d = _dists[k] = dist(spec)
    return d


class Times(object):
    """An arrival_f or service_f. With own=True it has a state of its own, the number
    of its draws, otherwise draws are counted in the world it is called in."""
    def __init__(self, qid, kind, spec, off=0.0, own=False):
        self.qid, self.kind, self.spec, self.off, self.own = qid, kind, spec, off, own
        self.n = 0

    def __call__(self, t):
        w = R.cur
        w.tick()
        qid, kind = self.qid, self.kind
        if self.own:
            self.n += 1
            x = H(w.seed, qid, kind, 977, self.n)
        else:
            x = w.draw(qid, kind)
        dt = dist_of(self.spec)(x)
        if kind == 1:
            if dt == INF:
                w.fire('no further arrival (infinite time)')
            if dt == 0.0 and self.spec[0] == 'burst':
                w.fire('burst (simultaneous arrival)')
            r = (t if t >= self.off else self.off) + dt
            w.log.append(('A', qid, t, r, self.spec))
            return r
        if self.spec[0] == 'stall' and dt == self.spec[2]:
            w.fire('stalled service' if dt < INF else 'service without end')
        r = t + dt
        w.log.append(('S', qid, t, r, self.spec))
        return r


def wrapped(f):
    """f as a plain function, which copies share."""
    return lambda t: f(t)


def mk_arrival(qid, spec, off=0.0, own=False):
    f = Times(qid, 1, spec, off, own)
    return f if own else wrapped(f)


def mk_service(qid, spec, own=False):
    f = Times(qid, 2, spec, 0.0, own)
    return f if own else wrapped(f)


AGENTS = {}


def setup():
    """Defines the agents; called once after boot.load()."""
    if AGENTS:
        return
    qt = boot.qt

    class Log(object):
        uid = None

        def queue_action(self, queue, *args, **kwargs):
            w = R.cur
            w.tick()
            super(Log, self).queue_action(queue, *args, **kwargs)
            w.log.append(('Q', self.uid, queue.edge[2], args[0] if args else None, self.agent_id))

        def desired_destination(self, network, edge):
            w = R.cur
            w.tick()
            e = super(Log, self).desired_destination(network, edge)
            w.log.append(('D', self.uid, edge[2], int(e), self))
            return e

        def add_loss(self, qedge, *args, **kwargs):
            w = R.cur
            super(Log, self).add_loss(qedge, *args, **kwargs)
            w.log.append(('L', self.uid, qedge[2]))

    class A(Log, qt.Agent):
        pass

    class G(Log, qt.GreedyAgent):
        def desired_destination(self, network, edge):
            outs = network.out_edges[edge[1]]
            lens = [network.edge2queue[k].number_queued() for k in outs]
            e = super(G, self).desired_destination(network, edge)
            R.cur.log.append(('G', self.uid, list(outs), lens, int(e)))
            return e

    class C(Log, qt.Agent):
        """Follows a route of its own."""
        def desired_destination(self, network, edge):
            w = R.cur
            w.tick()
            outs = network.out_edges[edge[1]]
            n = getattr(self, 'hops', 0)
            self.hops = n + 1
            e = outs[H(w.seed, 77, self.uid, n) % len(outs)]
            w.log.append(('D', self.uid, edge[2], int(e), self))
            return e

    class Res(Log, qt.ResourceAgent):
        pass

    class Held(Res):
        """Comes from outside with a resource that it took elsewhere."""
        def __init__(self, *args, **kwargs):
            super(Held, self).__init__(*args, **kwargs)
            qt.ResourceAgent.queue_action(self, qt.ResourceQueue(num_servers=2))

    class Info(Log, qt.InfoAgent):
        def queue_action(self, queue, *args, **kwargs):
            isq = isinstance(queue, qt.InfoQueue)
            if isq:
                ab = self.net_data.copy()
                qb = queue.net_data.copy()
            super(Info, self).queue_action(queue, *args, **kwargs)
            if isq:
                R.cur.log.append(('I', self.uid, queue.edge[2], args[0] if args else None, ab, qb,
                                  self.net_data.copy(), queue.net_data.copy(),
                                  (queue.current_time, queue.num_servers, queue.num_system),
                                  np.array(self.get_beliefs())))

    AGENTS.update(A=A, G=G, C=C, R=Res, H=Held, I=Info)


def mk_factory(qid, kinds, net_size, dup=None):
    classes = [AGENTS[k] for k in kinds]

    def factory(agent_id, *rest):
        w = R.cur
        w.tick()
        w.uid += 1
        cls = classes[w.draw(qid, 3) % len(classes)] if len(classes) > 1 else classes[0]
        if cls is AGENTS['I']:
            a = cls(agent_id, net_size)
        elif dup:
            # agents that come again under the id of an earlier one
            a = cls((agent_id[0], agent_id[1] % dup))
        else:
            a = cls(agent_id)
        a.uid = w.uid
        w.log.append(('N', qid, agent_id, w.uid, a))
        return a
    return factory


def set_attr(q, key, what, val, off=0.0):
    """Gives a queue another buffer, limit or function, as users can at any time
    -> the attribute and its value, or None if the queue has no such thing."""
    if what == 'buf':
        if not hasattr(q, 'buffer'):
            return None
        if val is None and isinstance(q, boot.qt.ResourceQueue):
            val = 3
        out = ('buffer', num(val))
    elif what == 'svc':
        out = ('service_f', mk_service(key, val))
    elif what == 'arr':
        out = ('arrival_f', mk_arrival(key, val, off))
    elif what == 'cap':
        out = ('active_cap', num(None if val is None else q.num_arrivals[1] + val))
    else:
        out = ('deactive_t', num(None if val is None else q.current_time + val))
    setattr(q, *out)
    return out


def cls_of(name):
    qt = boot.qt
    return {'QS': qt.QueueServer, 'LOSS': qt.LossQueue, 'RES': qt.ResourceQueue,
            'INFO': qt.InfoQueue, 'NULL': qt.NullQueue}[name]


def num(x):
    return INF if x is None else x


def number(n, k):
    """n, or infinity, as one of the objects that users have."""
    if n is None:
        return (np.infty, float('inf'), np.float64('inf'), np.infty)[k % 4]
    return (int, int, np.int64, np.int32)[k % 4](n)


def q_kwargs(key, c, net_size=1, pool=None):
    """Keyword arguments of a queue; ``key`` is the stream of its draws."""
    ns = c['ns']
    own = c.get('own', 0)
    arr, svc = mk_arrival(key, c['arr'], c.get('off', 0.0), own), mk_service(key, c['svc'], own)
    if own and pool is not None:
        # one object for several queues
        if own & 2:
            arr = pool.setdefault('arr', arr)
        if own & 4:
            svc = pool.setdefault('svc', svc)
    kw = dict(num_servers=number(ns, (key or 0) + 3 * (ns or 0)), arrival_f=arr, service_f=svc,
              AgentFactory=mk_factory(key, c['ag'], net_size, c.get('dup')), collect_data=bool(c.get('collect', False)))
    if c.get('cap') is not None:
        kw['active_cap'] = c['cap']
    if c.get('deact') is not None:
        kw['deactive_t'] = c['deact']
    if c['cls'] in ('LOSS', 'RES', 'INFO'):
        kw['qbuffer'] = num(c.get('buf', 0))
    if c['cls'] == 'INFO':
        kw['net_size'] = net_size
    if c.get('sens') is not None:
        kw['coloring_sensitivity'] = c['sens']
    if c.get('cols') is not None:
        kw['colors'] = {k: list(v) for k, v in c['cols'].items()}
    return kw


def build_net(cfg, seed=None):
    """A QueueNetwork for cfg, built through the public constructor.

    Every edge that is not terminal has a type of its own, so that its queue
    gets functions of its own.  The stream of an edge's draws is its type."""
    qt = boot.qt
    g = nx.DiGraph()
    if cfg.get('order'):
        g.add_nodes_from(cfg['order'])
    else:
        g.add_nodes_from(range(cfg['V']))
    if cfg.get('pos'):
        for v in g.nodes():
            g.nodes[v]['pos'] = tuple(cfg['pos'][v])
    for u, v, t in cfg['edges']:
        g.add_edge(u, v, edge_type=t)
    ne = len(cfg['edges']) + cfg['V']
    classes, args, pool = {}, {}, {}
    for t, c in cfg['q'].items():
        t = int(t)
        classes[t] = cls_of(c['cls'])
        args[t] = q_kwargs(t, c, ne, pool)
    args[0] = dict(collect_data=bool(cfg.get('collect0', False)))
    classes[0] = qt.NullQueue
    kw = dict(blocking=cfg.get('blocking', 'BAS'), max_agents=num(cfg.get('max')))
    if seed is not None:
        kw['seed'] = seed
    if cfg.get('ncolc'):
        kw['colors'] = {k: list(v) for k, v in cfg['ncols'].items()}
    net = qt.QueueNetwork(g, q_classes=classes, q_args=args, **kw)
    tr = cfg.get('trans')
    if tr:
        apply_trans(net, tr)
    return net


def apply_trans(net, tr):
    """tr: {vertex: {out position: weight}}; probabilities over the out edges."""
    d = trans_dict(net, tr)
    if d:
        net.set_transitions(d)
    return d


def trans_dict(net, tr):
    d = {}
    for v, ws in tr.items():
        v = int(v)
        if v >= net.num_vertices:
            continue
        outs = [net.edge2queue[k].edge[1] for k in net.out_edges[v]]
        if not outs:
            continue
        ws = [ws[i % len(ws)] for i in range(len(outs))]
        s = float(sum(ws))
        if s <= 0:
            ws, s = [1.0] * len(outs), float(len(outs))
        ps = [x / s for x in ws]
        if len(d) % 3 == 1:
            # as users write them: rounded, so that they nearly sum to one
            rp = [round(x, 6) for x in ps]
            if abs(sum(rp) - 1) < 4e-6:
                ps = rp
        d[v] = dict(zip(outs, ps))
    return d


def build_queue(c, key=0):
    kw = q_kwargs(key, c, 1)
    if c['cls'] == 'INFO':
        kw['net_size'] = 1
    kw['edge'] = (0, 0, key, 1)
    kw['colors'] = dict(edge_color=[0.9, 0.9, 0.9, 0.5])
    return cls_of(c['cls'])(**kw)


def select(qs, ids, sel, name='edge'):
    """The same queues (or all those of the same types, or just the first one)
    described in another way -> (ids, arguments)"""
    if ids is None:
        return list(range(len(qs))), {}
    es = [tuple(int(x) for x in qs[i].edge[:2]) for i in ids]
    if sel is None or not ids:
        return ids, dict(queues=list(ids))
    if sel == 'int':
        return ids[:1], dict(queues=ids[0])
    if sel in ('tuple', 'array', 'set'):
        return ids, dict(queues={'tuple': tuple, 'array': np.array, 'set': set}[sel](ids))
    if sel == 'edge':
        return ids[:1], {name: es[0]}
    if sel == 'edges':
        return ids, {name: es}
    if sel == 'etuple':
        return ids, {name: tuple(es)}
    if sel == 'npedges':
        return ids, {name: [tuple(x) for x in np.array(es)]}
    ts = [qs[i].edge[3] for i in ids]
    if sel == 'type':
        ts = ts[:1]
    ids = [k for k, q in enumerate(qs) if q.edge[3] in ts]
    return ids, dict(edge_type={'type': lambda x: x[0], 'types': list, 'typeset': set, 'typearr': np.array}[sel](ts))

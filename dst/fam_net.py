"""Family 'net': a network (or a lone queue) driven event by event against the
reference model, with operations and faults between the events."""
import copy

import numpy as np

from dst import boot, world
from dst.seam import R, World, Rand, SimCrash
from dst.shadow import Shadow, Bad, Taint, INF, reset_qm

AFTER = {'setn': ('C04',), 'badn': ('C04',), 'act': ('C07',), 'init': ('C07', 'C08'), 'initn': ('C07', 'C08'), 'max': ('C08',), 'blk': ('C06',),
         'trans': ('C09',), 'col': ('C10',), 'clrd': ('C10',), 'data': ('C10',), 'delay': ('C03',), 'drain': ('C17',)}
AFTER_ATTR = {'buf': ('C05',), 'svc': ('C03',), 'arr': ('C07',), 'cap': ('C07',), 'deact': ('C07',)}


# ------------------------------------------------------------------ profiles
# class weights, op weights, and knobs, per property
BASE = dict(
    solo=0.0,
    classes=[('QS', 4), ('LOSS', 4), ('INFO', 1), ('RES', 1)],
    agents=[('A', 6), ('G', 2), ('C', 2), ('I', 1), ('R', 1)],
    ops=[('setn', 2), ('col', 2), ('clrd', 1), ('act', 2), ('init', 2), ('max', 1), ('blk', 1), ('trans', 1),
         ('copy', 1), ('data', 2), ('delay', 1), ('badn', .5), ('attr', 1)],
    big=0.02, maxlim=0.35, collect=0.5, small_buf=0.8, load=(0.6, 1.6), lattice=0.5, feat=0.6)


def prof(**k):
    d = dict(BASE)
    d.update(k)
    return d


PROFILES = {
    'C01': prof(solo=0.15, big=0.12, ops=[('setn', 3), ('act', 2), ('init', 3), ('delay', 3), ('max', 1), ('blk', 1), ('copy', 1), ('attr', 1)]),
    'C02': prof(solo=0.1),
    'C03': prof(solo=0.4, classes=[('QS', 6), ('LOSS', 3), ('INFO', 1), ('RES', .5)], small_buf=0.4, ops=[('setn', 2), ('col', 1), ('act', 1), ('delay', 1), ('init', 1), ('copy', .5), ('attr', 1)]),
    'C04': prof(solo=0.4, small_buf=0.4, classes=[('QS', 4), ('LOSS', 3), ('INFO', 1), ('RES', 1.5)], ops=[('setn', 8), ('badn', 2), ('act', 1), ('init', 1), ('copy', .5), ('attr', 1)]),
    'C05': prof(dup=True, solo=0.35, classes=[('LOSS', 6), ('INFO', 2), ('RES', 2), ('QS', 1)], load=(0.9, 2.5), ops=[('setn', 4), ('col', 1), ('data', 1), ('act', 1), ('blk', 1), ('init', 1), ('attr', 2)]),
    'C06': prof(classes=[('LOSS', 6), ('INFO', 1), ('QS', 2), ('RES', 0.7)], load=(0.9, 2.5), maxlim=0.5, ops=[('setn', 2), ('blk', 4), ('act', 1), ('trans', 1), ('init', 1), ('copy', .5), ('attr', 1)], agents=[('A', 6), ('G', 1), ('C', 3), ('R', 0.7)]),
    'C07': prof(solo=0.4, feat=0.95, ops=[('act', 6), ('init', 4), ('setn', 1), ('max', 1), ('attr', 3)]),
    'C08': prof(maxlim=1.0, ops=[('max', 4), ('init', 4), ('act', 1), ('setn', 1), ('blk', .5), ('copy', .5), ('attr', 0.5)]),
    'C09': prof(big=0.04, classes=[('QS', 6), ('LOSS', 1)], agents=[('A', 5), ('G', 5), ('C', 3), ('I', 1)], load=(0.8, 2.0), small_buf=0.3, ops=[('trans', 5), ('init', 1), ('setn', 1), ('copy', 1), ('attr', 0.5)]),
    'C10': prof(dup=True, solo=0.25, collect=0.8, ops=[('col', 5), ('clrd', 2), ('data', 4), ('setn', 2), ('act', 1), ('init', 1), ('copy', 1), ('delay', .5), ('attr', 1)], load=(0.8, 2.0)),
    'C15': prof(solo=0.15, classes=[('RES', 6), ('QS', 4), ('LOSS', 1)], agents=[('R', 8), ('A', 1), ('G', .3), ('H', .5)], load=(0.6, 2.0), ops=[('setn', 1), ('act', 1), ('init', 2), ('max', 1), ('blk', 1), ('data', 1), ('col', 1), ('copy', .5), ('attr', 0.7)]),
    'C16': prof(solo=0.1, classes=[('INFO', 8), ('QS', 2), ('LOSS', 1)], agents=[('I', 8), ('A', 1)], ops=[('setn', 3), ('act', 1), ('init', 2), ('copy', 1), ('blk', 1), ('col', .5), ('attr', 0.5)]),
    'C17': prof(solo=0.3, ops=[('setn', 3), ('act', 1), ('blk', 1), ('init', 1), ('trans', 1), ('max', 1), ('copy', .3), ('attr', 1)]),
}


# ---------------------------------------------------------------- generators
def gen_dist(r, mean, lattice, kind):
    """kind 'arr' or 'svc'."""
    if lattice:
        step = r.pick([0.25, 0.5, 1.0, 1])
        hi = max(1, int(round(2 * mean / step)) - 0)
        lo = 0 if kind == 'svc' and r.chance(0.25) else 1
        base = ['lat', step, lo, max(hi, lo)] if r.chance(0.7) else ['det', max(step, round(mean / step) * step)]
    else:
        base = r.weighted([(['exp', mean], 6), (['uni', 0.2 * mean, 1.8 * mean], 3), (['det', mean], 1)])
    if kind == 'arr' and r.chance(0.2):
        base = ['burst', r.pick([0.2, 0.5]), base]
    if kind == 'arr' and r.chance(0.04):
        base = ['stall', r.pick([0.02, 0.2]), INF, base]
    if kind == 'svc' and r.chance(0.15):
        base = ['stall', r.pick([0.02, 0.1]), r.weighted([(20.0, 4), (200.0, 4), (INF, 1)]), base]
    return base


# The ways in which queues can be selected: indices, edges, types.
SELECT = [None, None, None, 'int', 'tuple', 'array', 'set', 'edge', 'edges', 'etuple', 'npedges', 'type', 'types', 'typeset', 'typearr']


def gen_q(r, pf, lattice, cls=None):
    cls = cls or r.weighted(pf['classes'])
    ns = r.weighted([(1, 5), (2, 4), (3, 2), (r.rng(4, 7), 1), (None, 0.5)])
    if cls == 'RES':
        ns = r.rng(1, 4)
    ma = r.pick([0.5, 1.0, 2.0])
    lo, hi = pf['load']
    rho = lo + (hi - lo) * r.u()
    ms = rho * ma * (ns or 3)
    c = dict(cls=cls, ns=ns, arr=gen_dist(r, ma, lattice, 'arr'), svc=gen_dist(r, ms, lattice, 'svc'))
    c['ag'] = [r.weighted(pf['agents'])]
    if r.chance(0.25):
        c['ag'] = sorted(set(c['ag'] + [r.weighted(pf['agents'])]))
    if cls == 'RES':
        c['ag'] = ['R'] if r.chance(0.75) else sorted(set(['R'] + c['ag']))
        if r.chance(0.12):
            c['ag'] = ['H'] if r.chance(0.3) else c['ag'] + ['H']
        # room for plain agents is that of a LossQueue
    if cls == 'INFO':
        c['ag'] = ['I']     # its factory is called with two arguments
        c['buf'] = None if r.chance(0.5) else r.rng(0, 3)
    elif 'I' in c['ag'] and not r.chance(0.5):
        c['ag'] = [a for a in c['ag'] if a != 'I'] or ['A']
    if cls == 'LOSS' or cls == 'RES':
        c['buf'] = r.weighted([(0, 4), (1, 3), (2, 2), (r.rng(3, 6), 1), (None, .3)]) if r.chance(pf['small_buf']) else r.rng(2, 8)
        if cls == 'RES' and c['buf'] is None:
            c['buf'] = 1
    if r.chance(pf['feat'] * 0.4):
        c['cap'] = r.weighted([(0, .5), (1, 2), (r.rng(2, 6), 3), (r.rng(7, 40), 3)])
    if r.chance(pf['feat'] * 0.3):
        c['deact'] = r.pick([1.0, 3.0, 8.0, 20.0, 50.0])
    if r.chance(pf['collect']):
        c['collect'] = True
        if pf.get('dup') and r.chance(0.15):
            c['dup'] = r.rng(1, 4)
    return c


def crowd(r, c):
    """Many servers, much room or a long queue."""
    k = r.below(3)
    if k == 0 and c['ns'] is not None and c['cls'] != 'RES':
        c['ns'] = r.rng(10, 120)
    elif k == 1 and c.get('buf') is not None:
        c['buf'] = r.rng(10, 100)
    elif c['cls'] == 'QS' and c['ns'] is not None:
        c['ns'] = r.rng(1, 2)
    c.pop('deact', None)
    if c.get('cap'):
        c['cap'] *= r.pick([5, 20])
    m = r.pick([0.05, 0.2, 1.0])
    c['arr'] = ['burst', r.pick([0.2, 0.7]), ['exp', m]] if r.chance(0.4) else ['exp', m]
    c['svc'] = ['exp', m * (c['ns'] or 20) * r.pick([0.9, 1.0, 1.3])] if r.chance(0.7) else ['det', m * (c['ns'] or 20)]


def flood(r, cfg):
    """One queue gets a thousand agents and more, which mostly wait."""
    qs = [cfg['solo']] if 'solo' in cfg else [cfg['q'][k] for k in sorted(cfg['q'])]
    c = r.pick([c for c in qs if c['cls'] == 'QS'] * (1 if r.chance(0.7) else 0) or qs)
    if c['cls'] in ('QS', 'INFO') and r.chance(0.8):
        c['ns'] = r.rng(1, 3)
    elif c['cls'] != 'RES':
        c['ns'] = r.pick([300, 1500, None, 2, 2])
    if c['cls'] != 'QS' and c.get('buf') is not None:
        c['buf'] = 1500 if r.chance(0.5) else r.rng(0, 30)
    for k in ('deact', 'cap'):
        c.pop(k, None)
    cfg.pop('max', None)
    c['arr'] = ['exp', 0.01] if r.chance(0.7) else ['burst', 0.9, ['exp', 0.05]]
    c['svc'] = ['exp', r.pick([0.1, 10.0])]
    if 'solo' in cfg:
        return 0
    return [i for i, e in enumerate(cfg['edges']) if cfg['q'].get(str(e[2])) is c][0]


def wide(r, cfg):
    """Agents wait on very many edges that leave one vertex."""
    for e in cfg['edges']:
        c = cfg['q'].get(str(e[2]))
        if c is None:
            continue
        c.pop('deact', None)
        if e[0] == 0:
            c['svc'] = ['exp', r.pick([50.0, 500.0])]
            if c['cls'] == 'QS':
                c['ns'] = 1
            c['arr'] = ['exp', r.pick([1.0, 10.0])]
        else:
            c['svc'] = ['exp', 0.1]
            if c['cls'] in ('QS', 'LOSS'):
                c['ag'] = ['G']
                c['ns'] = 3
            c['arr'] = ['exp', 1.0]
    cfg.pop('max', None)


def gen_graph(r, big=False):
    """(V, edges without types)."""
    if big:
        V = r.rng(12, 40) if r.chance(0.75) else r.rng(41, 110)
    else:
        V = r.weighted([(1, 1), (2, 3), (3, 4), (4, 3), (5, 2), (7, 1)])
    edges = []
    shape = r.weighted([('rand', 6), ('line', 2), ('ring', 2), ('star', 1 if V < 41 else 20), ('merge', 1)])
    if V == 1:
        edges = [(0, 0)]
    elif shape == 'line':
        edges = [(i, i + 1) for i in range(V - 1)]
    elif shape == 'ring':
        edges = [(i, (i + 1) % V) for i in range(V)]
    elif shape == 'star':
        edges = [(0, i) for i in range(1, V)] + [(i, 0) for i in range(1, V)]
    elif shape == 'merge':
        edges = [(i, V - 1) for i in range(V - 1)]
    else:
        for u in range(V):
            for v in r.sample(range(V), min(V, r.rng(1, 3))):
                edges.append((u, v))
    # extras: loops and exits
    for u in range(V):
        if r.chance(0.15) and (u, u) not in edges:
            edges.append((u, u))
    return V, sorted(set(edges))


def gen_cfg(r, pf):
    lattice = r.chance(pf['lattice'])
    big = r.chance(pf['big'])
    V, es = gen_graph(r, big)
    edges, q = [], {}
    t = 0
    exits = r.chance(0.75 if V < 41 else 0.2)
    for u, v in es:
        if exits and r.chance(0.15) and len(es) > 1:
            edges.append([u, v, 0])
            continue
        t += 1
        edges.append([u, v, t])
        q[str(t)] = gen_q(r, pf, lattice)
    if not q:
        edges = [[0, 0, 1]]
        V = 1
        q['1'] = gen_q(r, pf, lattice)
    cfg = dict(V=V, edges=edges, q=q, blocking=r.weighted([('BAS', 6), ('RS', 4), ('rs', .3)]), seed=r.u64() >> 1,
               step=r.weighted([('raw', 7), ('api', 2), ('slow', 1)]), ux=r.pick([0, 0, 0.02, 0.2]))
    if r.chance(pf['maxlim']):
        cfg['max'] = r.weighted([(r.rng(1, 4), 3), (r.rng(5, 15), 3), (r.rng(16, 60), 1)])
    if r.chance(0.5):
        cfg['trans'] = gen_trans(r, V)
    if r.chance(pf['collect'] * 0.6):
        cfg['collect0'] = True
    if r.chance(0.2):
        cfg['order'] = r.shuffle(list(range(V)))
    cfg['big'] = big
    return cfg


def gen_trans(r, V, part=False):
    tr = {}
    for v in range(V):
        if part and r.chance(0.5):
            continue
        tr[str(v)] = [r.pick([0, 0, 1, 1, 2, 3, 7, 0.1]) for _ in range(r.rng(1, 4))]
    return tr


def gen_op(r, pf, solo, cfg):
    k = r.weighted(pf['ops'])
    i = r.below(64)
    if k == 'setn':
        return ['setn', i, r.weighted([(1, 4), (2, 3), (3, 2), (r.rng(4, 9), 1), (None, .3)])]
    if k == 'badn':
        return ['badn', i, r.pick([0, -1, 1.5, 'x', 2.0, -7, None, [2], -2.5])]
    if k == 'col':
        return ['col', [r.below(64) for _ in range(r.rng(1, 3))] if r.chance(0.7) else None, r.chance(0.55), r.pick(SELECT)]
    if k == 'clrd':
        return ['clrd', [r.below(64) for _ in range(r.rng(1, 3))] if r.chance(0.7) else None, r.pick(SELECT)]
    if k == 'act':
        return ['act', i, r.chance(0.6)]
    if k == 'init':
        if r.chance(0.3):
            return ['initn', r.rng(1, 5)]
        return ['init', [r.below(64) for _ in range(r.rng(1, 4))], r.pick(SELECT)]
    if k == 'max':
        return ['max', r.weighted([(None, 1), (r.rng(1, 5), 3), (r.rng(6, 30), 3)])]
    if k == 'blk':
        return ['blk', r.pick(['BAS', 'RS', 'BAS', 'RS', 'bas', 'rs'])]
    if k == 'trans':
        return ['trans', gen_trans(r, cfg.get('V', 1), True), r.below(3)]
    if k == 'copy':
        return ['copy', r.chance(0.5)]
    if k == 'data':
        return ['data', [r.below(64) for _ in range(r.rng(1, 3))] if r.chance(0.5) else None, r.pick(SELECT)]
    if k == 'attr':
        w = r.pick(['buf', 'buf', 'svc', 'arr', 'cap', 'deact'])
        v = {'buf': lambda: r.weighted([(0, 2), (1, 2), (r.rng(2, 9), 2), (None, .3)]),
             'svc': lambda: gen_dist(r, r.pick([0.5, 1.0, 3.0]), r.chance(pf['lattice']), 'svc'),
             'arr': lambda: gen_dist(r, r.pick([0.5, 1.0, 3.0]), r.chance(pf['lattice']), 'arr'),
             'cap': lambda: r.weighted([(1, 2), (r.rng(2, 20), 2), (None, 1)]),
             'deact': lambda: r.pick([0.5, 2.0, 10.0, None])}[w]()
        return ['attr', i, w, v]
    if k == 'delay':
        return ['delay', i, None if r.chance(0.5) else r.pick([0.5, 1.0, 4.0])]
    return [k]


def gen(prop, r, tier):
    pf = PROFILES[prop]
    solo = r.chance(pf['solo'])
    if solo:
        lattice = r.chance(pf['lattice'])
        c = gen_q(r, pf, lattice)
        cfg = dict(solo=c, seed=r.u64() >> 1, ux=0)
    else:
        cfg = gen_cfg(r, pf)
    ops = []
    if r.chance(0.15):
        cfg['past'] = r.rng(1, 60)
    big = cfg.get('big')
    many = big and sum(1 for e in cfg['edges'] if e[0] == 0) >= 40 and r.chance(0.6)
    if many:
        wide(r, cfg)
    n = r.rng(3, 14) if not big else r.rng(2, 5)
    if not solo:
        ops.append(['initn', r.rng(1, 4) if not big else r.rng(8, 40)] if r.chance(0.5) else
                   ['init', [r.below(64) for _ in range(r.rng(1, 4) if not big else 30)]])
    else:
        ops.append(['act', 0, True])
    if many:
        ops[0] = ['initn', 220]
    quiet = r.chance(0.15)       # fault-free runs
    # few runs are long, with many servers or much room
    mass = 0 if big else r.weighted([(0, 965), (1, 20), (2, 10), (3, 5)])
    if mass and r.chance(0.3):
        cfg['past'] = r.rng(1, 60)
    if mass == 3:
        at = flood(r, cfg)
        if not solo:
            ops[0] = ['init', [at]]
        n = 1
    elif mass:
        for c in ([cfg['solo']] if solo else [cfg['q'][k] for k in sorted(cfg['q'])]):
            crowd(r, c)
        n = r.rng(1, 4)
    for _ in range(n):
        ops.append(['step', r.rng(1, 30) if r.chance(0.7) and not many else r.rng(30, 90 if not big else 400 if not many else 900)])
        if mass:
            ops[-1][1] += r.rng(100, 500) if mass == 1 else r.rng(400, 1200) if mass == 2 else r.rng(1100, 2500)
        if not quiet:
            for _ in range(r.weighted([(0, 1), (1, 4), (2, 2), (4, .5)])):
                ops.append(gen_op(r, pf, solo, cfg))
    ops.append(['step', r.rng(5, 40)])
    ops.append(['data', None])
    if prop == 'C17' or r.chance(0.1):
        ops.append(['drain'])
    return world.unit(r, dict(family='net', cfg=cfg, ops=ops), 0.08)


# ------------------------------------------------------------------ execution
class NetRun(object):
    def __init__(self, plan):
        cfg = self.cfg = plan['cfg']
        self.ops = plan['ops']
        self.w = World(cfg['seed'], cfg.get('ux', 0))
        R.cur = self.w
        np.random.seed(cfg['seed'] & 0x7fffffff)
        self.net = self.q = None
        try:
            if 'solo' in cfg:
                self.q = world.build_queue(cfg['solo'])
                self.past(self.q, [self.q])
                self.sh = Shadow(self.w, queue=self.q, qc=cfg['solo'])
            else:
                self.net = world.build_net(cfg)
                self.past(self.net, self.net.edge2queue)
                self.sh = Shadow(self.w, net=self.net, cfg=cfg)
                self.sh.probs = world.trans_dict(self.net, cfg['trans']) if cfg.get('trans') else {}
        finally:
            R.cur = None
        self.live = [m.idx for m in self.sh.m if m.cls != 'NULL']
        if not self.live:
            raise Taint('no queues')
        self.inited = False
        self.dirty = True     # queues were changed behind the network's back
        self.events = 0
        self.path = 'init'

    def past(self, x, qs):
        """The network or queue was used and cleared before the run."""
        k = self.cfg.get('past')
        if not k:
            return
        ns = [q.num_servers for q in qs]
        try:
            if x is qs[0]:
                x.set_active()
            else:
                x.initialize(k % 3 + 1)
            x.simulate(n=k)
        except boot.qt.QueueingToolError:
            pass
        x.clear()
        for q, n in zip(qs, ns):
            # resources that agents had are lost
            if q.num_servers != n:
                q.set_num_servers(n)
        if ns != [q.num_servers for q in qs]:
            raise Bad(['C13', 'C04'], 'servers', 'set_num_servers after clear(): %r, expected %r' % ([q.num_servers for q in qs], ns))
        for q in qs:
            if getattr(q, 'over_max', 0):
                q.over_max = 0
        self.w.log = []
        self.w.fire('used and cleared before')

    # the next event, through the requested entry point
    def ev(self):
        if self.net is None:
            return self.sh.do_event(self.q.next_event)
        net = self.net
        how = self.cfg.get('step', 'raw')
        if how == 'raw' and not self.dirty and hasattr(net, '_simulate_next_event'):
            f = lambda: net._simulate_next_event(slow=False)
        elif how == 'slow' and not self.dirty and hasattr(net, '_simulate_next_event'):
            f = lambda: net._simulate_next_event(slow=True)
        else:
            f = lambda: net.simulate(n=1)
        self.dirty = False
        return self.sh.do_event(f)

    def step(self, k):
        if self.net is not None and not self.inited:
            return
        for _ in range(k):
            self.events += 1
            if not self.ev():
                break

    def ix(self, i):
        return self.live[i % len(self.live)]

    def ixs(self, lst, live=False):
        n = len(self.sh.m)
        return sorted({i % n for i in lst}) if lst is not None else list(range(n))

    def run(self):
        for op in self.ops:
            self.path = op[0]
            # an anomaly also speaks against what was done last
            self.sh.after = AFTER.get(op[0], self.sh.after)
            if op[0] == 'attr':
                self.sh.after = AFTER_ATTR[op[2]]
            getattr(self, 'o_' + op[0])(*op[1:])

    def o_step(self, k):
        self.step(k)

    def o_setn(self, i, n):
        i = self.ix(i)
        if n is None and self.sh.m[i].cls == 'RES':
            n = 5
        self.sh.op_setn(i, world.number(n, i + 3 * (n or 0)))
        self.dirty = True

    def o_badn(self, i, n):
        self.sh.op_setn_invalid(self.ix(i), n, ValueError if isinstance(n, int) else TypeError)

    def o_act(self, i, on):
        i = self.ix(i)
        if on and self.net is not None:
            # in a network a source is switched on with initialize
            return self.o_init([self.live.index(i)])
        self.sh.op_active(i, on)
        self.dirty = True

    def o_attr(self, i, what, val):
        i = self.ix(i)
        m = self.sh.m[i]
        q = self.sh.qs[i]
        c = self.cfg['solo'] if self.net is None else self.cfg['q'][str(q.edge[3])]
        got = world.set_attr(q, 0 if self.net is None else q.edge[3], what, val, c.get('off', 0.0))
        if got is not None:
            self.w.fire('%s changed' % got[0])
            k = {'buffer': 'buf', 'active_cap': 'cap', 'deactive_t': 'deact'}.get(got[0])
            if k:
                setattr(m, k, got[1])
            else:
                m.fs[{'service_f': 'S', 'arrival_f': 'A'}[got[0]]] = val

    def o_init(self, qs, sel=None):
        if self.net is not None and self.sh.op_init(queues=qs, sel=sel) is not False:
            self.inited, self.dirty = True, False

    def o_initn(self, n):
        if self.net is not None and self.sh.op_init(n=n) is not False:
            self.inited, self.dirty = True, False

    def o_max(self, n):
        if self.net is None:
            return
        self.net.max_agents = np.infty if n is None else n
        if n is not None and n < self.sh.nagents():
            self.w.fire('max_agents below the present number')
        self.sh.max = INF if n is None else n
        self.w.fire('max_agents changed')

    def o_blk(self, mode):
        if self.net is None:
            return
        self.net.blocking = mode
        mode = mode.upper()
        if self.net.blocking != mode:
            raise Bad(['C06'], 'blocking', 'blocking is %r after setting %r' % (self.net.blocking, mode))
        self.sh.bas = mode == 'BAS'
        self.w.fire('blocking mode switched')

    def o_trans(self, tr, how=0):
        if self.net is None:
            return
        d = world.trans_dict(self.net, tr)
        if not d:
            return
        before = self.net.transitions(return_matrix=False)
        if how == 1:
            mat = np.array(self.net.transitions())
            for v, row in d.items():
                mat[v, :] = 0
                for x, p in row.items():
                    mat[v, x] = p
            self.net.set_transitions(mat)
        elif how == 2:
            # edges that are left out have probability zero, in any order
            self.net.set_transitions({v: {x: row[x] for x in sorted(row, reverse=True) if row[x] != 0} for v, row in sorted(d.items(), reverse=True)})
        else:
            self.net.set_transitions(d)
        after = self.net.transitions(return_matrix=False)
        for v, row in before.items():
            want = d.get(v, row)
            if {k: float(p) for k, p in after[v].items()} != {k: float(p) for k, p in want.items()}:
                raise Bad(['C09'], 'trans', 'transitions at vertex %r are %r, set were %r' % (v, after[v], want))
        mat = self.net.transitions()
        for v, row in after.items():
            for x in range(self.net.num_vertices):
                if mat[v, x] != row.get(x, 0):
                    raise Bad(['C09'], 'trans', 'transitions(): %r at (%r, %r), expected %r' % (mat[v, x], v, x, row.get(x, 0)))
        self.sh.probs.update(d)
        self.w.fire('transitions changed')
        if any(p == 0 for row in d.values() for p in row.values()):
            self.w.fire('route cut (probability zero)')

    def o_copy(self, swap):
        """A snapshot; with swap the original crashes and the run goes on with
        the restored snapshot."""
        w2 = self.w.fork()
        if self.net is not None:
            other = self.sh.call(self.net.copy)
            sh2 = self.sh.fork(other, None, w2)
        else:
            other = self.sh.call(self.q.copy)
            sh2 = self.sh.fork(None, other, w2)
        if self.w.log:
            raise Bad(['C12'], 'copy', 'copying called %r' % (self.w.log[:3],))
        old = (self.w, self.net, self.q, self.sh)
        if swap:
            w2.fired = self.w.fired
            w2.fire('crash and restore from snapshot')
            self.w, self.sh = w2, sh2
            self.net, self.q = (other, None) if self.net is not None else (None, other)
            self.dirty = False
        else:
            # the copy runs on a little and is dropped; nothing of it may show
            self.w.fire('snapshot simulated and dropped')
            keep = (self.w, self.net, self.q, self.sh, self.dirty)
            self.w, self.sh = w2, sh2
            self.net, self.q = (other, None) if self.net is not None else (None, other)
            self.dirty = False
            try:
                self.step(7)
            finally:
                self.w, self.net, self.q, self.sh, self.dirty = keep
        self.sh.compare(self.sh.m)

    def o_data(self, idxs=None, sel=None):
        if self.net is None or idxs is None:
            return self.sh.check_data(self.ixs(idxs), {})
        ids, kw = self.sh.select(self.ixs(idxs), sel)
        self.sh.check_data(ids, kw)

    def o_col(self, idxs, on, sel=None):
        ids = self.ixs(idxs)
        if self.net is None:
            self.q.collect_data = on
        else:
            kw = {}
            if idxs is not None:
                ids, kw = self.sh.select(ids, sel)
            (self.net.start_collecting_data if on else self.net.stop_collecting_data)(**kw)
        self.sh.collect(ids, on)

    def o_clrd(self, idxs, sel=None):
        ids = self.ixs(idxs)
        if self.net is None:
            self.q.data = {}
        else:
            kw = {}
            if idxs is not None:
                ids, kw = self.sh.select(ids, sel)
            self.net.clear_data(**kw)
        self.sh.cleardata(ids)

    def o_delay(self, i, t):
        self.sh.op_delay(self.ix(i), t)
        self.dirty = True

    def o_drain(self):
        """Faults stop, the sources end: everybody has to leave."""
        if self.net is not None and not self.inited:
            return
        sh = self.sh
        if not self.can_drain() or 'service without end' in self.w.fired:
            return
        for i in self.live:
            sh.op_active(i, False)
            m = sh.m[i]
            if m.cls == 'RES':
                self.dirty = True
                sh.op_setn(i, max(m.ns, 1) + 3 + sh.nagents())
            elif m.ns < 2:
                sh.op_setn(i, 2)
                self.dirty = True
        if self.net is not None:
            self.dirty = True
        budget = 400 + 60 * sh.nagents() * (1 + len(self.live))
        n = 0
        while sh.nagents() and n < budget:
            n += 1
            if not self.ev():
                break
        if sh.nagents() and 'service without end' not in self.w.fired:
            raise Bad(['C17', 'C06'], 'drain', '%d agents are still there %d events after the last arrival was scheduled' % (sh.nagents(), n))
        # one more call does nothing
        self.ev()
        sh.probe('drained')
        self.events += n

    def can_drain(self):
        """Is the network acyclic apart from its exits (then no deadlock)?"""
        if self.net is None:
            return True
        sh = self.sh
        if any(m.cls == 'RES' for m in sh.m):
            return False
        out = {}
        for m in sh.m:
            if m.cls != 'NULL':
                u, v = self.net.edge2queue[m.idx].edge[:2]
                out.setdefault(u, set()).add(v)
        state = {}

        def dfs(v):
            state[v] = 1
            for x in out.get(v, ()):
                if state.get(x) == 1 or (x not in state and not dfs(x)):
                    return False
            state[v] = 2
            return True
        for v in list(out):
            if v not in state and not dfs(v):
                return False
        # everybody has to be able to leave
        for v in range(self.net.num_vertices):
            if v in {b for s in out.values() for b in s} and v not in out:
                pass
        return True


def run(plan):
    """-> dict(bad=Bad or None, stats)."""
    x = None
    bad = None
    st = dict(events=0, simt=0.0, fired={}, probes={}, trace=0, taint=None)
    try:
        x = NetRun(plan)
        x.run()
    except Bad as e:
        bad = e
    except Taint as e:
        st['taint'] = str(e)
    finally:
        R.cur = None
    if x is not None:
        st.update(events=x.events, simt=float(x.sh.maxt) if x.sh.maxt < INF else 0.0, fired=dict(x.w.fired), probes=dict(x.sh.probes), trace=x.sh.trace, states=x.sh.states)
    return bad, st

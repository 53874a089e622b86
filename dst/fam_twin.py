"""Family 'twin': two executions of the same system compared step by step.

A control runs the operations of a plan and its observable history is
recorded.  The system under test runs the same operations with the same draws,
but is perturbed in between in ways that must not show: copies are taken and
abused, it crashes (also inside an event) and is restored from a copy, it is
looked at and drawn on a failing disk, runs are cut into pieces, or it has a
past that clear() has to erase.
"""
import io
import random as pyrandom

import numpy as np

from dst import boot, world, fam_net
from dst.seam import R, World, Rand, SimCrash, Overrun, H
from dst.shadow import Bad, Taint, INF

PROF = fam_net.prof(
    solo=0.25, classes=[('QS', 4), ('LOSS', 4), ('INFO', 1.5), ('RES', 2)],
    agents=[('A', 6), ('G', 2), ('C', 1), ('I', 1), ('R', 2)], big=0.01, load=(0.7, 2.0), collect=0.6)

OPS = [('setn', 2), ('act', 2), ('init', 2), ('max', 1), ('blk', 1), ('trans', 1.5), ('delay', 1), ('col', 1), ('clrd', .7), ('attr', 1)]


# -------------------------------------------------------------------- systems
class Sys(object):
    """One real system with its world."""

    def __init__(self, cfg, w=None):
        self.cfg = cfg
        self.w = w or World(cfg['seed'], cfg.get('ux', 0))
        self.net = self.q = None
        R.cur = self.w
        np.random.seed(cfg['seed'] & 0x7fffffff)
        try:
            if 'solo' in cfg:
                self.q = world.build_queue(cfg['solo'])
            else:
                self.net = world.build_net(cfg)
        finally:
            R.cur = None
        self.inited = False
        self.live = [k for k, q in enumerate(self.queues()) if not isinstance(q, boot.qt.NullQueue)]
        if not self.live:
            raise Taint('no queues')
        self.events = 0

    def queues(self):
        return self.net.edge2queue if self.net is not None else [self.q]

    def call(self, f, *a, **k):
        R.cur = self.w
        try:
            return f(*a, **k)
        finally:
            R.cur = None

    def copy(self):
        s = Sys.__new__(Sys)
        s.cfg, s.live, s.inited, s.events = self.cfg, self.live, self.inited, self.events
        s.w = self.w.fork()
        s.net = self.call(self.net.copy) if self.net is not None else None
        s.q = self.call(self.q.copy) if self.q is not None else None
        return s

    # -------------------------------------------------------------- operations
    def do(self, op):
        return getattr(self, 'o_' + op[0])(*op[1:])

    def ix(self, i):
        return self.live[i % len(self.live)]

    def ids(self, lst):
        n = len(self.queues())
        return None if lst is None else sorted({i % n for i in lst})

    def now(self):
        return self.net.current_time if self.net is not None else self.q.current_time

    def nev(self):
        if self.net is not None:
            return self.net.num_events
        return self.q.num_departures + self.q.num_arrivals[0]

    def o_sim(self, n):
        if self.net is None:
            self.call(self.q.simulate, n=n)
        elif self.inited:
            self.call(self.net.simulate, n=n)

    def o_simt(self, t):
        if self.net is None:
            self.call(self.q.simulate, t=t)
        elif self.inited:
            self.call(self.net.simulate, t=t)

    def o_simq(self, n, kind):
        if self.net is None:
            self.call(self.q.simulate, **{kind: n})
        else:
            self.o_sim(n)

    def o_setn(self, i, n):
        q = self.queues()[self.ix(i)]
        if n is None and isinstance(q, boot.qt.ResourceQueue):
            n = 5
        self.call(q.set_num_servers, world.number(n, i + 3 * (n or 0)))

    attrs = ()

    def o_attr(self, i, what, val):
        i = self.ix(i)
        q = self.queues()[i]
        c = self.cfg['solo'] if self.net is None else self.cfg['q'][str(q.edge[3])]
        got = world.set_attr(q, 0 if self.net is None else q.edge[3], what, val, c.get('off', 0.0))
        if got is not None:
            self.w.fire('%s changed' % got[0])
            self.attrs += ((i,) + got,)

    def o_act(self, i, on):
        q = self.queues()[self.ix(i)]
        if on:
            if self.net is not None:
                return self.o_init([self.live.index(self.ix(i))])
            self.call(q.set_active)
        else:
            self.call(q.set_inactive)

    def o_init(self, qs, sel=None):
        if self.net is None or self.now() == INF:
            return
        out = []
        for i in qs:
            i = self.ix(i)
            if i not in out:
                out.append(i)
        self.call(self.net.initialize, **world.select(self.net.edge2queue, out, None if sel == 'set' else sel, 'edges')[1])
        self.inited = True

    def o_initn(self, n):
        if self.net is None or self.now() == INF:
            return
        self.call(self.net.initialize, nActive=n)
        self.inited = True

    def o_max(self, n):
        if self.net is not None:
            self.net.max_agents = np.infty if n is None else n

    def o_blk(self, mode):
        if self.net is not None:
            self.net.blocking = mode

    def o_trans(self, tr, how=0):
        if self.net is None:
            return
        d = world.trans_dict(self.net, tr)
        if d:
            self.net.set_transitions(d)

    def o_delay(self, i, t):
        q = self.queues()[self.ix(i)]
        if q.next_event_description() == 2 and q.time < INF:
            self.call(q.delay_service, None if t is None else q.time + t)

    def o_col(self, idxs, on, sel=None):
        if self.net is None:
            self.q.collect_data = on
        else:
            kw = world.select(self.net.edge2queue, self.ids(idxs), sel)[1]
            (self.net.start_collecting_data if on else self.net.stop_collecting_data)(**kw)

    def o_clrd(self, idxs, sel=None):
        if self.net is None:
            self.q.data = {}
        else:
            self.net.clear_data(**world.select(self.net.edge2queue, self.ids(idxs), sel)[1])

    def o_clear(self):
        (self.net if self.net is not None else self.q).clear()
        self.inited = False

    # ---------------------------------------------------------- observable state
    def canon(self, data=True, agents=False):
        out = []
        net = self.net
        if net is not None:
            out.append(('current_time', float(net.current_time)))
            out.append(('num_events', int(net.num_events)))
            out.append(('time', float(net.time)))
            out.append(('next_event_description', net.next_event_description()))
            out.append(('num_agents', [int(x) for x in net.num_agents]))
            out.append(('blocking', net.blocking))
            out.append(('max_agents', float(net.max_agents)))
            out.append(('transitions', net.transitions().tolist()))
        for k, q in enumerate(self.queues()):
            e = 'edge %d ' % k
            out.append((e + 'time', float(q.time)))
            out.append((e + 'current_time', float(q.current_time)))
            out.append((e + 'counts', (q.num_system, q.number_queued(), list(q.num_arrivals), q.num_departures)))
            out.append((e + 'active', bool(q.active)))
            out.append((e + 'num_servers', float(q.num_servers)))
            out.append((e + 'next', q.next_event_description()))
            out.append((e + 'collect_data', bool(q.collect_data)))
            if hasattr(q, 'num_blocked'):
                out.append((e + 'num_blocked', (q.num_blocked, bool(q.at_capacity()))))
            if hasattr(q, 'over_max'):
                out.append((e + 'resources', (q.over_max, float(q.max_servers))))
            if hasattr(q, 'net_data'):
                out.append((e + 'net_data', q.net_data.tolist()))
            if data:
                out.append((e + 'fetch_data', sorted(map(tuple, q.fetch_data().tolist()))))
        if data and agents and net is not None:
            d = net.get_agent_data()
            out.append(('get_agent_data', sorted((str(k), np.asarray(v).tolist()) for k, v in d.items())))
        return out

    def take_log(self):
        log = self.w.log
        self.w.log = []
        return [clean(e) for e in log]


def settings(x):
    """What a simulation is made of, apart from its state."""
    out = []
    if x.net is not None:
        net = x.net
        out += [('max_agents', net.max_agents), ('blocking', net.blocking), ('transitions', net.transitions().tolist()),
                ('num_vertices', net.num_vertices), ('out_edges', [list(v) for v in net.out_edges])]
    for k, q in enumerate(x.queues()):
        for a in ('num_servers', 'collect_data', 'active_cap', 'deactive_t', 'buffer', 'coloring_sensitivity', 'max_servers',
                  'arrival_f', 'service_f', 'AgentFactory', 'edge'):
            if hasattr(q, a):
                out.append(('%s of queue %d' % (a, k), getattr(q, a)))
    return out


def clean(e):
    k = e[0]
    if k == 'D' or k == 'N':
        return e[:4]
    if k == 'I':
        return e[:4] + tuple(x.tobytes() for x in e[4:8]) + (e[8],)
    return e


def differ(want, got):
    """First difference of two observable states, or None."""
    if want == got:
        return None
    for a, b in zip(want, got):
        if a != b:
            va, vb = a[1], b[1]
            if isinstance(va, list) and isinstance(vb, list):
                for i, (x, y) in enumerate(zip(va, vb)):
                    if x != y:
                        return '%s is %s, expected %s (entry %d)' % (b[0], short(y), short(x), i)
                return '%s has %d entries, expected %d' % (b[0], len(vb), len(va))
            return '%s is %s, expected %s' % (b[0], short(vb), short(va))
    return 'different length'


def logdiff(want, got):
    if want == got:
        return None
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            return 'call %d is %s, expected %s' % (i, short(b), short(a))
    n = min(len(want), len(got))
    return '%d calls, expected %d; first %s' % (len(got), len(want), short((got[n:] or want[n:])[0]))


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + '...'


# -------------------------------------------------------------------- generator
def gen_ops(r, solo, cfg, n, ops=OPS, sim=None):
    out = []
    if solo:
        out.append(['act', 0, True])
    else:
        out.append(['initn', r.rng(1, 4)] if r.chance(0.5) else ['init', [r.below(64) for _ in range(r.rng(1, 4))]])
    pf = dict(PROF, ops=ops)
    for _ in range(n):
        x = r.u()
        k = r.rng(1, 20) if r.chance(0.8) else r.rng(20, 80)
        if x < 0.65:
            out.append(['sim', k])
        elif x < 0.85:
            out.append(['simt', r.pick([0.25, 0.5, 1.0, 2.5, 5.0])])
        else:
            out.append(['simq', r.rng(1, 8), r.pick(['nA', 'nD'])])
        for _ in range(r.weighted([(0, 3), (1, 4), (2, 1)])):
            out.append(fam_net.gen_op(r, pf, solo, cfg))
    out.append(['sim', r.rng(5, 30)])
    return out


def gen_base(prop, r):
    pf = PROF
    solo = r.chance(pf['solo'])
    if solo:
        cfg = dict(solo=fam_net.gen_q(r, pf, r.chance(0.5)), seed=r.u64() >> 1, ux=0)
    else:
        cfg = fam_net.gen_cfg(r, pf)
    return solo, cfg


def gen(prop, r, tier):
    plan = gen0(prop, r)
    if r.chance(0.02):
        at = fam_net.flood(r, plan['cfg'])
        for ops in (plan.get('pre') or []), plan['ops']:
            sims = [o for o in ops if o[0] == 'sim']
            if sims:
                r.pick(sims)[1] += r.rng(150, 1400)
                if ops[0][0] in ('init', 'initn'):
                    ops[0] = ['init', [at]]
    plan = world.unit(r, plan, 0.06)
    if prop == 'C12' and r.chance(0.3):
        # user functions with a state of their own, which queues can share
        cfg = plan['cfg']
        own = r.pick([1, 3, 5, 7])
        for c in [cfg['solo']] if 'solo' in cfg else cfg['q'].values():
            c['own'] = own
    return plan


def gen0(prop, r):
    solo, cfg = gen_base(prop, r)
    if prop == 'C17':
        # the same operations through one call and event by event
        ops = [['initn', r.rng(1, 4)] if not solo else ['act', 0, True]]
        for _ in range(r.rng(4, 14)):
            x = r.u()
            if x < 0.4:
                ops.append(['sim', r.weighted([(0, 1), (1, 2), (r.rng(2, 12), 5), (r.rng(13, 60), 3)])])
            elif x < 0.7 or not solo:
                ops.append(['simt', r.pick([0.0, 0.25, 0.5, 1.0, 2.5, 5.0, 20.0, r.u() * 3])])
            else:
                ops.append(['simq', r.rng(1, 12) if r.chance(0.9) else 0, r.pick(['nA', 'nD'])])
            if r.chance(0.4):
                ops.append(fam_net.gen_op(r, dict(pf_ops(), ops=[('setn', 2), ('act', 3), ('init', 1), ('max', 1), ('blk', 1)]), solo, cfg))
        if r.chance(0.6):
            # the streams end, then calls go on beyond the last event
            ops += [['act', i, False] for i in range(8)]
            ops += [['sim', r.rng(1, 30)], ['simt', 5.0], ['sim', 400], ['simt', 3.0], ['simq', 3, 'nD'], ['sim', 2]]
        return dict(cfg=cfg, ops=ops, mode='steps', pert=[])
    n = r.rng(3, 9)
    if prop == 'C13':
        ops = gen_ops(r, solo, cfg, n, ops=[o for o in OPS if o[0] not in ('max', 'blk', 'trans')] + [('trans', .5)])
        pre = gen_ops(r, solo, cfg, r.rng(1, 5))
        crash = r.rng(1, 120) if r.chance(0.5) else 0
        return dict(cfg=cfg, ops=ops, mode='clear', pre=pre, crash=crash, pert=[], twice=r.chance(0.2))
    ops = gen_ops(r, solo, cfg, n)
    pert = []
    m = r.rng(1, 5)
    if prop == 'C23':
        if r.chance(0.3):
            ops.insert(r.below(len(ops)), ['clear'])
        for _ in range(r.rng(2, 8)):
            pert.append([r.weighted([(0, 1), (r.below(len(ops)), 5)]), 'refuse', [r.pick(REFUSE), r.u64() >> 24]])
        pert.sort(key=lambda p: p[0])
        return dict(cfg=cfg, ops=ops, mode='refuse', pert=pert)
    if prop == 'C12':
        kinds = [('snap', 4), ('abuse', 4), ('swap', 3), ('crash', 3), ('crashin', 3)]
    else:
        kinds = [('look', 6), ('chunk', 6), ('draw', 1.5), ('anim', 1.2), ('snap', 1), ('coll', 1.5)]
    for _ in range(m):
        k = r.weighted(kinds)
        pos = r.below(len(ops))
        if k == 'look':
            arg = [r.below(12) for _ in range(r.rng(1, 6))]
        elif k == 'chunk':
            sims = [i for i, o in enumerate(ops) if o[0] in ('sim', 'simt', 'simq')]
            pos = r.pick(sims)
            arg = [r.rng(1, 9) for _ in range(r.rng(1, 4))]
        elif k == 'anim':
            sims = [i for i, o in enumerate(ops) if o[0] == 'sim' and o[1] >= 8]
            if not sims or solo:
                continue
            pos = r.pick(sims)
            arg = r.rng(1, 4)
            if r.chance(0.35):
                # a long one
                arg = min(ops[pos][1] - 4, r.rng(4, 30))
        elif k == 'draw':
            arg = [r.below(3), r.pick([0, 0, 1, 40, 400, 5000])]
        elif k == 'coll':
            arg = r.chance(0.5)
        elif k == 'crashin':
            pos = r.below(len(ops))
            arg = r.rng(1, 60)
        else:
            arg = H(r.u64()) & 0xffffffff
        pert.append([pos, k, arg])
    if prop == 'C12' and not any(p[1] in ('swap', 'abuse') for p in pert):
        pert.append([r.below(len(ops)), 'swap', r.below(1 << 30)])
    pert.sort(key=lambda p: p[0])
    return dict(cfg=cfg, ops=ops, mode='copy' if prop == 'C12' else 'look', pert=pert)


def pf_ops():
    return dict(PROF)


# ------------------------------------------------------------------- abuse
def abuse(s, key, w, deep=False):
    """Does all sorts of things to a system that is not needed any more.
    deep: its colors are its own (those of an original can be the defaults of
    a class), and change in place."""
    r = Rand(key, 9)
    w.fire('copy abused')
    for _ in range(r.rng(1, 5)):
        k = r.below(11)
        if k <= 2:
            s.do(['sim', r.rng(1, 25)])
        elif k == 3:
            s.do(['setn', r.below(64), r.rng(1, 5)])
        elif k == 4:
            s.do(['trans', fam_net.gen_trans(r, s.cfg.get('V', 1)), 0])
        elif k == 5:
            s.do(['col', None, r.chance(0.5)])
        elif k == 6:
            s.do(['clrd', None])
        elif k == 7:
            s.do(['blk', r.pick(['BAS', 'RS'])])
            s.do(['max', r.rng(1, 9)])
        elif k == 8:
            s.do(['init', [r.below(64) for _ in range(3)]])
            s.do(['act', r.below(64), r.chance(0.5)])
        elif k == 9:
            if s.net is not None:
                recolor(s.net, deep)
            elif deep:
                repaint(s.q.colors)
            else:
                s.q.colors = dict(s.q.colors, edge_color=[0, 0, 0, 1])
        else:
            s.do(['clear'])
    s.w.log = []


def repaint(colors):
    for k in colors:
        colors[k][0] = 0.125


def recolor(net, deep=False):
    if deep:
        repaint(net.colors)
        for q in net.edge2queue:
            repaint(q.colors)
    net.colors['vertex_inactive'] = [0.1, 0.2, 0.3, 1]
    for q in net.edge2queue:
        q.colors = dict(q.colors, edge_color=[0.5, 0.1, 0.1, 0.5])
        q.coloring_sensitivity = 7
        q.edge  # noqa
    for e in net.g.edges():
        net.g.set_ep(e, 'edge_color', [0, 0, 0, 0])
    net.g.set_pos({v: (0.0, float(v)) for v in net.g.nodes()})


def colors_of(s):
    """Colors and positions, which a copy must not share with the original."""
    if s.net is None:
        return [('colors', sorted(s.q.colors.items()))]
    g = s.net.g
    out = [('colors of the network', sorted((k, v) for k, v in s.net.colors.items())),
           ('positions', np.asarray(g.pos).tolist())]
    for q in s.net.edge2queue:
        out.append(('colors of edge %d' % q.edge[2], sorted(q.colors.items())))
        out.append(('sensitivity of edge %d' % q.edge[2], q.coloring_sensitivity))
    for e in sorted(g.edges()):
        out.append(('color of edge %r' % (e,), [float(x) for x in g.ep(e, 'edge_color')]))
        out.append(('type of edge %r' % (e,), g.ep(e, 'edge_type')))
    for v in sorted(g.nodes()):
        out.append(('fill color of vertex %r' % v, [float(x) for x in g.vp(v, 'vertex_fill_color')]))
    return out


# -------------------------------------------------------------------- observers
class FullDisk(io.RawIOBase):
    """A file on a disk that is full after some bytes."""

    def __init__(self, room, w):
        self.room, self.w = room, w
        self.n = 0

    def writable(self):
        return True

    def seekable(self):
        return False

    def write(self, b):
        n = len(b)
        self.n += n
        if self.room and self.n > self.room:
            self.w.fire('disk full while drawing')
            raise OSError(28, 'No space left on device')
        return n


def look(s, k):
    net = s.net
    qs = s.queues()
    if k == 0:
        for q in qs:
            q.fetch_data()
            q.fetch_data(return_header=True)
    elif k == 1:
        repr(net), [repr(q) for q in qs], str(net)
    elif k == 2:
        [(q.time, q.current_time, q.active, q.num_arrivals, q.number_queued(), q.at_capacity(), q.next_event_description()) for q in qs]
    elif k == 3 and net is not None:
        net.get_queue_data()
        net.get_queue_data(return_header=True)
        net.get_agent_data()
    elif k == 4 and net is not None:
        net.transitions()
        net.transitions(return_matrix=False)
    elif k == 5 and net is not None:
        net.next_event_description()
        (net.time, net.current_time, net.num_vertices, net.num_nodes, net.num_edges, net.blocking)
    elif k == 6:
        for q in qs:
            x = q.num_arrivals
            x[0] += 5
            x.append(3)
            d = q.fetch_data()
            d[:] = -1
    elif k == 7 and net is not None:
        t = net.transitions()
        t[:] = 0
        for row in net.transitions(return_matrix=False).values():
            for x in row:
                row[x] = 0.0
        for v in net.get_agent_data().values():
            v[:] = -7
        net.get_queue_data()[:] = -7
    elif k == 8:
        from copy import deepcopy
        for q in qs:
            q.copy()
    elif k == 9 and net is not None:
        net.copy()
    elif k == 10 and net is not None:
        net.g.lines_scatter_args()
        net.get_queue_data(queues=0)
        net.get_agent_data(edge_type=1)
    elif k == 11:
        for q in qs:
            q._current_color(0) if hasattr(q, '_current_color') else None
    s.w.fire('observer called')


def draw(s, how, room):
    net = s.net
    if net is None:
        return
    import matplotlib.pyplot as plt
    f = FullDisk(room, s.w)
    kw = dict(fname=f, format='png', figsize=(1, 1), dpi=20)
    try:
        if how == 0:
            s.call(net.draw, **kw)
        elif how == 1:
            s.call(net.show_active, **kw)
        else:
            s.call(net.show_type, 1, **kw)
        s.w.fire('drawn')
    except OSError:
        s.w.fire('drawing failed')
    finally:
        plt.close('all')


def make_writer():
    from matplotlib.animation import AbstractMovieWriter

    class Writer(AbstractMovieWriter):
        def __init__(self, fail_at=0):
            self.fail_at = fail_at
            self.frames = 0

        def setup(self, fig, outfile, dpi=None):
            pass

        def grab_frame(self, **kw):
            self.frames += 1
            if self.fail_at and self.frames >= self.fail_at:
                raise OSError(28, 'No space left on device')

        def finish(self):
            pass
    return Writer


def animate(s, frames, fail=0):
    import matplotlib.pyplot as plt
    W = make_writer()
    try:
        s.call(s.net.animate, frames=frames, filename='none', writer=W(fail), figsize=(1, 1))
    except OSError:
        s.w.fire('disk full while animating')
    finally:
        plt.close('all')
    s.w.fire('animated')


# ------------------------------------------------------------ refused calls
REFUSE = ['servers', 'servers', 'nactive', 'nactive', 'queues', 'early', 'early', 'blocking', 'trans', 'trans', 'unknown']


def refuse(s, kind, key):
    """-> (what, call, exceptions it has to end with) or None"""
    r = Rand(key, 6)
    net, qt = s.net, boot.qt
    QTE = qt.QueueingToolError
    if kind == 'servers':
        ks = [k for k, q in enumerate(s.queues()) if not isinstance(q, (qt.NullQueue, qt.ResourceQueue))]
        if not ks:
            return None
        k = r.pick(ks)
        n, exc = r.pick([(0, ValueError), (-2, ValueError), (1.5, TypeError), ('3', TypeError), (None, TypeError), ([2], TypeError), (np.float64(2), TypeError)])
        return 'set_num_servers(%r) of edge %d' % (n, k), lambda: s.queues()[k].set_num_servers(n), exc
    if net is None:
        return None
    if kind == 'nactive':
        n, exc = r.pick([(0, ValueError), (-1, ValueError), (1.5, TypeError), ('2', TypeError), (None, TypeError), (2.0, TypeError)])
        return 'initialize(nActive=%r)' % (n,), lambda: net.initialize(nActive=n), exc
    if kind == 'queues':
        null = [k for k, q in enumerate(net.edge2queue) if q.edge[3] == 0]
        kw = r.pick([dict(queues=[]), dict(edge_type=777), dict(edge_type=[]), dict(edge_type=0)] + ([dict(queues=null), dict(queues=null[0])] if null else []))
        return 'initialize(%r)' % kw, lambda: net.initialize(**kw), QTE
    if kind == 'early':
        if s.inited:
            return None
        f = r.pick([lambda: net.simulate(n=3), lambda: net.simulate(t=2.0), lambda: net.animate(frames=2, filename='none'), lambda: net.simulate()])
        return 'simulate or animate before initialize', f, QTE
    if kind == 'blocking':
        b = r.pick([1, None, True, ['RS']])
        return 'blocking = %r' % (b,), lambda: setattr(net, 'blocking', b), TypeError
    if kind == 'trans':
        from dst import fam_trans
        arg = fam_trans.evil(net, r.pick([k for k, _ in fam_trans.EVIL]), r.u64() >> 20)
        if arg is None:
            return None
        return 'set_transitions(%s)' % repr(arg)[:200], lambda: net.set_transitions(arg), (ValueError, TypeError)
    # an edge that is not there
    V = net.num_vertices
    e = (V + 2, V + 3)
    name, f = r.pick([('start_collecting_data', net.start_collecting_data), ('stop_collecting_data', net.stop_collecting_data),
                      ('clear_data', net.clear_data), ('get_queue_data', net.get_queue_data), ('get_agent_data', net.get_agent_data),
                      ('initialize', lambda edge: net.initialize(edges=edge))])
    if r.chance(0.4):
        ks = [r.below(net.num_edges), net.num_edges + r.below(3)]
        ks = r.pick([ks, tuple(ks), np.array(ks), ks[1], [ks[0], 'x']])
        name, f = r.pick([('start_collecting_data', net.start_collecting_data), ('stop_collecting_data', net.stop_collecting_data),
                          ('clear_data', net.clear_data), ('get_queue_data', net.get_queue_data), ('get_agent_data', net.get_agent_data),
                          ('initialize', net.initialize)])
        return '%s(queues=%r)' % (name, ks), lambda: f(queues=ks), (KeyError, IndexError, ValueError, TypeError, QTE)
    ok = tuple(net.edge2queue[r.below(net.num_edges)].edge[:2])
    edge = r.pick([e, [e], [ok, e], (ok, e)])
    return '%s(edge=%r)' % (name, edge), lambda: f(edge=edge), (KeyError, IndexError, ValueError, QTE)


def quiet_guard(s):
    st = np.random.get_state()
    return (R.draws, st[1].tobytes(), st[2], pyrandom.getstate(), s.w.ucount, s.w.calls, dict(s.w.counts), len(s.w.log))


# ------------------------------------------------------------------ execution
SORTS = {k: i for i, k in enumerate(['NullQueue', 'QueueServer', 'LossQueue', 'ResourceQueue', 'InfoQueue'])}


class Twin(object):
    def __init__(self, plan):
        self.plan = plan
        self.events = 0
        self.fired = {}
        self.probes = {}
        self.trace = 0
        self.states = set()
        self.simt = 0.0

    def probe(self, k):
        self.probes[k] = self.probes.get(k, 0) + 1

    def absorb(self, s):
        for k, v in s.w.fired.items():
            self.fired[k] = self.fired.get(k, 0) + v
        self.events += s.nev()
        t = s.now()
        if t < INF:
            self.simt += float(t)

    def note(self, log):
        h = self.trace
        for e in log:
            if e[0] in 'ASQ':
                h = hash((h, e[1], e[3] if e[0] != 'Q' else e[2:4]))
        self.trace = h

    def control(self, s, ops, data=True):
        """History of ops on s: [(log, state)] after each."""
        hist = []
        for op in ops:
            s.do(op)
            log = s.take_log()
            self.note(log)
            hist.append((log, s.canon(data=data)))
            self.seen(s)
        return hist

    def seen(self, s):
        for q in s.queues():
            n, w = q.num_system, q.number_queued()
            self.states.add((((((SORTS.setdefault(type(q).__name__, len(SORTS)) * 4 + q.next_event_description()) * 2 + bool(q.active)) * 2 + bool(q.collect_data)) * 8
                               + min(n - w, 7)) * 8 + min(w, 7)) * 8 + int(min(q.num_servers, 7)))

    def compare(self, prop, s, want, where, data=True, log=True):
        if log:
            got = s.take_log()
            d = logdiff(want[0], got)
            if d:
                raise Bad([prop], 'history', '%s: %s' % (where, d))
        else:
            s.take_log()
        d = differ(want[1], s.canon(data=data))
        if d:
            raise Bad([prop], 'state', '%s: %s' % (where, d))
        self.probe('states compared')

    def run(self):
        getattr(self, 'm_' + self.plan['mode'])()

    # ---- C12
    def m_copy(self):
        plan = self.plan
        ops, pert = plan['ops'], plan['pert']
        y = Sys(plan['cfg'])
        hist = self.control(y, ops)
        self.absorb(y)
        x = Sys(plan['cfg'])
        start = x.canon()
        snap = None
        used = set()
        j = 0
        guard = 0
        while j < len(ops):
            guard += 1
            if guard > 400:
                raise Taint('too many restores')
            crash_in = 0
            restored = False
            for n, (pos, kind, arg) in enumerate(pert):
                if pos != j or n in used:
                    continue
                if kind == 'crash' and snap is None:
                    continue
                used.add(n)
                if kind == 'snap':
                    before = x.canon()
                    snap = (j, self.copied(x, before))
                    x.w.fire('snapshot')
                elif kind == 'abuse':
                    before = x.canon(agents=True)
                    cb = colors_of(x)
                    g = quiet_guard(x)
                    c = self.copied(x, before)
                    if quiet_guard(x) != g:
                        raise Bad(['C12'], 'copyside', 'copying drew random numbers or called user functions')
                    abuse(c, arg, x.w, True)
                    d = differ(before, x.canon(agents=True)) or differ(cb, colors_of(x))
                    if d:
                        raise Bad(['C12'], 'shared', 'after using a copy of it (before operation %d) the original changed: %s' % (j, d))
                    self.probe('copy used, original unchanged')
                elif kind == 'swap':
                    before = x.canon(agents=True)
                    c = self.copied(x, before)
                    cb = colors_of(c)
                    fired = x.w.fired
                    abuse(x, arg, x.w)
                    d = differ(before, c.canon(agents=True)) or differ(cb, colors_of(c))
                    if d:
                        raise Bad(['C12'], 'shared', 'after using the original (before operation %d) its copy changed: %s' % (j, d))
                    x = c
                    x.w.fired = fired
                    x.w.fire('continued on a copy')
                elif kind == 'crash':
                    x, j = self.restore(x, snap)
                    snap = None
                    restored = True
                    break
                elif kind == 'crashin':
                    if snap is None:
                        snap = (j, self.copied(x, x.canon()))
                        x.w.fire('snapshot')
                    crash_in = arg
            if restored:
                continue
            if crash_in:
                x.w.crash_at = x.w.calls + crash_in
            try:
                x.do(ops[j])
            except SimCrash:
                x.take_log()
                x, j = self.restore(x, snap)
                self.probe('restored after a crash inside an event')
                snap = None
                continue
            x.w.crash_at = -1
            self.compare('C12', x, hist[j], 'operation %d %r after %s' % (j, ops[j], self.story(used)))
            j += 1
        self.absorb(x)

    def story(self, used):
        return [tuple(self.plan['pert'][n][:2]) for n in sorted(used)]

    def copied(self, x, before):
        c = x.copy()
        d = differ(before, c.canon(agents=before[-1][0] == 'get_agent_data'))
        if d:
            raise Bad(['C12'], 'copy', 'a copy differs from its original: %s' % d)
        return c

    def restore(self, x, snap):
        fired = x.w.fired
        k, c = snap
        c.w.fired = fired
        c.w.fire('crash and restore from a copy')
        return c, k

    # ---- C13
    def m_clear(self):
        plan = self.plan
        x = Sys(plan['cfg'])
        if plan['crash']:
            x.w.crash_at = plan['crash']
        try:
            for op in plan['pre']:
                x.do(op)
        except SimCrash:
            self.probe('clear after a crash inside an event')
        x.w.crash_at = -1
        x.w.log = []
        if plan.get('fail_draw') and x.net is not None:
            draw(x, 1, 40)
        fired = x.w.fired
        n0 = x.nev()
        if n0 > 0 and n0 < INF:
            self.probe('clear of a used system')
        keep = settings(x)
        x.do(['clear'])
        if plan.get('twice'):
            x.do(['clear'])
        for a, b in zip(keep, settings(x)):
            if a[1] is not b[1] and a[1] != b[1]:
                raise Bad(['C13'], 'settings', 'clear() changed %s from %s to %s' % (a[0], short(a[1]), short(b[1])))
        self.events += int(n0)
        # the same configuration, newly built
        y = Sys(plan['cfg'])
        self.adopt(x, y)
        x.w = World(plan['cfg']['seed'], plan['cfg'].get('ux', 0))
        x.w.fired = fired
        d = differ(y.canon(agents=True), x.canon(agents=True))
        if d:
            raise Bad(['C13'], 'state', 'right after clear(): %s' % d)
        if x.net is not None:
            try:
                x.call(x.net.simulate, n=1)
            except boot.qt.QueueingToolError:
                pass
            else:
                raise Bad(['C13'], 'uninit', 'simulate() on a cleared network raised nothing')
        w0 = y.w
        for j, op in enumerate(plan['ops']):
            y.do(op)
            log = y.take_log()
            self.note(log)
            want = (log, y.canon())
            x.do(op)
            self.compare('C13', x, want, 'operation %d %r after clear()' % (j, op))
        self.absorb(x)
        self.absorb(y)

    @staticmethod
    def adopt(x, y):
        for a, b in zip(x.queues(), y.queues()):
            if isinstance(a, boot.qt.NullQueue):
                pass
            elif a.num_servers != b.num_servers:
                if isinstance(a, boot.qt.ResourceQueue):
                    b.num_servers = a.num_servers
                else:
                    b.set_num_servers(a.num_servers)
            b.collect_data = a.collect_data
        for i, k, v in x.attrs:
            setattr(y.queues()[i], k, v)
        if x.net is not None:
            y.net.max_agents = x.net.max_agents
            y.net.blocking = x.net.blocking
            y.net.set_transitions(x.net.transitions(return_matrix=False))

    # ---- C23
    def m_refuse(self):
        plan = self.plan
        ops, pert = plan['ops'], plan['pert']
        y = Sys(plan['cfg'])
        hist = self.control(y, ops)
        self.absorb(y)
        x = Sys(plan['cfg'])
        for j, op in enumerate(ops):
            did = []
            for pos, _, arg in pert:
                if pos != j:
                    continue
                c = refuse(x, *arg)
                if c is None:
                    continue
                what, f, exc = c
                before = x.canon(agents=True)
                cb = colors_of(x)
                g = quiet_guard(x)
                try:
                    x.call(f)
                except exc:
                    pass
                except Exception as e:
                    raise Bad(['C23'], 'error', '%s before operation %d raised %r' % (what, j, e))
                else:
                    raise Bad(['C23'], 'accepted', '%s before operation %d raised nothing' % (what, j))
                if quiet_guard(x) != g:
                    raise Bad(['C23'], 'drew', '%s before operation %d raised, but drew random numbers or called user functions' % (what, j))
                d = differ(before, x.canon(agents=True)) or differ(cb, colors_of(x))
                if d:
                    raise Bad(['C23'], 'changed', '%s before operation %d raised, but changed something: %s' % (what, j, d))
                did.append(what)
                x.w.fire('refused: ' + arg[0])
            x.do(op)
            self.compare('C23', x, hist[j], 'operation %d %r after %s' % (j, op, did))
        self.absorb(x)

    # ---- C14
    def m_look(self):
        plan = self.plan
        ops, pert = plan['ops'], plan['pert']
        data = not any(p[1] == 'coll' for p in pert)
        y = Sys(plan['cfg'])
        hist = self.control(y, ops, data)
        self.absorb(y)
        x = Sys(plan['cfg'])
        for j, op in enumerate(ops):
            way = None
            did = []
            for pos, kind, arg in pert:
                if pos != j:
                    continue
                did.append(kind)
                if kind in ('chunk', 'anim'):
                    way = (kind, arg)
                    continue
                before = x.canon(data=data)
                g = quiet_guard(x)
                if kind == 'look':
                    for k in arg:
                        R.cur = x.w
                        try:
                            look(x, k)
                        finally:
                            R.cur = None
                elif kind == 'draw':
                    draw(x, *arg)
                elif kind == 'snap':
                    x.copy()
                elif kind == 'coll':
                    x.do(['col', None, arg])
                    if [b for b in before if 'collect_data' not in b[0]] != [b for b in x.canon(data=data) if 'collect_data' not in b[0]]:
                        raise Bad(['C14', 'C10'], 'looked', 'switching data collection changed something')
                    continue
                after = quiet_guard(x)
                if after != g:
                    what = ['random draws', 'numpy state', 'numpy state', 'random state', 'draws', 'calls of user functions', 'draws', 'calls of user functions']
                    i = [k for k in range(len(g)) if g[k] != after[k]][0]
                    raise Bad(['C14', 'C11'], 'drew', '%s %r before operation %d used %s' % (kind, arg, j, what[i]))
                d = differ(before, x.canon(data=data))
                if d:
                    raise Bad(['C14'], 'looked', '%s %r before operation %d changed something: %s' % (kind, arg, j, d))
            self.perform(x, op, way)
            want = hist[j]
            if not data:
                want = (want[0], [b for b in want[1] if 'collect_data' not in b[0]])
                got = x.take_log()
                d = logdiff(want[0], got) or differ(want[1], [b for b in x.canon(data=False) if 'collect_data' not in b[0]])
                if d:
                    raise Bad(['C14'], 'history', 'operation %d %r after %s: %s' % (j, op, did, d))
                self.probe('states compared')
            else:
                self.compare('C14', x, want, 'operation %d %r done in pieces %r, before it %s' % (j, op, way, did))
        self.absorb(x)

    def perform(self, x, op, way):
        if way is None or op[0] not in ('sim', 'simt', 'simq'):
            x.do(op)
            return
        kind, arg = way
        if op[0] == 'simq':
            if x.net is not None:
                op = ['sim', op[1]]
            else:
                return self.steps_q(x, op)
        if op[0] == 'sim':
            n = op[1]
            if kind == 'anim':
                if x.net is None or not x.inited or x.net.next_event_description()[0] == 'Nothing':
                    x.do(op)
                    return
                e0 = x.net.num_events
                animate(x, arg)
                did = x.net.num_events - e0
                if did > n:
                    raise Taint('animate did more events than planned')
                left = n - did
                x.do(['sim', left])
                self.probe('part of a run animated')
                return
            i = 0
            while n > 0:
                k = min(n, arg[i % len(arg)])
                i += 1
                x.do(['sim', k])
                n -= k
            self.probe('run in pieces')
        else:
            if kind == 'anim':
                x.do(op)
                return
            self.steps_t(x, op[1])
            self.probe('timed run in pieces')

    @staticmethod
    def next_exists(x):
        if x.net is not None:
            return x.net.next_event_description()[0] != 'Nothing'
        return x.q.time < INF

    def steps_t(self, x, t):
        """simulate(t=t) event by event, from its description."""
        if x.net is not None and not x.inited:
            return
        now = x.now()
        while x.now() < now + t:
            if x.net is None and not self.next_exists(x):
                break
            x.do(['sim', 1])

    def steps_q(self, x, op):
        n, kind = op[1], op[2]
        c = (lambda: x.q.num_arrivals[1]) if kind == 'nA' else (lambda: x.q.num_departures)
        c0 = c()
        while c() < c0 + n and self.next_exists(x):
            x.do(['sim', 1])

    # ---- C17
    def m_steps(self):
        plan = self.plan
        x = Sys(plan['cfg'])
        y = Sys(plan['cfg'])
        for j, op in enumerate(plan['ops']):
            e0, t0 = x.nev(), x.now()
            k0 = (x.q.num_arrivals[1], x.q.num_departures) if x.q is not None else None
            loss0 = getattr(x.q, 'num_blocked', 0) if x.q is not None else 0
            x.do(op)
            if op[0] == 'simq' and x.net is None:
                self.steps_q(y, op)
                self.probe('simulate(%s=)' % op[2])
                d = x.q.num_arrivals[1] - k0[0] if op[2] == 'nA' else x.q.num_departures - k0[1]
                if d != op[1] and x.q.time < INF:
                    raise Bad(['C17'], 'stop', 'simulate(%s=%d) ended after %d' % (op[2], op[1], d))
            elif op[0] == 'simt':
                self.steps_t(y, op[1])
                self.probe('simulate(t=)')
                if (x.net is None or x.inited) and x.now() < t0 + op[1] and self.next_exists(x):
                    raise Bad(['C17'], 'stop', 'simulate(t=%r) at %r ended at %r' % (op[1], t0, x.now()))
            elif op[0] in ('sim', 'simq'):
                for _ in range(op[1]):
                    y.do(['sim', 1])
                self.probe('simulate(n)')
                if x.net is not None and x.inited:
                    d = x.nev() - e0
                    if d != op[1] and (d > op[1] or self.next_exists(x)):
                        raise Bad(['C17'], 'stop', 'simulate(%d) performed %d events' % (op[1], d))
            else:
                y.do(op)
            log = y.take_log()
            self.note(log)
            got = x.take_log()
            d = logdiff(log, got)
            if d:
                raise Bad(['C17', 'C14'], 'stop', 'operation %d %r against event by event: %s' % (j, op, d))
            d = differ(y.canon(), x.canon())
            if d:
                raise Bad(['C17', 'C14'], 'stop', 'operation %d %r against event by event: %s' % (j, op, d))
            if not self.next_exists(x) and (x.net is None or x.inited):
                self.probe('nothing left')
                before = x.canon()
                x.do(['sim', 3])
                after = x.canon()
                skip = ('current_time',)
                d = differ([b for b in before if b[0] not in skip], [b for b in after if b[0] not in skip])
                if d or x.take_log():
                    raise Bad(['C17'], 'stop', 'simulate(3) when nothing is left: %s' % d)
                y.do(['sim', 3])
        self.absorb(x)
        self.absorb(y)


def run(plan):
    bad = None
    t = Twin(plan)
    st = dict(events=0, simt=0.0, fired={}, probes={}, trace=0, taint=None)
    try:
        t.run()
    except Bad as e:
        bad = e
    except Taint as e:
        st['taint'] = str(e)
    except Overrun:
        st['taint'] = 'too many steps'
    finally:
        R.cur = None
    st.update(events=t.events, simt=t.simt, fired=t.fired, probes=t.probes, trace=t.trace, states=t.states)
    return bad, st

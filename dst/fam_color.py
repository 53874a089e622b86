"""Family 'color': what draw, animate, show_active and show_type put on the
canvas, at every frame, against colors computed from the public state of the
queues; drawings fail with a full disk at arbitrary points."""
import matplotlib
import numpy as np

from dst import boot, world, fam_net, fam_twin
from dst.seam import R, World, Rand, SimCrash, Overrun, H
from dst.shadow import Bad, Taint, INF

PROF = fam_net.prof(
    solo=0, classes=[('QS', 4), ('LOSS', 4), ('INFO', 1), ('RES', 2)], lattice=0.4,
    agents=[('A', 6), ('G', 2), ('R', 2)], big=0.04, load=(0.7, 2.5), collect=0.1)
OPS = [('setn', 3), ('act', 2), ('init', 1), ('max', 1), ('blk', .5), ('trans', 1), ('delay', .5)]


def rcol(r, a=True):
    return [r.pick([0.0, 0.2, 0.35, 0.5, 0.9, 1.0]) for _ in range(3)] + [r.pick([0.25, 0.5, 1.0]) if a else 1.0]


def gen(prop, r, tier):
    pf = PROF
    cfg = fam_net.gen_cfg(r, pf)
    # some edges share a type
    if r.chance(0.6):
        ts = sorted(cfg['q'], key=int)
        for e in cfg['edges']:
            if e[2] and r.chance(0.5):
                e[2] = int(r.pick(ts[:3]))
    # loops, also terminal ones
    for v in range(cfg['V']):
        if r.chance(0.25) and not any(e[0] == e[1] == v for e in cfg['edges']):
            cfg['edges'].append([v, v, 0 if r.chance(0.5) else cfg['edges'][0][2]])
    for c in cfg['q'].values():
        if r.chance(0.4):
            c['sens'] = r.pick([0.25, 1, 3, 0.5, 10])
        if r.chance(0.4):
            c['cols'] = {k: rcol(r) for k in ('edge_color', 'vertex_fill_color', 'vertex_color', 'edge_loop_color') + (('vertex_pen_color',) if c['cls'] == 'RES' else ()) if r.chance(0.6)}
    if r.chance(0.5):
        cfg['pos'] = [[round(10 * r.u(), 3), round(10 * r.u(), 3)] for _ in range(cfg['V'])]
    if r.chance(0.3):
        cfg['order'] = r.shuffle(list(range(cfg['V'])))
    cfg['ncols'] = {k: rcol(r) for k in ('vertex_fill_color', 'vertex_color', 'vertex_inactive', 'vertex_active', 'vertex_highlight',
                                         'edge_active', 'edge_inactive', 'bgcolor') if r.chance(0.25)}
    cfg['ncolc'] = r.chance(0.5)
    base = fam_twin.gen_ops(r, False, cfg, r.rng(2, 6), ops=OPS)
    ops = []
    for o in base:
        ops.append(o)
        x = r.u()
        if x < 0.5:
            fail = r.chance(0.12)
            k = r.weighted([('draw', 4), ('active', 2), ('type', 2), ('anim', 5), ('args', 1), ('reset', .4), ('copy', .7), ('clear', .25)])
            if k == 'type':
                ops.append(['type', r.below(64), fail])
            elif k == 'anim':
                ops.append(['anim', r.rng(1, 14), r.rng(1, 8) if fail else 0, r.chance(0.2)])
            elif k in ('draw', 'active'):
                ops.append([k, fail, r.below(8)])
            else:
                ops.append([k])
                if k == 'clear':
                    ops.append(['initn', r.rng(1, 4)])
    return dict(cfg=cfg, ops=ops)


def load(color, tmp, alpha):
    c = [float(x) * tmp for x in color]
    c[3] = alpha
    return c


def n_in(q):
    return q.num_system


def queue_shade(q, base):
    """The documented shade: darker with more agents per server (of a
    ResourceQueue: with more resources)."""
    loop = q.edge[0] == q.edge[1]
    if isinstance(q, boot.qt.NullQueue):
        return [float(x) for x in q.colors[base]]
    if isinstance(q, boot.qt.ResourceQueue):
        div = 5.0 if q.max_servers <= 1 else 3.0 * q.max_servers
        tmp = (0.9 - min(q.num_servers / div, 0.9)) / 0.9
    else:
        div = q.coloring_sensitivity * q.num_servers + 1.0
        tmp = 1.0 - min(q.num_system / div, 1)
    return load(q.colors[base], tmp, 1.0 if loop else 0.5)


def border(q):
    if isinstance(q, boot.qt.ResourceQueue):
        return [float(x) for x in q.colors['vertex_pen_color']]
    return [float(x) for x in q.colors['vertex_color']]


def expected(net):
    """edge colors (by edge), fills and borders (by vertex)."""
    qs = net.edge2queue
    V = net.num_vertices
    edges = []
    loops = {}
    into = [[] for _ in range(V)]
    for q in qs:
        s, t = q.edge[:2]
        into[t].append(q)
        if s == t:
            loops[s] = q
            if isinstance(q, boot.qt.ResourceQueue):
                c = queue_shade(q, 'edge_loop_color')
                c[3] = 0.0
                edges.append(c)
            else:
                edges.append([float(x) for x in q.colors['edge_loop_color']])
        else:
            edges.append(queue_shade(q, 'edge_color'))
    fills, borders = [], []
    for v in range(V):
        q = loops.get(v)
        if q is not None and q.edge[3] != 0:
            fills.append(queue_shade(q, 'vertex_fill_color'))
        else:
            n = sum(x.num_system for x in into[v])
            cap = sum(x.num_servers for x in into[v])
            fills.append(load(net.colors['vertex_fill_color'], 1.0 - min(n / (2.0 * cap + 2.0), 1.0), 1.0))
        borders.append(border(q) if q is not None else [float(x) for x in net.colors['vertex_color']])
    return edges, fills, borders


def active_colors(net):
    c = net.colors
    V = net.num_vertices
    on = [False] * V
    edges = []
    for q in net.edge2queue:
        if q.active:
            on[q.edge[1]] = True
        edges.append(list(c['edge_active'] if q.active else c['edge_inactive']))
    return edges, [list(c['vertex_active'] if x else c['vertex_inactive']) for x in on], [[0, 0, 0, 0.9]] * V


def type_colors(net, t):
    c = net.colors
    V = net.num_vertices
    fills = [list(c['vertex_inactive']) for _ in range(V)]
    borders = [[0, 0, 0, 0.9] for _ in range(V)]
    edges = []
    for q in net.edge2queue:
        mine = q.edge[3] == t
        edges.append(list(c['edge_active'] if mine else c['edge_inactive']))
        if mine and q.edge[0] == q.edge[1]:
            fills[q.edge[0]] = list(c['vertex_highlight'])
            borders[q.edge[0]] = border(q)
    return edges, fills, borders


class Canvas(object):
    """Stands in for the disk: records what a figure shows when it is saved."""

    def __init__(self, st):
        self.shots = []
        self.fail = False
        self.st = st
        self.kw = None

    def shoot(self, fig):
        from matplotlib.collections import LineCollection, PathCollection
        ax = fig.axes[0]
        lines = [c for c in ax.collections if isinstance(c, LineCollection)]
        scat = [c for c in ax.collections if isinstance(c, PathCollection)]
        if len(lines) != 1 or len(scat) != 1:
            raise Bad(['C19'], 'canvas', '%d line and %d point collections were drawn' % (len(lines), len(scat)))
        for c in lines + scat:
            if not (c.get_visible() and len(c.get_linewidths()) and min(c.get_linewidths()) > 0):
                raise Bad(['C19'], 'canvas', 'lines or points are not visible')
        if min(scat[0].get_sizes()) <= 0 or ax.get_xaxis().get_visible() or ax.get_yaxis().get_visible():
            raise Bad(['C19'], 'canvas', 'points have no size or there are axes')
        if scat[0].get_zorder() <= lines[0].get_zorder():
            raise Bad(['C19'], 'canvas', 'the edges are drawn over the vertices')
        segs = [np.asarray(s).tolist() for s in lines[0].get_segments()]
        return dict(edges=np.array(lines[0].get_colors(), float).reshape(-1, 4).tolist(), segs=segs,
                    fills=np.array(scat[0].get_facecolors(), float).reshape(-1, 4).tolist(),
                    borders=np.array(scat[0].get_edgecolors(), float).reshape(-1, 4).tolist(),
                    at=np.asarray(scat[0].get_offsets(), float).tolist(), bg=list(ax.get_facecolor()),
                    width=float(lines[0].get_linewidths()[0]), size=float(scat[0].get_sizes()[0]), fig=[float(x) for x in fig.get_size_inches()])

    def save(self, fig, fname, **kw):
        if self.fail:
            raise OSError(28, 'No space left on device')
        self.kw = kw
        self.shots.append(self.shoot(fig))


def close(a, b):
    return a is None or (len(a) == len(b) and all(abs(x - y) < 1e-9 for x, y in zip(a, b)))


def judge(what, shot, want):
    edges, fills, borders = want
    for name, got, exp in (('edge', shot['edges'], edges), ('fill of vertex', shot['fills'], fills), ('border of vertex', shot['borders'], borders)):
        if len(got) != len(exp):
            raise Bad(['C19'], 'count', '%s: %d colors (%s) for %d' % (what, len(got), name, len(exp)))
        for k, (g, e) in enumerate(zip(got, exp)):
            if not close(e, g):
                raise Bad(['C19'], 'color', '%s: the color of %s %d is %s, its state gives %s' % (what, name, k, [round(x, 4) for x in g], [round(x, 4) for x in e]))


def defaults(net, what):
    """After reset_colors the colors are those of a new network."""
    f = lambda c: [float(x) for x in c]
    own = {}
    for q in net.edge2queue:
        u, v = q.edge[:2]
        if u == v:
            own[u] = dict(q.colors, vertex_color=border(q))
        if not close(f(q.colors['edge_loop_color' if u == v else 'edge_color']), f(net.g.ep((u, v), 'edge_color'))):
            raise Bad(['C19'], 'reset', 'after %s edge %d is not in its default color' % (what, q.edge[2]))
    for v in net.g.nodes():
        for key in ('vertex_fill_color', 'vertex_color'):
            if not close(f(own.get(v, net.colors)[key]), f(net.g.vp(v, key))):
                raise Bad(['C19'], 'reset', 'after %s the %s of vertex %d is not the default one' % (what, key, v))


def fresh(net):
    """The colors of a new network."""
    f = lambda c: [float(x) for x in c]
    edges, fills, borders = expected(net)
    own = {q.edge[0]: q for q in net.edge2queue if q.edge[0] == q.edge[1]}
    for q in net.edge2queue:
        u, v = q.edge[:2]
        if not close(f(q.colors['edge_loop_color' if u == v else 'edge_color']), f(net.g.ep((u, v), 'edge_color'))):
            raise Bad(['C19'], 'new', 'edge %d of a new network is not in its default color' % q.edge[2])
    for v in net.g.nodes():
        q = own.get(v)
        got = f(net.g.vp(v, 'vertex_fill_color'))
        want = [f((net if q is None else q).colors['vertex_fill_color'])] + ([queue_shade(q, 'vertex_fill_color')] if q is not None else [fills[v]])
        if not any(close(x, got) for x in want):
            raise Bad(['C19'], 'new', 'vertex %d of a new network has the color %s, expected %s' % (v, got, want))
        if not close(borders[v], f(net.g.vp(v, 'vertex_color'))):
            raise Bad(['C19'], 'new', 'the border of vertex %d of a new network has the color %s' % (v, net.g.vp(v, 'vertex_color')))


def given(cfg, net):
    """Colors and sensitivities are those that were given, or the default ones."""
    QN = boot.qt.QueueNetwork
    f = lambda c: [float(x) for x in c]
    for k, c in QN.default_colors.items():
        c = cfg.get('ncols', {}).get(k, c)
        if not close(f(net.colors[k]), f(c)):
            raise Bad(['C19'], 'given', 'the color %r of the network is %r, expected %r' % (k, net.colors[k], c))
    for q in net.edge2queue:
        c = cfg['q'].get(str(q.edge[3])) or {}
        want = c.get('sens') if c.get('sens') is not None else 2
        if q.coloring_sensitivity != want:
            raise Bad(['C19'], 'given', 'the coloring_sensitivity of edge %d is %r, expected %r' % (q.edge[2], q.coloring_sensitivity, want))
        cols = c.get('cols')
        if cols is None:
            cols = QN.default_q_colors.get(q.edge[3], QN.default_q_colors[1])
        for k in ('edge_loop_color', 'edge_color', 'vertex_fill_color', 'vertex_color', 'vertex_pen_color'):
            want = cols.get(k, getattr(type(q), '_default_colors', {}).get(k))
            if want is not None and not close(f(q.colors[k]), f(want)):
                raise Bad(['C19'], 'given', 'the color %r of edge %d is %r, expected %r' % (k, q.edge[2], q.colors[k], want))


def run(plan):
    from matplotlib.figure import Figure
    import matplotlib.pyplot as plt
    st = dict(events=0, simt=0.0, fired={}, probes={}, trace=0, taint=None)
    cv = Canvas(st)
    real = Figure.savefig
    Figure.savefig = lambda fig, fname, **kw: cv.save(fig, fname, **kw)
    s = None
    try:
        s = fam_twin.Sys(plan['cfg'])
        go(plan, st, s, cv)
    except Bad as e:
        return e, st
    except (Taint, Overrun) as e:
        st['taint'] = type(e).__name__ + ' ' + str(e)
    finally:
        Figure.savefig = real
        R.cur = None
        plt.close('all')
        if s is not None:
            for k, v in s.w.fired.items():
                st['fired'][k] = st['fired'].get(k, 0) + v
    return None, st


def go(plan, st, s, cv):
    import matplotlib.pyplot as plt
    from matplotlib.animation import AbstractMovieWriter
    cfg = plan['cfg']
    net = s.net
    fresh(net)
    given(cfg if cfg.get('ncolc') else dict(cfg, ncols={}), net)
    net.colors.update({k: list(v) for k, v in cfg.get('ncols', {}).items()})
    pr = st['probes']
    pos = cfg.get('pos')
    h = 0

    def hit(k, n=1):
        pr[k] = pr.get(k, 0) + n

    def check(what, shot, want, bg=None):
        nonlocal h
        judge(what, shot, want)
        net = s.net
        if bg is None:
            bg = net.colors['bgcolor']
        if not close([float(x) for x in bg], [float(x) for x in shot['bg']]):
            raise Bad(['C19'], 'background', '%s: the background is %s, not %s' % (what, shot['bg'], bg))
        at = shot['at']
        if pos is not None:
            for v, p in enumerate(pos):
                if not close(p, at[v]):
                    raise Bad(['C19'], 'position', '%s: vertex %d is drawn at %s, its position is %s' % (what, v, at[v], p))
        for q in net.edge2queue:
            a, b = shot['segs'][q.edge[2]]
            if not (close(at[q.edge[0]], a) and close(at[q.edge[1]], b)):
                raise Bad(['C19'], 'position', '%s: edge %r is drawn from %s to %s' % (what, q.edge[:2], a, b))
        h = H(h, *[int(c[0] * 1e6) for c in shot['fills'][:6]])

    def stored(what):
        """The colors that the graph has now."""
        la, sa = s.net.g.lines_scatter_args()
        judge(what, dict(edges=np.array(la['colors'], float).tolist(), fills=np.array(sa['c'], float).tolist(),
                         borders=np.array(sa['edgecolors'], float).tolist()), expected(s.net))

    for op in plan['ops']:
        net = s.net
        k = op[0]
        if k in ('draw', 'active', 'type'):
            cv.shots = []
            cv.fail = op[-2] if k != 'type' else op[2]
            before = s.canon()
            ucount = s.w.ucount
            kw = dict(fname='f.png', figsize=(1, 2) if ucount % 2 else (2, 1))
            save = {}
            bg = None
            if k != 'type' and op[2] == 1:
                kw['line_kwargs'] = {'linewidths': (2,)}
                kw['scatter_kwargs'] = {'s': 30}
            if k != 'type' and op[2] == 2:
                bg = kw['bgcolor'] = [0.5, 0.25, 1.0, 1.0]
            if k != 'type' and op[2] == 3:
                # positions are kept for what is drawn later
                rr = Rand(cfg['seed'], len(cv.shots), ucount)
                pos = [[round(10 * rr.u(), 3), round(10 * rr.u(), 3)] for _ in range(cfg['V'])]
                kw['pos'] = dict(enumerate(pos)) if rr.chance(0.5) else np.array(pos)
                before = None
            if k != 'type' and op[2] == 4:
                save = dict(dpi=17, format='png', transparent=True, facecolor='r', edgecolor='b', bbox_inches='tight', pad_inches=0.3)
                kw.update(save)
            show = k != 'type' and op[2] == 5 and not cv.fail
            if show:
                del kw['fname']
            try:
                if k == 'draw':
                    want = expected(net)
                    s.call(net.draw, **kw)
                elif k == 'active':
                    want = active_colors(net)
                    s.call(net.show_active, **kw)
                else:
                    ts = sorted({q.edge[3] for q in net.edge2queue}) + [77]
                    t = ts[op[1] % len(ts)]
                    want = type_colors(net, t)
                    s.call(net.show_type, t, **kw)
            except OSError:
                st['fired']['disk full while drawing'] = st['fired'].get('disk full while drawing', 0) + 1
                if not cv.fail:
                    raise
            else:
                if show:
                    # it is on the screen
                    if len(plt.get_fignums()) != 1:
                        raise Bad(['C19'], 'shown', '%s shows %d figures' % (k, len(plt.get_fignums())))
                    cv.shots.append(cv.shoot(plt.gcf()))
                    cv.kw = {}
                if cv.fail or len(cv.shots) != 1:
                    raise Bad(['C19'], 'saved', '%s saved %d figures' % (k, len(cv.shots)))
                check(k, cv.shots[0], want, bg)
                if cv.kw != save:
                    raise Bad(['C19'], 'arguments', '%s was given %s for the file, savefig got %s' % (k, save, cv.kw))
                sh = cv.shots[0]
                if sh['fig'] != [float(x) for x in kw['figsize']] or ('line_kwargs' in kw and (sh['width'], sh['size']) != (2.0, 30.0)):
                    raise Bad(['C19'], 'arguments', '%s: the size of the figure, the lines or the points is not what was given: %s, %r, %r' % (k, sh['fig'], sh['width'], sh['size']))
                stored('after ' + k)
                hit('drawings: ' + k)
            finally:
                plt.close('all')
                plt.ioff()
            if 'pos' in kw:
                # also for graphs made of this one
                g2 = boot.qt.QueueNetworkDiGraph(net.g)
                if g2.pos is None or np.shape(g2.pos) != (len(pos), 2) or not np.allclose(g2.pos, pos):
                    raise Bad(['C19'], 'position', 'a graph made of the one drawn has other positions')
            if before is not None:
                unchanged(s, before, ucount, k)
            elif s.w.ucount != ucount:
                raise Bad(['C19', 'C14'], 'changed', '%s drew random numbers' % k)
        elif k == 'anim':
            if not s.inited:
                continue
            animate(s, op, st, check, hit)
            stored_if = not op[2]
            if stored_if:
                stored('after animate')
        elif k == 'args':
            before = s.canon()
            net.g.lines_scatter_args()
            unchanged(s, before, s.w.ucount, k)
        elif k == 'reset':
            net.reset_colors()
            defaults(net, 'reset_colors')
        elif k == 'copy':
            s = s.copy()
            st['fired']['continued on a copy'] = st['fired'].get('continued on a copy', 0) + 1
        else:
            s.do(op)
            if k == 'clear':
                defaults(s.net, 'clear')
            if k in ('sim', 'simt', 'simq') and s.inited:
                hit('plain simulation')
        given(cfg, s.net)
        s.w.log = []
    if s.now() < INF:
        st['simt'] = float(s.now())
    st['events'] = int(s.nev()) + sum(v for k, v in pr.items() if k.startswith('drawings') or k == 'frames')
    st['trace'] = h


def unchanged(s, before, ucount, what):
    d = fam_twin.differ(before, s.canon())
    if d:
        raise Bad(['C19', 'C14'], 'changed', '%s changed the simulation: %s' % (what, d))
    if s.w.ucount != ucount:
        raise Bad(['C19', 'C14'], 'changed', '%s drew random numbers' % what)


def animate(s, op, st, check, hit):
    import matplotlib.pyplot as plt
    from matplotlib.animation import AbstractMovieWriter
    net = s.net
    frames = []

    class Writer(AbstractMovieWriter):
        def __init__(self):
            self.n = 0

        def setup(self, fig, outfile, dpi=None):
            self.fig = fig

        def grab_frame(self, **kw):
            self.n += 1
            if op[2] and self.n >= op[2]:
                raise OSError(28, 'No space left on device')
            frames.append((cv_shoot(self.fig), expected(net)))

        def finish(self):
            pass

    cv = Canvas(st)
    cv_shoot = cv.shoot
    kw = dict(frames=op[1], filename='none', writer=Writer(), figsize=(1, 1))
    if op[3]:
        kw['t'] = 2.0
    e0, t0 = s.nev(), s.now()
    try:
        s.call(net.animate, **kw)
    except OSError:
        st['fired']['disk full while animating'] = st['fired'].get('disk full while animating', 0) + 1
    finally:
        plt.close('all')
    for i, (shot, want) in enumerate(frames):
        check('frame %d of an animation' % i, shot, want)
    hit('frames', len(frames))
    hit('events of animations', int(s.nev() - e0))

"""Family 'trans': transition matrices that are set while a network runs.

Valid and invalid arguments of set_transitions come at any moment of a run.
What has to be refused, and what the probabilities are afterwards, is decided
from the argument; a control that gets only the accepted ones, each in one
plain form, must have the same history.
"""
import numpy as np
import networkx as nx

from dst import boot, world, fam_net, fam_twin
from dst.seam import R, World, Rand, Overrun, H
from dst.shadow import Bad, Taint, INF

GOOD = [('full', 4), ('sparse', 3), ('zeros', 2), ('matrix', 4), ('some', 3), ('gen', 3), ('same', 1), ('empty', .4), ('intmat', 1), ('rounded', 2), ('terminal', 1)]
EVIL = [('sum', 4), ('negative', 4), ('nonedge', 4), ('unknown', 3), ('shape', 2), ('type', 2), ('nan', 1), ('msum', 3), ('mneg', 3), ('mnonedge', 3), ('zero', 1)]


def gen(prop, r, tier):
    cfg = fam_net.gen_cfg(r, dict(fam_twin.PROF, agents=[('A', 7), ('G', 1), ('R', 2)], collect=0.2))
    ops = [['initn', r.rng(1, 4)]]
    for _ in range(r.rng(3, 10)):
        x = r.u()
        if x < 0.5:
            ops.append(['good', r.weighted(GOOD), r.u64() >> 20])
        else:
            ops.append(['evil', r.weighted(EVIL), r.u64() >> 20])
        if r.chance(0.7):
            ops.append(['sim', r.rng(1, 25)])
        if r.chance(0.1):
            ops.append(fam_net.gen_op(r, dict(fam_twin.PROF, ops=[('act', 2), ('init', 1), ('setn', 1)]), False, cfg))
        if r.chance(0.06):
            ops.append(['clone'])
        if r.chance(0.04):
            ops.append(['restart'])
    return dict(cfg=cfg, ops=ops)


def bad(tag, msg):
    raise Bad(['C22'], tag, msg)


def probs(r, k):
    ws = [r.weighted([(0, 3), (1, 3), (r.u(), 5), (1e-3, 1), (30, .5)]) for _ in range(k)]
    if sum(ws) <= 0:
        ws[r.below(k)] = 1
    s = float(sum(ws))
    return [x / s for x in ws]


def good(net, kind, key, st):
    """-> (argument, {vertex: {vertex: probability}} that it means)"""
    r = Rand(key, 3)
    nV = net.num_vertices
    outs = {v: [net.edge2queue[k].edge[1] for k in net.out_edges[v]] for v in range(nV)}
    vs = [v for v in range(nV) if outs[v]]
    mean = {v: dict(zip(outs[v], probs(r, len(outs[v])))) for v in vs}
    if kind == 'empty':
        return {}, {}
    if kind == 'same':
        m = net.transitions()
        return m, {v: {u: m[v, u] for u in outs[v]} for v in vs}
    if kind == 'gen':
        R.cur.arrays = True
        u0 = R.cur.uhook
        mode = r.below(4)
        if mode:
            R.cur.uhook = lambda n: [0.0, 1 - 2.0 ** -53, 2.0 ** -53, 0.999, 0.01][H(key, n) % 5] if mode < 3 else 0.0
            st['fired']['extreme draw'] = st['fired'].get('extreme draw', 0) + 1
        try:
            m = boot.qt.generate_transition_matrix(net.g, **({'seed': int(key % 1000)} if r.chance(0.3) else {}))
        finally:
            R.cur.arrays, R.cur.uhook = False, u0
        if m.shape != (nV, nV):
            bad('generated', 'generate_transition_matrix gives the shape %r for %d vertices' % (m.shape, nV))
        for v in range(nV):
            row = {u: float(m[v, u]) for u in range(nV)}
            if any(not p >= 0 for p in row.values()) or any(p and u not in outs[v] for u, p in row.items()) \
                    or abs(sum(row.values()) - (1 if outs[v] else 0)) > 1e-9:
                bad('generated', 'generate_transition_matrix gives vertex %d with edges to %r the row %r' % (v, outs[v], m[v].tolist()))
            if mode == 0 and not R.cur.ux and any(row[u] <= 0 for u in outs[v]):
                bad('generated', 'generate_transition_matrix never uses an edge of vertex %d, without a draw of zero: %r' % (v, m[v].tolist()))
        return m, {v: {u: m[v, u] for u in outs[v]} for v in vs}
    if kind == 'matrix':
        m = np.zeros((nV, nV))
        for v in vs:
            for u, p in mean[v].items():
                m[v, u] = p
        return m, mean
    if kind == 'intmat':
        m = np.zeros((nV, nV), int)
        for v in vs:
            u = r.pick(outs[v])
            m[v, u] = 1
            mean[v] = {x: 1.0 if x == u else 0.0 for x in outs[v]}
        return m, mean
    if kind == 'rounded':
        for v in vs:
            ps = [round(p, 7) for p in mean[v].values()]
            if abs(sum(ps) - 1) < 8e-7:
                mean[v] = dict(zip(mean[v], ps))
        return {v: dict(d) for v, d in mean.items()}, mean
    if kind == 'terminal':
        # a vertex without outgoing edges needs no probabilities
        d = {v: ({} if not outs[v] else dict(mean[v])) for v in range(nV)}
        return d, mean
    if kind in ('some', 'sparse', 'zeros'):
        vs = r.sample(vs, r.rng(1, len(vs)))
        mean = {v: mean[v] for v in vs}
    d = {}
    for v in r.shuffle(list(vs)):
        items = r.shuffle(list(mean[v].items()))
        if kind == 'sparse':
            items = [x for x in items if x[1]]
        if kind == 'zeros':
            # zeros where there is no edge
            items += [(u, 0) for u in range(nV) if u not in outs[v] and r.chance(0.5)]
        d[v] = dict(items)
    return d, mean


def evil(net, kind, key):
    """-> argument that has to be refused, or None"""
    r = Rand(key, 4)
    nV = net.num_vertices
    outs = {v: [net.edge2queue[k].edge[1] for k in net.out_edges[v]] for v in range(nV)}
    vs = [v for v in range(nV) if outs[v]]
    mean = {v: dict(zip(outs[v], probs(r, len(outs[v])))) for v in vs}
    m = np.zeros((nV, nV))
    for v in vs:
        for u, p in mean[v].items():
            m[v, u] = p
    # good entries before and after the bad one
    keep = r.sample(vs, r.rng(1, len(vs)))
    v = r.pick(keep)
    d = {x: dict(mean[x]) for x in keep}
    if kind == 'type':
        return r.pick([None, m.tolist(), 'x', 3, [(0, 1)], 1.0])
    if kind == 'shape':
        return r.pick([np.ones((nV + 1, nV + 1)) / (nV + 1), np.ones(nV) / nV, np.ones((nV, nV, 1)), np.hstack([m, np.zeros((nV, 1))]), np.zeros((0, 0))])
    f = r.pick([0.5, 0.9, 1.5, 2.0, 1.001, 0.999, 1.0001, 1.00003, 0.99997])
    if kind == 'sum':
        d[v] = {u: p * f for u, p in d[v].items()}
        return d
    if kind == 'msum':
        m[v] *= f
        others = [x for x in vs if x != v]
        if others and f <= 1.5 and r.chance(0.4):
            # the sum over all vertices is right
            m[r.pick(others)] *= 2 - f
        return m
    if kind == 'zero':
        if r.chance(0.5):
            m[v] = 0
            return m
        d[v] = r.pick([{}, {u: 0.0 for u in d[v]}])
        return d
    if kind in ('negative', 'mneg'):
        # sums to one all the same
        if len(outs[v]) < 2:
            return None
        a, b = r.sample(outs[v], 2)
        x = r.pick([0.5, 1.5, 0.001, 1e-6, 1e-9, 1e-15, 5e-324])
        row = {u: 0.0 for u in outs[v]}
        row[a], row[b] = -x, 1 + x
        if kind == 'mneg':
            for u, p in row.items():
                m[v, u] = p
            return m
        d[v] = row
        return d
    if kind in ('nonedge', 'mnonedge'):
        no = [u for u in range(nV) if u not in outs[v]]
        if not no:
            return None
        u = r.pick(no)
        x = r.pick([1.0, 0.5, 0.01])
        if kind == 'mnonedge':
            m[v] *= 1 - x
            m[v, u] = x
            return m
        d[v] = {w: p * (1 - x) for w, p in d[v].items()}
        d[v][u] = x
        return d
    if kind == 'unknown':
        bad_v = r.pick([nV, nV + 3, -1, 'a', (0, 1), 0.5])
        items = r.shuffle(list(d.items()) + [(bad_v, {0: 1.0})])
        return dict(items)
    if kind == 'nan':
        if r.chance(0.5):
            m[v, outs[v][0]] = float('nan')
            return m
        d[v][outs[v][0]] = float('nan')
        return d
    raise ValueError(kind)


def run(plan):
    st = dict(events=0, simt=0.0, fired={}, probes={}, trace=0, taint=None)
    try:
        go(plan, st)
    except Bad as e:
        return e, st
    except Taint as e:
        st['taint'] = str(e)
    except Overrun:
        st['taint'] = 'too many steps'
    finally:
        R.cur = None
    return None, st


def matrix(net):
    return [[float(x) for x in row] for row in net.transitions()]


def hit(st, k, what='probes'):
    st[what][k] = st[what].get(k, 0) + 1


def go(plan, st):
    cfg = plan['cfg']
    x = fam_twin.Sys(cfg)
    y = fam_twin.Sys(cfg)
    tr = 0
    olds = []
    for j, op in enumerate(plan['ops']):
        net = x.net
        if j % 3 == 1:
            # what was handed out belongs to who asked for it
            before = matrix(net)
            m, d = net.transitions(), net.transitions(return_matrix=False)
            m[:] = 0.25
            for row in d.values():
                for u in row:
                    row[u] = 0.125
            d.clear()
            same(net, before, 'operation %d: answers of transitions() were written to' % j)
        if op[0] == 'good':
            before = matrix(net)
            w = x.w.fork()
            w.log = []
            R.cur = w
            try:
                arg, mean = good(net, op[1], op[2], st)
            finally:
                R.cur = None
            what = 'operation %d: set_transitions (%s)' % (j, op[1])
            call(x, arg, what, False)
            want = [list(row) for row in before]
            for v, d in mean.items():
                want[v] = [float(d.get(u, 0.0)) for u in range(net.num_vertices)]
            same(net, want, what)
            y.net.set_transitions({v: dict(d) for v, d in mean.items()})
            hit(st, 'set: ' + op[1])
        elif op[0] == 'evil':
            arg = evil(net, op[1], op[2])
            if arg is None:
                continue
            what = 'operation %d: set_transitions (%s)' % (j, op[1])
            before = matrix(net)
            g = fam_twin.quiet_guard(x)
            try:
                call(x, arg, what, True)
            finally:
                R.cur = None
            same(net, before, what)
            if fam_twin.quiet_guard(x) != g:
                bad('refused', '%s drew random numbers' % what)
            hit(st, 'refused: ' + op[1], 'fired')
        elif op[0] == 'clone':
            olds.append((x, matrix(x.net)))
            x = x.copy()
            hit(st, 'continued on a copy', 'fired')
        elif op[0] == 'restart':
            before = matrix(net)
            x.do(['clear'])
            y.do(['clear'])
            same(net, before, 'operation %d: clear' % j)
            x.do(['initn', 2])
            y.do(['initn', 2])
        else:
            x.do(op)
            y.do(op)
        for o, m in olds:
            same(o.net, m, 'operation %d, of a network of which a copy is used' % j)
        got, want = x.take_log(), y.take_log()
        # nobody takes an edge without probability
        for e in got:
            if e[0] == 'D':
                tr = hash((tr, e[1], e[3]))
        d = fam_twin.logdiff(want, got) or fam_twin.differ(y.canon(), x.canon())
        if d:
            bad('history', 'operation %d %r: %s' % (j, op[:2], d))
        if op[0] == 'sim':
            legal(x, got, j)
            hit(st, 'histories compared')
    st['events'] = x.nev() + y.nev()
    t = x.now()
    if t < INF:
        st['simt'] = float(t)
    for k, v in x.w.fired.items():
        st['fired'][k] = st['fired'].get(k, 0) + v
    st['trace'] = tr


def legal(x, log, j):
    """Agents with routes of the network take edges that have probability."""
    net = x.net
    m = net.transitions()
    for e in log:
        if e[0] != 'D':
            continue
        cfg = x.cfg['q'].get(str(net.edge2queue[e[2]].edge[3]))
        u, v = net.edge2queue[e[3]].edge[:2]
        if net.edge2queue[e[2]].edge[1] != u:
            bad('route', 'operation %d: an agent left edge %r for edge %r' % (j, e[2], e[3]))
        if set(all_kinds(x.cfg)) <= {'A', 'R'} and m[u, v] <= 0:
            bad('route', 'operation %d: an agent took the edge (%d, %d), whose probability is zero' % (j, u, v))


def all_kinds(cfg):
    return [a for c in cfg['q'].values() for a in c['ag']]


def call(x, arg, what, refuse):
    R.cur = x.w
    try:
        x.net.set_transitions(arg)
    except (ValueError, TypeError) as e:
        if not refuse:
            bad('refused', '%s: %r is valid, but refused: %s' % (what, arg, e))
        if isinstance(arg, (dict, np.ndarray)) and not isinstance(e, ValueError):
            bad('error', '%s: %r raised %r instead of a ValueError' % (what, arg, e))
        if not isinstance(arg, (dict, np.ndarray)) and not isinstance(e, TypeError):
            bad('error', '%s: %r raised %r instead of a TypeError' % (what, arg, e))
    else:
        if refuse:
            bad('accepted', '%s: %s is invalid, but was accepted' % (what, repr(arg)[:300]))
    finally:
        R.cur = None


def same(net, want, what):
    got = matrix(net)
    for v, (a, b) in enumerate(zip(want, got)):
        for u, (p, q) in enumerate(zip(a, b)):
            if abs(p - q) > 1e-12:
                bad('probability', '%s: transitions()[%d, %d] is %r, expected %r' % (what, v, u, q, p))
    t = net.transitions(return_matrix=False)
    for v in range(net.num_vertices):
        row = {u: p for u, p in t.get(v, {}).items()}
        for u in range(net.num_vertices):
            if abs(row.get(u, 0.0) - got[v][u]) > 1e-12:
                bad('probability', '%s: transitions(False) gives %r for (%d, %d), transitions() %r' % (what, row.get(u), v, u, got[v][u]))

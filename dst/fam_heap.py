"""Family 'heap': the PriorityQueue of the network under arbitrary schedules of
pushes (new times for an edge supersede its old one) and pops."""
from dst import boot
from dst.seam import Rand, H
from dst.shadow import Bad, Taint, INF


def gen(prop, r, tier):
    n = r.weighted([(1, 1), (r.rng(2, 6), 4), (r.rng(7, 40), 3), (r.rng(100, 600), 1)])
    lattice = r.chance(0.4)
    start = r.weighted([(0, 2), (r.rng(0, n), 3), (n, 2)])
    ops = []
    clock = 0.0

    def t():
        return clock + (r.rng(0, 12) * 0.5 if lattice else 10 * r.u())
    init = [[t(), k] for k in r.sample(range(n), start)]
    m = r.weighted([(r.rng(5, 40), 5), (r.rng(40, 300), 3), (1500, .3)])
    back = r.chance(0.3)
    for _ in range(m):
        x = r.u()
        if x < 0.5:
            ops.append(['push', t(), r.below(n)])
        elif x < 0.9:
            ops.append(['pop'])
        elif x < 0.93:
            ops.append(['drain'])
        else:
            k = r.below(n)
            for _ in range(r.rng(2, 9)):
                ops.append(['push', t(), k])
        if not back:
            clock += 0.25 if lattice else r.u()
    ops.append(['drain'])
    return dict(n=n, init=init, ops=ops)


def run(plan):
    st = dict(events=0, simt=0.0, fired={}, probes={}, trace=0, taint=None)
    try:
        go(plan, st)
    except Bad as e:
        return e, st
    return None, st


def go(plan, st):
    from queueing_tool.network.priority_queue import PriorityQueue
    live = {}
    keys = []
    for t, k in plan['init']:
        if k not in live:
            live[k] = t
            keys.append((t, k))
    seen = set(keys)
    h = PriorityQueue(keys, plan['n'])
    tr = 0
    pr = st['probes']

    def pop():
        nonlocal tr
        if h.size == 0:
            if live:
                raise Bad(['C01'], 'heap', 'the PriorityQueue is empty, %r were pushed and not popped' % sorted((t, k) for k, t in live.items())[:3])
            got = h.pop()
            pr['pop from an empty heap'] = pr.get('pop from an empty heap', 0) + 1
            if got is not None or h.size != 0:
                raise Bad(['C01'], 'heap', 'pop from an empty PriorityQueue gave %r, its size is %r' % (got, h.size))
            return False
        got = h.pop()
        st['events'] += 1
        if not live:
            if got is not None:
                raise Bad(['C01'], 'heap', 'pop gave %r, which was superseded or popped before' % (got,))
            return False
        t = min(live.values())
        if got is None:
            raise Bad(['C01'], 'heap', 'pop gave nothing, %r is due' % t)
        if live.get(got[1]) != got[0]:
            raise Bad(['C01'], 'heap', 'pop gave %r, which is not the current time of that edge (%r)' % (got, live.get(got[1])))
        if got[0] != t:
            raise Bad(['C01'], 'heap', 'pop gave %r before %r' % (got, t))
        if sum(1 for x in live.values() if x == t) > 1:
            pr['tie in the heap'] = pr.get('tie in the heap', 0) + 1
        del live[got[1]]
        tr = hash((tr, got[0], got[1]))
        return True

    for op in plan['ops']:
        if op[0] == 'push':
            t, k = op[1], op[2]
            if (t, k) in seen:
                continue            # a key comes once (the network skips an event that took place)
            seen.add((t, k))
            if k in live:
                pr['superseded'] = pr.get('superseded', 0) + 1
            h.push(t, k)
            live[k] = t
            st['simt'] = max(st['simt'], t)
        elif op[0] == 'pop':
            pop()
        else:
            while pop():
                pass
            if live:
                raise Bad(['C01'], 'heap', 'drained, but %r is left' % live)
    if h.size and h.pop() is not None:
        raise Bad(['C01'], 'heap', 'a key is left after everything was popped')
    st['trace'] = tr

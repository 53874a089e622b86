"""The reference model: what every queue and the network must look like after
every event and operation, given the values the user supplied functions
returned.  It reads only public attributes (and the documented ``_time`` of an
agent) and the log of calls to the simulator's own functions and agents."""
import copy
from collections import deque

import numpy as np

from dst import world
from dst.seam import R, LIMIT

INF = float('inf')


class Bad(Exception):
    """A property violation. ``props``: the properties it breaks."""

    def __init__(self, props, tag, msg):
        Exception.__init__(self, msg)
        self.props = tuple(sorted(set(props)))
        self.tag = tag
        self.msg = msg


class Taint(Exception):
    """The run entered behaviour no property specifies; it is dropped."""


class QM(object):
    """Model of one queue."""
    pass


def qm(idx, key, cls, q, c):
    m = QM()
    m.idx, m.key, m.cls = idx, key, cls
    m.ns = q.num_servers
    m.buf = None
    if cls in ('LOSS', 'RES', 'INFO'):
        m.buf = INF if c.get('buf') is None else c['buf']
    m.cap = INF if not c or c.get('cap') is None else c['cap']
    m.deact = INF if not c or c.get('deact') is None else c['deact']
    m.maxs = 2 * m.ns
    reset_qm(m)
    m.over = 0
    m.fs = {}              # the functions given at run time
    m.collect = bool(q.collect_data)
    return m


def reset_qm(m):
    m.pend = []            # [time, uid] of scheduled external arrivals
    m.insvc = {}           # uid -> departure time
    m.wait = deque()
    m.arr = m.oarr = m.dep = m.blk = 0
    m.active = False
    m.next_ct = 0.0
    m.cur = 0
    m.rows = []
    m.special = []
    m.rec = {}             # uid -> row of the current visit
    m.setn = 0
    m.loose_arr = 0
    m.over = 0
    m.nd = None
    m.bymax = False
    m.wasfull = False


class AM(object):
    __slots__ = ('uid', 'id', 'kind', 'blocked', 'res', 'nd', 'lost')


KIND = {}
CLS = {'QS': 0, 'LOSS': 1, 'RES': 2, 'INFO': 3}


def kind_of(a):
    if not KIND:
        from dst.world import AGENTS
        for k, c in AGENTS.items():
            KIND[c] = k
    return KIND[type(a)]


class Shadow(object):
    def __init__(self, world, net=None, cfg=None, queue=None, qc=None):
        self.w = world
        self.net = net
        self.steps = 0
        self.agents = {}
        self.ids = set()
        self.trace = 0
        self.states = set()
        self.probes = {}
        self.t = 0
        self.nev = 0
        self.maxt = 0
        self.warp = False
        self.after = ()        # properties about the last operation
        self.evp = ()          # and about the present event
        if net is not None:
            self.qs = net.edge2queue
            self.m = []
            self.k2i = {}
            for i, q in enumerate(self.qs):
                t = q.edge[3]
                c = cfg['q'].get(str(t)) if t else None
                cls = c['cls'] if c else 'NULL'
                self.m.append(qm(i, t, cls, q, c))
                if t:
                    self.k2i[t] = i
            self.max = INF if cfg.get('max') is None else cfg['max']
            self.bas = cfg.get('blocking', 'BAS').upper() == 'BAS'
            self.drained = False
        else:
            self.qs = [queue]
            self.m = [qm(0, 0, qc['cls'], queue, qc)]
            self.k2i = {0: 0}
            self.max = INF
            self.bas = True
        for m, q in zip(self.m, self.qs):
            if m.cls == 'INFO':
                m.nd = q.net_data.copy()
                if not (m.nd == -1).all():
                    raise Bad(['C16'], 'info', 'a new InfoQueue knows something: %r' % m.nd)

    # ------------------------------------------------------------ helpers
    def fork(self, net, queue, world):
        s = copy.copy(self)
        s.w = world
        s.net = net
        s.qs = net.edge2queue if net is not None else [queue]
        s.m = copy.deepcopy(self.m)
        s.agents = {u: copy.copy(a) for u, a in self.agents.items()}
        s.ids = set(self.ids)
        s.probes = dict(self.probes)
        return s

    def probe(self, k):
        self.probes[k] = self.probes.get(k, 0) + 1

    def ctx(self, m, *props):
        p = list(props)
        if m.setn:
            p.append('C04')
        if any(self.agents[u].blocked for u in m.insvc if u in self.agents):
            p.append('C06')
        if m.cls == 'RES':
            p.append('C15')
        return p

    def bad(self, props, tag, msg, m=None):
        if m is not None:
            props = self.ctx(m, *props)
            msg = '%s [edge %d, %s]' % (msg, m.idx, m.cls)
        raise Bad(list(props) + list(self.evp) + list(self.after), tag, msg)

    @staticmethod
    def mtime(m):
        t = INF
        for p in m.pend:
            if p[0] < t:
                t = p[0]
        for v in m.insvc.values():
            if v < t:
                t = v
        return t

    @staticmethod
    def mkind(m):
        a = min([p[0] for p in m.pend], default=INF)
        d = min(m.insvc.values(), default=INF)
        if d < a:
            return 2
        return 1 if a < INF else 0

    def nsys(self, m):
        return len(m.insvc) + len(m.wait)

    def total(self, m):
        return len(m.insvc) + len(m.wait) + len(m.pend)

    def full(self, m):
        return m.buf is not None and self.nsys(m) >= m.ns + m.buf

    def nagents(self):
        return sum(len(m.insvc) + len(m.wait) + len(m.pend) for m in self.m)

    def take_log(self):
        log = self.w.log
        self.w.log = []
        P = {'A': {}, 'S': {}, 'N': {}, 'Q': [], 'D': [], 'L': [], 'I': [], 'G': []}
        h = self.trace
        for e in log:
            k = e[0]
            if k in 'ASN':
                P[k].setdefault(self.k2i[e[1]], []).append(e)
            else:
                P[k].append(e)
            if k == 'Q':
                h = hash((h, e[1], e[2], e[3]))
            elif k == 'A' or k == 'S':
                h = hash((h, e[1], e[3]))
        self.trace = h
        return P

    def leftovers(self, P):
        for k, props, what in (('A', ['C07'], 'arrival_f was called'), ('N', ['C07', 'C02'], 'AgentFactory was called'),
                               ('S', ['C03'], 'service_f was called')):
            for i, lst in P[k].items():
                if lst:
                    self.bad(props + (['C08'] if self.m[i].bymax and k != 'S' else []), 'extra',
                             '%s unexpectedly: %r' % (what, lst[0][2:4]), self.m[i])
        for k, props, what in (('Q', ['C03', 'C02'], 'queue_action'), ('L', ['C05'], 'add_loss'),
                               ('D', ['C09', 'C06'], 'desired_destination')):
            if P[k]:
                self.bad(props, 'extra', 'unexpected call of %s: %r' % (what, P[k][0][1:4]))
        if P['I']:
            self.bad(['C16'], 'extra', 'unexpected meeting %r' % (P['I'][0][1:4],))

    # ------------------------------------------------------ model of parts
    def fresh(self, m, k, e, props):
        """The call e went to the function the queue has now."""
        if k in m.fs and e[4] != m.fs[k]:
            self.bad(props, 'stale', '%s was replaced, but the old function is called (%r instead of %r)'
                     % ({'S': 'service_f', 'A': 'arrival_f'}[k], e[4], m.fs[k]), m)

    def external(self, m, t, P, why=()):
        """The next external arrival at m is scheduled at time t."""
        lst = P['A'].get(m.idx)
        if not lst:
            self.bad(['C07'] + list(why), 'extern', 'arrival_f was not called at time %r although the queue is active' % t, m)
        e = lst.pop(0)
        if e[2] != t:
            self.bad(['C07', 'C01'], 'extern', 'arrival_f was called with %r at time %r' % (e[2], t), m)
        self.fresh(m, 'A', e, ['C07'])
        r = e[3]
        if r >= m.deact:
            m.active = False
            self.probe('stream ended by deactive_t')
            return
        lst = P['N'].get(m.idx)
        if not lst:
            self.bad(['C07', 'C02'] + list(why), 'extern', 'no agent was created for the arrival at %r' % r, m)
        e = lst.pop(0)
        uid, a = e[3], e[4]
        if e[2] != (m.idx, m.oarr):
            self.bad(['C07', 'C02'], 'extern', 'new agent has id %r, expected %r' % (e[2], (m.idx, m.oarr)), m)
        am = AM()
        am.uid, am.id, am.kind, am.blocked, am.res, am.lost = uid, a.agent_id, kind_of(a), 0, False, False
        if am.kind == 'H':
            am.kind, am.res = 'R', True
            self.probe('comes with a resource')
        am.nd = a.net_data.copy() if am.kind == 'I' else None
        if am.nd is not None and not (am.nd == -1).all():
            self.bad(['C16'], 'info', 'a new InfoAgent knows something: %r' % am.nd, m)
        if e[2] in self.ids:
            self.bad(['C02'], 'ids', 'agent id %r is used twice' % (e[2],), m)
        self.ids.add(e[2])
        self.agents[uid] = am
        m.pend.append([r, uid])
        m.oarr += 1
        m.next_ct = r
        if m.oarr >= m.cap:
            m.active = False
            self.probe('stream ended by active_cap')

    def q_call(self, P, m, kind, uid):
        for i, e in enumerate(P['Q']):
            if e[2] == m.idx and e[3] == kind and (uid is None or e[1] == uid):
                # kinds of one agent have to come in order
                for f in P['Q'][:i]:
                    if f[1] == e[1] and f[2] == m.idx:
                        self.bad(['C03'], 'qaction', 'queue_action calls of agent %d out of order: %r' % (e[1], [x[3] for x in P['Q']]), m)
                del P['Q'][i]
                return e
        seen = [(x[1], x[3]) for x in P['Q'] if x[2] == m.idx]
        props = {0: ['C02', 'C03'], 1: ['C03'], 2: ['C02', 'C03']}[kind]
        self.bad(props, 'qaction', 'expected queue_action(%d) for agent %s, got %r' % (kind, uid, seen), m)

    def start(self, m, uid, t, P, props=('C03',)):
        """Service of uid starts at m at time t."""
        lst = P['S'].get(m.idx)
        if not lst:
            self.bad(list(props), 'idle', 'agent %d is not put in service at %r although one of %r servers is free (in service: %d)'
                     % (uid, t, m.ns, len(m.insvc)), m)
        e = lst.pop(0)
        if e[2] != t:
            self.bad(list(props), 'svctime', 'service_f was called with %r, service starts at %r' % (e[2], t), m)
        self.fresh(m, 'S', e, ['C03'])
        q1 = [x for x in P['Q'] if x[2] == m.idx and x[3] == 1]
        if q1 and q1[0][1] != uid:
            self.bad(list(props), 'fifo', 'agent %d starts service, %d came first' % (q1[0][1], uid), m)
        self.q_call(P, m, 1, uid)
        m.insvc[uid] = e[3]
        if uid in m.rec and m.collect:
            m.rec[uid][2] = t
        self.info(m, uid, 1, t, P)

    def record(self, m, uid, row, prop=None):
        m.rec.pop(uid, None)
        if m.collect:
            row = [self.agents[uid].id] + row
            m.rows.append(row)
            if prop:
                # a record that this property promises
                m.special.append((prop, row))
            return row
        return None

    # ------------------------------------------------------------- info
    @staticmethod
    def merge(mine, other):
        """What newer entries of other give; ties keep mine."""
        out = mine.copy()
        a = mine[:, 0] < other[:, 0]
        out[a] = other[a]
        return out

    def same_info(self, got, want, alt):
        """got equals want, up to which of two equally old entries is kept."""
        if np.array_equal(got, want):
            return True
        for i in range(len(want)):
            if np.array_equal(got[i], want[i]):
                continue
            if alt is not None and got[i][0] == want[i][0] == alt[i][0] and np.array_equal(got[i], alt[i]):
                continue
            return False
        return True

    def info(self, m, uid, kind, t, P):
        am = self.agents[uid]
        if m.cls != 'INFO' or am.kind != 'I':
            return
        for i, e in enumerate(P['I']):
            if e[1] == uid and e[2] == m.idx and e[3] == kind:
                del P['I'][i]
                break
        else:
            return
        _, _, _, _, ab, qb, aa, qa, state, beliefs = e
        if not np.array_equal(beliefs, aa[:, 2]):
            self.bad(['C16'], 'info', 'get_beliefs() of agent %d gives %r, it knows %r' % (uid, beliefs.tolist(), aa.tolist()), m)
        if not np.array_equal(ab, am.nd):
            self.bad(['C16'], 'info', 'what agent %d knows changed without a meeting: %r, was %r' % (uid, ab.tolist(), am.nd.tolist()), m)
        if not self.same_info(qb, m.nd, am.nd):
            self.bad(['C16'], 'info', 'the queue knows %r, expected %r (meeting of agent %d, kind %d)' % (qb.tolist(), m.nd.tolist(), uid, kind), m)
        m.nd = qb
        want = self.merge(ab, qb)
        stamp = (state[0], state[1], state[2] / state[1] if state[1] else np.nan)
        got = aa.copy()
        if tuple(got[m.idx]) != stamp and state[1]:
            self.bad(['C16'], 'info', 'agent %d notes %r for the queue whose state is %r' % (uid, got[m.idx].tolist(), stamp), m)
        if state[0] != t:
            self.bad(['C16', 'C01'], 'info', 'the queue shows time %r in an event at %r' % (state[0], t), m)
        got[m.idx] = want[m.idx]
        if not self.same_info(got, want, qb):
            self.bad(['C16'], 'info', 'agent %d knows %r, expected %r' % (uid, got.tolist(), want.tolist()), m)
        if not np.array_equal(qa, qb):
            self.bad(['C16'], 'info', 'the queue learned from an agent that does not arrive', m)
        am.nd = aa
        self.probe('information exchanged')

    # ---------------------------------------------------------- arrivals
    def arrive(self, m, uid, t, external, P):
        am = self.agents[uid]
        q = self.qs[m.idx]
        m.cur = t
        if m.cls == 'NULL':
            if m.collect:
                m.rows.append([am.id, t, 0, 0, 0, 0])
            del self.agents[uid]
            self.probe('left through NullQueue')
            return
        if m.cls == 'INFO' and am.kind == 'I':
            m.nd = self.adopt(m, am)
        if m.cls == 'RES' and am.kind == 'R' and am.res:
            self.probe('resource returned')
            if external and m.active:
                self.external(m, t, P, ('C15',))
            self.servers(m, m.ns + 1, t, P, ('C15', 'C03'))
            self.record(m, uid, [t, t, t, len(m.wait), self.nsys(m)], 'C15')
            del self.agents[uid]
            return
        if external and m.active:
            self.external(m, t, P, ('C05',) if self.full(m) else ())
        full = self.full(m)
        if full:
            self.probe('lost on arrival')
            self.evp = ('C05',)
            if not external:
                self.bad(['C05', 'C02'], 'lost', 'agent %d moved to a full queue' % uid, m)
            if self.qs[m.idx].num_blocked != m.blk + 1 or [x for x in P['Q'] if x[1] == uid]:
                self.bad(['C05'], 'admit', 'an arrival at %r was not refused although %d agents are in the queue with %r servers and buffer %r'
                         % (t, self.nsys(m), m.ns, m.buf), m)
            m.blk += 1
            m.wasfull = True
            if m.cls == 'RES':
                # not specified whether refused agents count as arrivals
                m.arr = self.qs[m.idx].num_arrivals[0] if self.qs[m.idx].num_arrivals[0] in (m.arr, m.arr + 1) else m.arr
            hits = [i for i, e in enumerate(P['L']) if e[1] == uid and e[2] == m.idx]
            if len(hits) != 1 and not (m.cls == 'RES' and len(hits) == 0 and am.kind == 'R'):
                self.bad(['C05'], 'loss', 'add_loss was called %d times for refused agent %d' % (len(hits), uid), m)
            for i in reversed(hits):
                del P['L'][i]
            self.record(m, uid, [t, 0, 0, len(m.wait), self.nsys(m)], 'C05')
            del self.agents[uid]
            return
        if m.buf is not None:
            if q.num_blocked != m.blk:
                self.bad(['C05', 'C06', 'C02'], 'admit', 'an arrival at %r was refused although only %d agents are in the queue with %r servers and buffer %r'
                         % (t, self.nsys(m), m.ns, m.buf), m)
            if m.wasfull:
                self.probe('accepted after having been full')
        m.arr += 1
        serve = len(m.insvc) < m.ns
        self.q_call(P, m, 0, uid)
        n = self.nsys(m) + 1
        row = self.record(m, uid, [t, 0, 0, len(m.wait) + (0 if serve else 1), n])
        if row is not None:
            m.rec[uid] = row
        self.info(m, uid, 0, t, P)
        if serve:
            if m.wait:
                # cannot be: a free server with agents waiting
                self.bad(['C03'], 'idle', 'model: free server while agents wait', m)
            self.start(m, uid, t, P)
        else:
            m.wait.append(uid)
            self.probe('waits')

    def adopt(self, m, am):
        want = self.merge(m.nd, am.nd)
        return want

    def servers(self, m, n, t, P, props=('C04', 'C03')):
        m.ns = n
        if m.cls == 'RES' and n > m.maxs:
            m.over += 1
        k = 0
        while m.wait and len(m.insvc) < n:
            self.start(m, m.wait.popleft(), t, P, props)
            k += 1
        if k:
            self.probe('waiting agents served by added servers')
        return k

    def depart(self, m, uid, t, P):
        """uid leaves m at time t (counters and next service)."""
        m.cur = t
        am = self.agents[uid]
        del m.insvc[uid]
        m.dep += 1
        row = m.rec.pop(uid, None)
        if row is not None and m.collect:
            row[3] = t
        self.q_call(P, m, 2, uid)
        if m.cls == 'RES' and am.kind == 'R':
            if am.res:
                am.res = False
            elif m.ns > 0:
                m.ns -= 1
                if m.ns > m.maxs:
                    m.over += 1
                am.res = True
                self.probe('resource taken')
        self.info(m, uid, 2, t, P)
        if m.wait and len(m.insvc) < m.ns:
            self.start(m, m.wait.popleft(), t, P)

    # -------------------------------------------------------------- steps
    def before(self):
        """Checks the announcements; returns (time, candidates)."""
        self.evp = ()
        times = [self.mtime(m) for m in self.m]
        t = min(times)
        if self.net is not None:
            if t < INF:
                cands = {i: self.mkind(self.m[i]) for i in range(len(times)) if times[i] == t}
                if self.net.time != t:
                    self.bad(['C01'], 'announce', 'network.time is %r, the next event is at %r' % (self.net.time, t))
                ty, e = self.net.next_event_description()
                if e not in cands or {1: 'Arrival', 2: 'Departure'}[cands[e]] != ty:
                    self.bad(['C01'], 'announce', 'announced next event %r, should be one of %r' % ((ty, e), cands))
            else:
                cands = {}
                if self.net.time != INF:
                    self.bad(['C01', 'C17'], 'announce', 'network.time is %r, nothing is scheduled' % self.net.time)
                ty, e = self.net.next_event_description()
                if ty != 'Nothing' or e is not None:
                    self.bad(['C01', 'C17'], 'announce', 'announced next event %r, nothing is scheduled' % ((ty, e),))
        else:
            cands = {0: self.mkind(self.m[0])} if t < INF else {}
        if len(cands) > 1:
            self.probe('simultaneous events')
        return t, cands

    def after_event(self, t, cands, P):
        """The model does the event that took place."""
        self.steps += 1
        self.drained = False
        net = self.net
        if net is None:
            m = self.m[0]
            if cands[0] == 1:
                self.ev_arrival(m, t, P)
            else:
                uids = [e[1] for e in P['Q'] if e[3] == 2]
                uid = self.who_departs(m, t, uids[0] if uids else None, P)
                self.depart(m, uid, t, P)
                del self.agents[uid]
            self.t = t
            self.nev += 1
            self.finish([m], P)
            return
        D = P['D'][0] if P['D'] else None
        act = None
        touched = []
        for e in P['Q']:
            # agents whose time has not come
            m = self.m[e[2]]
            due = m.insvc.get(e[1], t) if e[3] == 2 else max((p[0] for p in m.pend if p[1] == e[1]), default=t) if e[3] == 0 else t
            if due > t:
                self.bad(['C01'], 'early', 'agent %d, due at %r, takes part in the event at %r' % (e[1], due, t), m)
        if D is not None:
            P['D'].pop(0)
            m1 = self.m[D[2]]
            uid = D[1]
            if cands.get(m1.idx) != 2 or m1.insvc.get(uid) != t:
                self.bad(['C01', 'C03'], 'order', 'agent %d is asked for its destination at edge %d, but due at %r is %r' % (uid, m1.idx, t, cands), m1)
            e2 = D[3]
            u, v = self.qs[m1.idx].edge[:2]
            if e2 not in net.out_edges[v] or self.qs[e2].edge[0] != v:
                self.bad(['C09'], 'route', 'agent %d is sent from edge %r to edge %r' % (uid, self.qs[m1.idx].edge, self.qs[e2].edge), m1)
            am = self.agents[uid]
            if am.kind in 'ARI' and self.P_of(v, e2) <= 0:
                self.bad(['C09'], 'route', 'agent %d takes edge %r, which has probability zero' % (uid, self.qs[e2].edge), m1)
            for G in P['G']:
                if G[1] == uid:
                    want = G[2][min(range(len(G[3])), key=lambda i: (G[3][i], i))]
                    if want != G[4]:
                        self.bad(['C09'], 'greedy', 'GreedyAgent takes edge %d, the queues %r have lengths %r' % (G[4], G[2], G[3]), m1)
                    if len(set(G[3])) < len(G[3]):
                        self.probe('greedy tie')
            P['G'] = []
            m2 = self.m[e2]
            if cands.get(e2) == 1:
                # an arrival at the destination at this very time goes first
                self.probe('arrival ties with a move')
                act = ('arr', m2)
            else:
                act = ('dep', m1)
        else:
            for i, k in sorted(cands.items()):
                if k == 1 and self.changed(i):
                    act = ('arr', self.m[i])
                    break
            if act is None:
                others = [i for i in range(len(self.m)) if i not in cands and self.m[i].cls != 'NULL' and self.changed(i)]
                if others:
                    self.bad(['C01'], 'order', 'the event took place at edge %d (time %r), due at %r were edges %r'
                             % (others[0], self.mtime(self.m[others[0]]), t, sorted(cands)), self.m[others[0]])
                if not [k for k in cands.values() if k == 1]:
                    self.bad(['C01', 'C02', 'C17'], 'noevent', 'a departure at %r is due at edges %r, but did not take place' % (t, sorted(cands)))
                self.bad(['C01', 'C02', 'C17', 'C07'], 'noevent', 'nothing took place; due at %r are edges %r' % (t, cands))
        self.t = t
        self.nev += 1
        if act[0] == 'arr':
            m = act[1]
            if m.active and self.max < INF and self.nagents() > self.max - 1:
                m.active = False
                m.bymax = True
                self.probe('stream stopped by max_agents')
            self.ev_arrival(m, t, P)
            touched = [m]
        else:
            touched = [m1, m2]
            if self.blocked(m2, am, e2 == m1.idx):
                self.ev_blocked(m1, m2, uid, t, D[4], P)
            else:
                if am.blocked:
                    self.probe('blocked agent got through')
                self.depart(m1, uid, t, P)
                if m2.cls != 'NULL' and m2.active and self.max < INF and self.nagents() + 1 > self.max - 1:
                    m2.active = False
                    m2.bymax = True
                    self.probe('stream stopped by max_agents')
                self.arrive(m2, uid, t, False, P)
        self.finish(touched, P)

    def blocked(self, m2, am, own):
        if m2.cls == 'RES' and am.kind == 'R' and am.res:
            return False
        if own:
            return m2.buf is not None and self.nsys(m2) > m2.ns + m2.buf
        return self.full(m2)

    def P_of(self, v, e):
        i = self.net.out_edges[v].index(e)
        ps = self.probs.get(v) if getattr(self, 'probs', None) else None
        if ps is None:
            return 1.0
        return ps.get(self.qs[e].edge[1], 0.0)

    def who_departs(self, m, t, uid, P):
        if uid is None:
            self.bad(['C03', 'C02'], 'nodep', 'a departure is due at %r, none took place' % t, m)
        if m.insvc.get(uid) != t:
            self.bad(['C03'], 'deptime', 'agent %d departs at %r, its service ends at %r' % (uid, t, m.insvc.get(uid)), m)
        return uid

    def ev_arrival(self, m, t, P):
        due = [p for p in m.pend if p[0] == t]
        uid = None
        if len(due) > 1:
            ids = {p[1] for p in due}
            for e in P['Q'] + P['L']:
                if e[1] in ids and e[2] == m.idx and (e[0] == 'L' or e[3] == 0):
                    uid = e[1]
                    break
        p = [x for x in due if x[1] == uid]
        p = p[0] if p else due[0]
        m.pend.remove(p)
        self.arrive(m, p[1], t, True, P)

    def ev_blocked(self, m1, m2, uid, t, agent, P):
        self.evp = ('C06',)
        am = self.agents[uid]
        self.probe('blocked move (%s)' % ('BAS' if self.bas else 'RS'))
        if am.blocked:
            self.probe('blocked again')
        q2 = self.qs[m2.idx]
        m2.blk += 1
        am.blocked += 1
        if q2.num_blocked != m2.blk:
            props = ['C06', 'C05']
            if [e for e in P['Q'] if e[1] == uid]:
                self.bad(['C06', 'C05', 'C02'], 'block', 'agent %d left although edge %d is full (%d agents, %r servers, buffer %r)'
                         % (uid, m2.idx, self.nsys(m2), m2.ns, m2.buf), m1)
            self.bad(props, 'block', 'num_blocked is %r after a refused move, expected %r' % (q2.num_blocked, m2.blk), m2)
        if agent.blocked != am.blocked:
            self.bad(['C06'], 'block', 'blocked of agent %d is %r, expected %r' % (uid, agent.blocked, am.blocked), m1)
        nt = getattr(agent, '_time', None)
        if nt is None:
            raise Taint('no _time')
        if self.bas and m1 is not m2:
            d = min(m2.insvc.values(), default=INF)
            if P['S'].get(m1.idx):
                self.bad(['C06'], 'block', 'a blocked agent got another service under BAS', m1)
            if d == INF:
                self.probe('blocked at a queue without services')
                ok = nt > t
            else:
                ok = d < nt <= max(d + 1e-6, float(np.nextafter(d, INF)))
            if not ok:
                self.bad(['C06'], 'block', 'agent %d tries again at %r, the next departure from edge %d is at %r' % (uid, nt, m2.idx, d), m1)
        else:
            lst = P['S'].get(m1.idx)
            if not lst:
                self.bad(['C06'], 'block', 'a blocked agent got no further service under RS', m1)
            e = lst.pop(0)
            if e[2] != t:
                self.bad(['C06'], 'block', 'the further service starts at %r instead of %r' % (e[2], t), m1)
            self.fresh(m1, 'S', e, ['C03', 'C06'])
            if nt != e[3]:
                self.bad(['C06'], 'block', 'agent %d departs at %r, its further service ends at %r' % (uid, nt, e[3]), m1)
        m1.insvc[uid] = nt

    def finish(self, touched, P):
        self.leftovers(P)
        if self.t > self.maxt:
            self.maxt = self.t
        if self.net is None or len(self.m) <= 10 or self.steps % 16 == 0:
            self.compare(self.m)
        else:
            self.compare(touched)

    # -------------------------------------------------------- comparison
    def obs(self, q):
        return (q.time, q.current_time, q.num_system, q.number_queued(), list(q.num_arrivals), q.num_departures, q.active, q.num_servers)

    def changed(self, i):
        m, q = self.m[i], self.qs[i]
        na = q.num_arrivals
        if na[1] != m.oarr or (m.cls != 'RES' and na[0] != m.arr) or q.num_system != self.nsys(m) or q.num_departures != m.dep:
            return True
        if q.time != self.mtime(m) or q.num_servers != m.ns:
            return True
        if m.cls == 'RES' and na[0] != m.arr:
            return True
        return m.buf is not None and q.num_blocked != m.blk

    def compare(self, ms):
        net = self.net
        if net is not None:
            if self.nev and net.current_time != self.t and not getattr(self, 'drained', False):
                self.bad(['C01'], 'clock', 'network.current_time is %r after an event at %r' % (net.current_time, self.t))
            if net.num_events != self.nev:
                self.bad(['C01', 'C17'], 'nevents', 'num_events is %r after %d events' % (net.num_events, self.nev))
        for m in ms:
            q = self.qs[m.idx]
            if m.cls == 'NULL':
                if net is not None and net.num_agents[m.idx] != 0:
                    self.bad(['C02'], 'count', 'num_agents of a NullQueue is %r' % net.num_agents[m.idx], m)
                continue
            t = self.mtime(m)
            if q.current_time != m.cur:
                self.bad(['C01'], 'clock', 'current_time is %r, its last event was at %r' % (q.current_time, m.cur), m)
            na = q.num_arrivals
            n = self.nsys(m)
            if q.num_system != n:
                self.bad(['C02'] + (['C05'] if m.buf is not None else []), 'count', 'num_system is %r, %d agents are there' % (q.num_system, n), m)
            if q.number_queued() != len(m.wait):
                self.bad(['C02', 'C03'], 'count', 'number_queued() is %r, %d agents wait' % (q.number_queued(), len(m.wait)), m)
            if na[0] != m.arr:
                self.bad(['C02'], 'count', 'num_arrivals[0] is %r, %d agents arrived' % (na[0], m.arr), m)
            if na[1] != m.oarr:
                self.bad(['C07', 'C02'], 'count', 'num_arrivals[1] is %r, %d agents were created' % (na[1], m.oarr), m)
            if q.num_departures != m.dep:
                self.bad(['C02'], 'count', 'num_departures is %r, %d agents departed' % (q.num_departures, m.dep), m)
            if q.num_servers != m.ns:
                self.bad(['C04', 'C03'] if m.cls != 'RES' else ['C15', 'C04'], 'servers', 'num_servers is %r, expected %r' % (q.num_servers, m.ns), m)
            if bool(q.active) != m.active:
                p = ['C07', 'C08'] if net is not None and self.max < INF else ['C07']
                self.bad(p, 'active', 'active is %r, expected %r' % (q.active, m.active), m)
            if q.time != t:
                self.bad(['C01', 'C03'], 'qtime', 'time is %r, its next event is at %r' % (q.time, t), m)
            k = self.mkind(m)
            self.states.add((((((((CLS[m.cls] * 4 + k) * 2 + m.active) * 2 + m.collect) * 2 + self.bas) * 8 + min(len(m.insvc), 7)) * 8
                              + min(len(m.wait), 7)) * 8 + int(min(m.ns, 7))) * 4 + (0 if m.buf is None else 1 + (n >= m.ns + m.buf)))
            if q.next_event_description() != k:
                self.bad(['C01'], 'qkind', 'next_event_description() is %r, expected %r' % (q.next_event_description(), k), m)
            if m.buf is not None:
                if q.num_blocked != m.blk:
                    self.bad(['C05', 'C06'], 'blk', 'num_blocked is %r, expected %r' % (q.num_blocked, m.blk), m)
                if bool(q.at_capacity()) != self.full(m):
                    self.bad(['C05'], 'capacity', 'at_capacity() is %r with %d agents, %r servers, buffer %r' % (q.at_capacity(), n, m.ns, m.buf), m)
            elif q.at_capacity():
                self.bad(['C05'], 'capacity', 'at_capacity() of a queue without limit', m)
            if m.cls == 'RES' and q.over_max != m.over:
                self.bad(['C15'], 'over', 'over_max is %r, expected %r' % (q.over_max, m.over), m)
            if m.cls == 'INFO':
                if not self.same_info(q.net_data, m.nd, None):
                    if not self.tie_info(q.net_data, m.nd):
                        self.bad(['C16'], 'info', 'the queue knows %r, expected %r' % (q.net_data.tolist(), m.nd.tolist()), m)
                m.nd = q.net_data.copy()
            if net is not None and net.num_agents[m.idx] != self.total(m):
                self.bad(['C02', 'C08'], 'numagents', 'num_agents is %r, %d agents are at or scheduled for the queue' % (net.num_agents[m.idx], self.total(m)), m)

    def tie_info(self, got, want):
        """Entries may differ only where they are equally old."""
        for i in range(len(want)):
            if not np.array_equal(got[i], want[i]) and got[i][0] != want[i][0]:
                return False
        return True

    # ---------------------------------------------------------- executing
    def call(self, f, *a, **k):
        R.cur = self.w
        try:
            return f(*a, **k)
        finally:
            R.cur = None

    def do_event(self, f):
        """f performs one event."""
        t, cands = self.before()
        self.w.limit = self.w.calls + LIMIT
        self.call(f)
        P = self.take_log()
        if not cands:
            self.leftovers(P)
            if self.net is not None:
                self.drained = True
                if self.net.num_events != self.nev:
                    self.bad(['C01', 'C17'], 'nevents', 'an event was counted when nothing is scheduled')
            self.compare(self.m)
            return False
        self.after_event(t, cands, P)
        return True

    # --------------------------------------------------------- operations
    def op_setn(self, i, n):
        m = self.m[i]
        if m.cls == 'NULL':
            return
        lacking = m.ns > n
        self.call(self.qs[i].set_num_servers, n)
        n = INF if n == INF else int(n)
        P = self.take_log()
        m.setn += 1
        self.servers(m, n, m.cur, P)
        self.w.fire('servers taken away' if lacking else 'servers added')
        self.leftovers(P)
        self.compare(self.m)

    def op_setn_invalid(self, i, n, exc):
        m = self.m[i]
        if m.cls in ('NULL', 'RES'):
            return
        m.setn += 1
        try:
            self.call(self.qs[i].set_num_servers, n)
        except exc:
            pass
        except Exception as e:
            self.bad(['C04'], 'invalid', 'set_num_servers(%r) raised %r' % (n, e), m)
        else:
            self.bad(['C04'], 'invalid', 'set_num_servers(%r) raised nothing' % (n,), m)
        self.leftovers(self.take_log())
        self.compare(self.m)

    def activate(self, m, P, now=None):
        if m.active:
            return
        if now is not None and m.cur < now < INF:
            m.cur = now
        if m.oarr >= m.cap:
            return
        m.active = True
        m.bymax = False
        if m.cur >= m.next_ct or not m.pend:
            if m.pend:
                raise Taint('activation at the very time of a scheduled arrival')
            if m.cur < m.next_ct:
                raise Taint('activation of a queue whose clock went back')
            self.external(m, m.cur, P)
        self.probe('activated')

    def op_active(self, i, on):
        m = self.m[i]
        if m.cls == 'NULL':
            return
        if on:
            if m.pend and m.cur >= m.next_ct:
                return
            self.call(self.qs[i].set_active)
            P = self.take_log()
            self.activate(m, P)
            self.w.fire('arrivals switched on')
        else:
            self.call(self.qs[i].set_inactive)
            P = self.take_log()
            m.active = False
            self.w.fire('arrivals switched off')
        self.leftovers(P)
        self.compare(self.m)

    def select(self, ids, sel, name='edge'):
        if sel is not None and ids:
            self.probe('selected by ' + sel)
        return world.select(self.qs, ids, sel, name)

    def op_init(self, queues=None, n=None, sel=None):
        live = [m for m in self.m if m.cls != 'NULL']
        if not live:
            raise Taint('nothing to initialize')
        now = self.net.current_time
        if now == INF:
            return False        # going on after everything ended is not specified
        if any(m.pend and max(m.cur, now) >= m.next_ct for m in live):
            return False
        if any(not m.pend and max(m.cur, now) < m.next_ct for m in live):
            return False        # the clock went back (an earlier set_num_servers on a queue)
        if queues is not None:
            qs = []
            for i in queues:
                i = live[i % len(live)].idx
                if i not in qs:
                    qs.append(i)
            kw = dict(queues=qs)
            if sel is not None:
                # (those of a set are activated in no certain order)
                ids, kw2 = self.select(qs, sel, 'edges')
                ids = [i for i in ids if self.m[i].cls != 'NULL']
                if sel != 'set' or len(ids) <= self.max:
                    qs, kw = ids, kw2
            self.call(self.net.initialize, **kw)
            P = self.take_log()
            use = qs if len(qs) <= self.max else qs[:int(self.max)]
            if len(qs) > self.max:
                self.probe('initialize beyond max_agents')
            before = self.nagents()
            for i in use:
                self.activate(self.m[i], P, now)
            for i, lst in P['A'].items():
                if lst and i not in use:
                    self.bad(['C08', 'C07'], 'init', 'initialize activated queue %d' % i, self.m[i])
        else:
            inact = [m for m in live if not m.active and m.oarr < m.cap]
            self.call(self.net.initialize, nActive=n)
            log = list(self.w.log)
            P = self.take_log()
            got = []
            for e in log:
                if e[0] == 'A' and self.k2i[e[1]] not in got:
                    got.append(self.k2i[e[1]])
            # queues reactivated while their arrival is still scheduled call nothing
            for m in inact:
                if m.idx not in got and self.qs[m.idx].active and m.pend:
                    got.append(m.idx)
            lim = min(n, len(live), self.max)
            if len(got) > lim or (len(inact) == len(live) and len(got) < lim):
                self.bad(['C08', 'C07'], 'init', 'initialize(%d) activated %d queues of %d, max_agents %r' % (n, len(got), len(live), self.max))
            for i in got:
                self.activate(self.m[i], P, now)
            for m in live:
                # one at its active_cap may have been picked as well
                if not m.active and m.oarr >= m.cap and m.cur < now < INF and self.qs[m.idx].current_time == now:
                    m.cur = now
        self.leftovers(P)
        self.compare(self.m)
        return True

    def op_delay(self, i, t):
        m = self.m[i]
        if m.cls == 'NULL' or not m.insvc:
            return
        d = min(m.insvc.values())
        uids = [u for u, x in m.insvc.items() if x == d]
        if len(uids) != 1 or d == INF:
            return
        if t is None:
            self.call(self.qs[i].delay_service)
            P = self.take_log()
            lst = P['S'].get(m.idx)
            if not lst or lst[0][2] != d:
                self.bad(['C03', 'C01'], 'delay', 'delay_service() did not draw a further service at %r: %r' % (d, lst), m)
            e = lst.pop(0)
            self.fresh(m, 'S', e, ['C03'])
            m.insvc[uids[0]] = e[3]
        else:
            self.call(self.qs[i].delay_service, d + t)
            P = self.take_log()
            m.insvc[uids[0]] = d + t
        self.w.fire('service delayed')
        self.leftovers(P)
        self.compare(self.m)

    # --------------------------------------------------------------- data
    def collect(self, idxs, on):
        for i in idxs:
            self.m[i].collect = on
        self.w.fire('data collection ' + ('on' if on else 'off'))

    def cleardata(self, idxs):
        for i in idxs:
            self.m[i].rows = []
            self.m[i].special = []
            self.m[i].rec = {}
        self.w.fire('data cleared')

    def check_data(self, idxs=None, kw=None):
        C = ['C10']
        net = self.net
        if idxs is None:
            idxs = range(len(self.m))
        allrows = []
        for i in idxs:
            m, q = self.m[i], self.qs[i]
            want = sorted([float(x) for x in r[1:]] + [float(q.edge[2])] for r in m.rows)
            allrows.extend(want)
            got, head = q.fetch_data(return_header=True)
            got = [list(map(float, r)) for r in got]
            if sorted(got) != want:
                lack = {prop for prop, r in m.special if [float(x) for x in r[1:]] + [float(q.edge[2])] not in got}
                self.bad(C + sorted(lack), 'data', self.diff('fetch_data()', want, sorted(got)), m)
            if [r[0] for r in got] != sorted(r[0] for r in got):
                self.bad(C, 'data', 'fetch_data() is not in order of arrival', m)
            if head != 'arrival,service,departure,num_queued,num_total,q_id':
                self.bad(C, 'data', 'header %r' % head, m)
        if net is not None:
            idxs = list(idxs)
            kw = dict(queues=idxs) if kw is None else kw
            got = [list(map(float, r)) for r in net.get_queue_data(**kw)]
            if sorted(got) != sorted(allrows):
                self.bad(C, 'data', self.diff('get_queue_data(%r)' % kw, sorted(allrows), sorted(got)))
            want = {}
            for i in idxs:
                for r in self.m[i].rows:
                    want.setdefault(r[0], []).append([float(x) for x in r[1:]] + [float(i)])
            got = net.get_agent_data(**kw)
            if set(got) != set(want):
                self.bad(C, 'data', 'get_agent_data has agents %r, expected %r' % (sorted(got)[:8], sorted(want)[:8]))
            for k, rows in got.items():
                rows = [list(map(float, r)) for r in rows]
                if sorted(rows) != sorted(want[k]):
                    self.bad(C, 'data', self.diff('get_agent_data()[%r]' % (k,), sorted(want[k]), sorted(rows)))
                if [r[0] for r in rows] != sorted(r[0] for r in rows):
                    self.bad(C, 'data', 'get_agent_data()[%r] is not in order of arrival' % (k,))
        self.probe('data compared')
        if allrows:
            self.probe('data compared (non-empty)')

    @staticmethod
    def diff(what, want, got):
        w = [r for r in want if r not in got][:2]
        g = [r for r in got if r not in want][:2]
        return '%s: %d records, expected %d; wrong %r, missing %r' % (what, len(got), len(want), g, w)

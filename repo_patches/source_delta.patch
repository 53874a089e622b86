From f9b29c7e6a1f9d07abf5504474e9528d91424844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 01/55] fix: do not simulate events that already took place

A queue's next event could be in the network's heap more than once. When
the queue ran empty the leftover entry was simulated again: nothing
happened, but it was counted in num_events and in simulate(n).
---
 queueing_tool/network/queue_network.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 3547f21..cb46a33 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1305,6 +1305,16 @@ class QueueNetwork(object):
             return
 
         q1k = self._fancy_heap.pop()
+
+        # The heap can still hold an entry for an event that has already
+        # taken place. Such an entry is not an event, so skip over it.
+        while q1k is not None and q1k[0] != self.edge2queue[q1k[1]]._time:
+            q1k = self._fancy_heap.pop() if self._fancy_heap.size > 0 else None
+
+        if q1k is None:
+            self._t = np.infty
+            return
+
         q1t = q1k[0]
         q1 = self.edge2queue[q1k[1]]
         e1 = q1.edge[2]
-- 
2.43.0


From cb7edb99ebd0ec0f323137dac3431eae44201507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 02/55] fix: QueueNetwork.time is the time of the next event

It was read off the top of the heap, which can be an outdated entry of a
queue whose next event was rescheduled. For the same reason
next_event_description announced a departure when nothing was left.
---
 queueing_tool/network/queue_network.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index cb46a33..7283d5d 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -401,12 +401,7 @@ class QueueNetwork(object):
 
     @property
     def time(self):
-        if self._fancy_heap.size > 0:
-            e = self._fancy_heap.array_edges[0]
-            t = self.edge2queue[e]._time
-        else:
-            t = np.infty
-        return t
+        return min(q._time for q in self.edge2queue)
 
     def animate(self, out=None, t=None, line_kwargs=None,
                 scatter_kwargs=None, **kwargs):
@@ -998,7 +993,7 @@ class QueueNetwork(object):
             The edge index of the edge that this event will occur at.
             If there are no events then ``None`` is returned.
         """
-        if self._fancy_heap.size == 0:
+        if self._fancy_heap.size == 0 or self.time == np.infty:
             event_type = 'Nothing'
             edge_index = None
         else:
-- 
2.43.0


From 944380f5d76466eb42e09d2bafb55970e8023ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 03/55] fix: a ResourceAgent takes one resource, when it
 departs

queue_action is also called on arrival and at the start of service, and
the agent took a resource on arrival, gave it up (without adding it back
to the queue) when its service started, and took another on departure.
---
 queueing_tool/queues/queue_extentions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 2a5150f..d98dbba 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -43,6 +43,9 @@ class ResourceAgent(Agent):
             The instance of the queue that the ``ResourceAgent`` will
             interact with.
         """
+        if args and args[0] != 2:
+            return
+
         if isinstance(queue, ResourceQueue):
             if self._has_resource:
                 self._has_resource = False
-- 
2.43.0


From f017773e2d185b4fde87382d5f60dd1800cd8637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 04/55] fix: arrivals to a ResourceQueue go on after one is
 blocked

When an arriving ResourceAgent was blocked the next arrival from outside
the network was not scheduled, so that no more agents arrived although
the queue was still active.
---
 queueing_tool/queues/queue_extentions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index d98dbba..c1c36c2 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -165,6 +165,9 @@ class ResourceQueue(LossQueue):
                     arrival = heappop(self._arrivals)
                     self._current_t = arrival._time
 
+                    if self._active:
+                        self._add_arrival()
+
                     if self.collect_data:
                         if arrival.agent_id not in self.data:
                             self.data[arrival.agent_id] = [[arrival._time, 0, 0, len(self.queue), self.num_system]]
-- 
2.43.0


From bc7df7f9939cb88c24d74d06cd1b63a6e103a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 05/55] fix: InfoQueue can reach its deactive_t

It assigned to the read-only property active, which raised an
AttributeError.
---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index c1c36c2..a14f39f 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -319,7 +319,7 @@ class InfoQueue(LossQueue):
                 self._next_ct = self.arrival_f(self._current_t)
 
                 if self._next_ct >= self.deactive_t:
-                    self.active = False
+                    self._active = False
                     return
 
                 self._num_total += 1
-- 
2.43.0


From 648e464d3ca200f7d508c25b1d469cc5d7223a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 06/55] fix: set_num_servers starts no more services than there
 are servers

When the number of servers had been decreased while they were all busy, a
later increase started one service per added server, although agents that
were already in service occupied them. Going from infinitely many servers
to infinitely many raised a TypeError.
---
 queueing_tool/queues/queue_servers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 6a196cc..3161752 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -690,7 +690,10 @@ class QueueServer(object):
             the_str = "n must be a positive integer or infinity.\n{0}"
             raise ValueError(the_str.format(str(self)))
         else:
-            agents_to_queue = max(min(n - self.num_servers, len(self.queue)), 0)
+            # After a decrease there can be more agents in service than
+            # there are servers.
+            num_servicing = self.num_system - len(self.queue)
+            agents_to_queue = max(min(n - num_servicing, len(self.queue)), 0)
 
             for _ in range(agents_to_queue):
                 self._service_from_queue()
-- 
2.43.0


From 66b4ce8f80ae1c2ebc84a76495d755f89d2d60ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 07/55] fix: a copied QueueNetwork has a complete graph

The graph's copy method left out the edge indices, colors and positions,
so that clear, draw, animate and selecting queues by edge raised errors on
the copy.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 7283d5d..2c68a14 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -637,7 +637,7 @@ class QueueNetwork(object):
     def copy(self):
         """Returns a deep copy of itself."""
         net = QueueNetwork(None)
-        net.g = self.g.copy()
+        net.g = copy.deepcopy(self.g)
         net.max_agents = copy.deepcopy(self.max_agents)
         net.nV = copy.deepcopy(self.nV)
         net.nE = copy.deepcopy(self.nE)
-- 
2.43.0


From 8687777e78008c4c8187f07e2e84d18e8a743433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 08/55] fix: set_active respects active_cap

Activating a queue that had reached its cap let one more agent arrive
from outside the network each time.
---
 queueing_tool/queues/queue_servers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 3161752..ada95bc 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -658,7 +658,7 @@ class QueueServer(object):
         """Changes the ``active`` attribute to True. Agents may now
         arrive from outside the network.
         """
-        if not self._active:
+        if not self._active and self._oArrivals < self.active_cap:
             self._active = True
             self._add_arrival()
 
-- 
2.43.0


From 6e770d1ec245d2a2d07f4f4e2e5784397e4e5c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 09/55] fix: QueueNetwork.clear removes the data of NullQueues

Their data survived a clear and was mixed with that of the next
simulation, where agents have the same ids.
---
 queueing_tool/queues/queue_servers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index ada95bc..1cdfd57 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -956,4 +956,4 @@ class NullQueue(QueueServer):
         return color
 
     def clear(self):
-        pass
+        self.data = {}
-- 
2.43.0


From 643fe2ea1426570370f66f142c56b9d63f2d85aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 10/55] fix: ResourceQueue lets ResourceAgents use its buffer

A ResourceAgent was turned away when all servers were busy even if there
was room in the buffer. In a network at_capacity was False then, so that
an agent coming from another queue was lost. An added resource now also
serves the agents waiting for one, as it does in the other queues.
---
 queueing_tool/queues/queue_extentions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index a14f39f..1806cda 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -107,6 +107,11 @@ class ResourceQueue(LossQueue):
         return my_str.format(*arg)
 
     def set_num_servers(self, n):
+        num_servicing = self.num_system - len(self.queue)
+        for _ in range(max(min(n - num_servicing, len(self.queue)), 0)):
+            self._service_from_queue()
+
+        self._update_time()
         self.num_servers = n
         if n > self.max_servers:
             self.over_max += 1
@@ -155,7 +160,7 @@ class ResourceQueue(LossQueue):
                     else:
                         self._time = self._departures[0]._time
 
-                elif self.num_system < self.num_servers:
+                elif not self.at_capacity():
                     super(ResourceQueue, self).next_event()
 
                 else:
-- 
2.43.0


From 0131e0427281f3ceaf40e4739ab58faba8f504fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 11/55] fix: animate colors the vertex of the previous event

The color of a loop was assigned to the vertex of the current event
instead of to the vertex of the loop.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 2c68a14..b4e6c8e 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1589,7 +1589,7 @@ class QueueNetwork(object):
                 self.g.set_ep(pe, 'edge_color', q._current_color(1))
                 self.g.set_vp(pv, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
-                    self.g.set_vp(v, 'vertex_fill_color', q._current_color())
+                    self.g.set_vp(pv, 'vertex_fill_color', q._current_color())
 
             else:
                 self.g.set_ep(pe, 'edge_color', q._current_color())
-- 
2.43.0


From bc3f157add833762df7c4e520897741b4bfc7c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 12/55] fix: InfoQueue extracts information from every arriving
 agent

When an arrival and a departure fall on the same time the arrival takes
place first, but then its information was not extracted.
---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 1806cda..ffdc9a9 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -341,7 +341,7 @@ class InfoQueue(LossQueue):
             self._time = self._arrivals[0]._time
 
     def next_event(self):
-        if self._arrivals[0]._time < self._departures[0]._time:
+        if not self._departures[0]._time < self._arrivals[0]._time:
             self.extract_information(self._arrivals[0])
 
         return super(InfoQueue, self).next_event()
-- 
2.43.0


From 583e28f863a16279ed47dab90ae93d4fd9cf1b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 13/55] fix: an arrival that ties with a departure takes place
 first

An agent that left a queue at the very time of an arrival from outside at
its destination was lost when that arrival took the last free place: its
room had been checked before the arrival took place.
---
 queueing_tool/network/queue_network.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index b4e6c8e..e197a79 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1315,15 +1315,24 @@ class QueueNetwork(object):
         e1 = q1.edge[2]
 
         event = q1.next_event_description()
-        self._t = q1t
-        self._qkey = q1k
-        self.num_events += 1
 
         if event == 2:  # This is a departure
             e2 = q1._departures[0].desired_destination(self, q1.edge)
             q2 = self.edge2queue[e2]
             q2k = q2._key()
 
+            if q2k[0] == q1t and q2.next_event_description() == 1:
+                # There is an arrival at q2 at this very time. It takes
+                # place first, otherwise it can take the room q2 has left
+                # for the departing agent.
+                self._fancy_heap.push(*q1k)
+                q1k, q1, e1, event = q2k, q2, e2, 1
+
+        self._t = q1t
+        self._qkey = q1k
+        self.num_events += 1
+
+        if event == 2:
             if q2.at_capacity() and e2 != e1:
                 q2.num_blocked += 1
                 q1._departures[0].blocked += 1
-- 
2.43.0


From 97ba46da30e948cdbd82c2cc32110cdaaa176aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 14/55] fix: initialize does not schedule arrivals in the past

Initializing a queue that had been idle while the network was simulated
scheduled its first arrival from the time of its own last event, and the
clock of the network went back to it.
---
 queueing_tool/network/queue_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index e197a79..7926793 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -972,7 +972,10 @@ class QueueNetwork(object):
             queues = queues[:self.max_agents]
 
         for ei in queues:
-            self.edge2queue[ei].set_active()
+            q = self.edge2queue[ei]
+            if not q._active and q._current_t < self._t < np.infty:
+                q._current_t = self._t
+            q.set_active()
             self.num_agents[ei] = self.edge2queue[ei]._num_total
 
         keys = [q._key() for q in self.edge2queue if q._time < np.infty]
-- 
2.43.0


From 1d63a7d37d0c46d8c406e8c16a78e556a73d4d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 15/55] fix: simulate notices changes made to the queues
 between calls

The network's heap was only told about events that the network itself
simulated. After set_num_servers, delay_service or set_active on one of its
queues the next event of that queue took place at the wrong time or never.
---
 queueing_tool/network/queue_network.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 7926793..943c9c1 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -503,6 +503,7 @@ class QueueNetwork(object):
             msg = "Matplotlib is necessary to animate a simulation."
             raise ImportError(msg)
 
+        self._update_heap()
         self._update_all_colors()
         kwargs.setdefault('bgcolor', self.colors['bgcolor'])
 
@@ -1289,6 +1290,8 @@ class QueueNetwork(object):
             msg = ("Network has not been initialized. "
                    "Call '.initialize()' first.")
             raise QueueingToolError(msg)
+
+        self._update_heap()
         if t is None:
             for dummy in range(n):
                 self._simulate_next_event(slow=False)
@@ -1297,6 +1300,16 @@ class QueueNetwork(object):
             while self._t < now + t:
                 self._simulate_next_event(slow=False)
 
+    def _update_heap(self):
+        """Makes the heap agree with the queues, which can have been changed
+        (with ``set_num_servers`` for example) since the last event.
+        """
+        times = self._fancy_heap.q_map()
+        if any(q._time != times[k] and q._time < np.infty
+               for k, q in enumerate(self.edge2queue)):
+            keys = [q._key() for q in self.edge2queue if q._time < np.infty]
+            self._fancy_heap = PriorityQueue(keys, self.nE)
+
     def _simulate_next_event(self, slow=True):
         if self._fancy_heap.size == 0:
             self._t = np.infty
-- 
2.43.0


From 3d0ab29239ea93761b45d9c0d6e5bd58c28db72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:45 +0000
Subject: [PATCH 16/55] fix: do not write a visit's times in the record of
 another visit

When an agent arrived while data was not being collected, and collection
was started before its service or departure, these times overwrote the
ones of the agent's previous visit.
---
 queueing_tool/queues/queue_servers.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 1cdfd57..970fdb4 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -490,8 +490,8 @@ class QueueServer(object):
 
     def _service_from_queue(self):
         agent = self.queue.popleft()
-        if self.collect_data and agent.agent_id in self.data:
-            self.data[agent.agent_id][-1][1] = self._current_t
+        if self.collect_data and agent._record is not None:
+            agent._record[1] = self._current_t
 
         agent._time = self.service_f(self._current_t)
         agent.queue_action(self, 1)
@@ -585,8 +585,8 @@ class QueueServer(object):
             self.num_system -= 1
             self.num_departures += 1
 
-            if self.collect_data and new_depart.agent_id in self.data:
-                self.data[new_depart.agent_id][-1][2] = self._current_t
+            if self.collect_data and new_depart._record is not None:
+                new_depart._record[2] = self._current_t
 
             num_queued = len(self.queue)
             # This is the number of agents currently being serviced by
@@ -621,11 +621,15 @@ class QueueServer(object):
                     self.data[arrival.agent_id]\
                         .append([arrival._time, 0, 0, len(self.queue) + b, self.num_system])
 
+            # The record of this visit, which an earlier one must not be
+            # mistaken for when the data was not collected all the time.
+            arrival._record = self.data[arrival.agent_id][-1] if self.collect_data else None
+
             arrival.queue_action(self, 0)
 
             if self.num_system <= self.num_servers:
-                if self.collect_data:
-                    self.data[arrival.agent_id][-1][1] = arrival._time
+                if self.collect_data and arrival._record is not None:
+                    arrival._record[1] = arrival._time
 
                 arrival._time = self.service_f(arrival._time)
                 arrival.queue_action(self, 1)
-- 
2.43.0


From cefb1e6d42821e7d56c217bf8c69f5e64444ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 17/55] fix: agents do not take an edge with probability zero

The last edge was taken whenever the draw was above the sum of the
probabilities, which set_transitions lets be as low as 0.99999, and the
first one when the draw was zero.
---
 queueing_tool/queues/agents.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/agents.py b/queueing_tool/queues/agents.py
index 74435bc..d41f62f 100644
--- a/queueing_tool/queues/agents.py
+++ b/queueing_tool/queues/agents.py
@@ -1,8 +1,12 @@
+from sys import float_info
+
 from numpy import infty
 from numpy.random import uniform
 
 from queueing_tool.queues.choice import _choice, _argmin
 
+TINY = float_info.min
+
 
 class Agent(object):
     """The base class for an agent.
@@ -100,8 +104,12 @@ class Agent(object):
         if n <= 1:
             return network.out_edges[edge[1]][0]
 
-        u = uniform()
         pr = network._route_probs[edge[1]]
+
+        # With u in (0, sum(pr)] an edge with probability zero is never
+        # chosen, also when u is zero or the probabilities sum to slightly
+        # less than one.
+        u = max(uniform() * sum(pr), TINY)
         k = _choice(pr, u, n)
 
         # _choice returns an integer between 0 and n-1 where the
-- 
2.43.0


From a6bcc24b0f67c682f2092727e63b4bc02baa88a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 18/55] fix: PriorityQueue.push on a queue that was created
 empty

The array was resized to twice its size, zero, and then written to out of
its bounds.
---
 queueing_tool/network/priority_queue.c   | 24 ++++++++++++------------
 queueing_tool/network/priority_queue.pyx |  6 +++---
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/queueing_tool/network/priority_queue.c b/queueing_tool/network/priority_queue.c
index 0e6dcdf..210605b 100644
--- a/queueing_tool/network/priority_queue.c
+++ b/queueing_tool/network/priority_queue.c
@@ -3721,40 +3721,40 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
   /* "queueing_tool/network/priority_queue.pyx":88
  * 
  *         else:
- *             array.resize_smart(self.array_times, 2 * self.size)             # <<<<<<<<<<<<<<
- *             array.resize_smart(self.array_edges, 2 * self.size)
+ *             array.resize_smart(self.array_times, 2 * self.size + 1)             # <<<<<<<<<<<<<<
+ *             array.resize_smart(self.array_edges, 2 * self.size + 1)
  * 
  */
   /*else*/ {
     __pyx_t_3 = ((PyObject *)__pyx_v_self->array_times);
     __Pyx_INCREF(__pyx_t_3);
-    __pyx_t_4 = resize_smart(((arrayobject *)__pyx_t_3), (2 * __pyx_v_self->size)); if (unlikely(__pyx_t_4 == ((int)-1))) __PYX_ERR(0, 88, __pyx_L1_error)
+    __pyx_t_4 = resize_smart(((arrayobject *)__pyx_t_3), ((2 * __pyx_v_self->size) + 1)); if (unlikely(__pyx_t_4 == ((int)-1))) __PYX_ERR(0, 88, __pyx_L1_error)
     __Pyx_DECREF(__pyx_t_3); __pyx_t_3 = 0;
 
     /* "queueing_tool/network/priority_queue.pyx":89
  *         else:
- *             array.resize_smart(self.array_times, 2 * self.size)
- *             array.resize_smart(self.array_edges, 2 * self.size)             # <<<<<<<<<<<<<<
+ *             array.resize_smart(self.array_times, 2 * self.size + 1)
+ *             array.resize_smart(self.array_edges, 2 * self.size + 1)             # <<<<<<<<<<<<<<
  * 
- *             self.actual_size *= 2
+ *             self.actual_size = 2 * self.size + 1
  */
     __pyx_t_3 = ((PyObject *)__pyx_v_self->array_edges);
     __Pyx_INCREF(__pyx_t_3);
-    __pyx_t_4 = resize_smart(((arrayobject *)__pyx_t_3), (2 * __pyx_v_self->size)); if (unlikely(__pyx_t_4 == ((int)-1))) __PYX_ERR(0, 89, __pyx_L1_error)
+    __pyx_t_4 = resize_smart(((arrayobject *)__pyx_t_3), ((2 * __pyx_v_self->size) + 1)); if (unlikely(__pyx_t_4 == ((int)-1))) __PYX_ERR(0, 89, __pyx_L1_error)
     __Pyx_DECREF(__pyx_t_3); __pyx_t_3 = 0;
 
     /* "queueing_tool/network/priority_queue.pyx":91
- *             array.resize_smart(self.array_edges, 2 * self.size)
+ *             array.resize_smart(self.array_edges, 2 * self.size + 1)
  * 
- *             self.actual_size *= 2             # <<<<<<<<<<<<<<
+ *             self.actual_size = 2 * self.size + 1             # <<<<<<<<<<<<<<
  *             self.sorted_times = self.array_times
  *             self.sorted_edges = self.array_edges
  */
-    __pyx_v_self->actual_size = (__pyx_v_self->actual_size * 2);
+    __pyx_v_self->actual_size = ((2 * __pyx_v_self->size) + 1);
 
     /* "queueing_tool/network/priority_queue.pyx":92
  * 
- *             self.actual_size *= 2
+ *             self.actual_size = 2 * self.size + 1
  *             self.sorted_times = self.array_times             # <<<<<<<<<<<<<<
  *             self.sorted_edges = self.array_edges
  * 
@@ -3766,7 +3766,7 @@ static PyObject *__pyx_pf_13queueing_tool_7network_14priority_queue_13PriorityQu
     __pyx_t_5.data = NULL;
 
     /* "queueing_tool/network/priority_queue.pyx":93
- *             self.actual_size *= 2
+ *             self.actual_size = 2 * self.size + 1
  *             self.sorted_times = self.array_times
  *             self.sorted_edges = self.array_edges             # <<<<<<<<<<<<<<
  * 
diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index 44c72f6..c9b9719 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -85,10 +85,10 @@ cdef class PriorityQueue:
             self.sorted_edges[self.size] = k
 
         else:
-            array.resize_smart(self.array_times, 2 * self.size)
-            array.resize_smart(self.array_edges, 2 * self.size)
+            array.resize_smart(self.array_times, 2 * self.size + 1)
+            array.resize_smart(self.array_edges, 2 * self.size + 1)
 
-            self.actual_size *= 2
+            self.actual_size = 2 * self.size + 1
             self.sorted_times = self.array_times
             self.sorted_edges = self.array_edges
 
-- 
2.43.0


From abaf7180b72ae41d08084848324d3f5734d4fde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 19/55] fix: reset_colors gives every edge the color of its own
 queue

The queues were taken in the order of the graph's edges, which is not the
order of the edge indexes when the graph's nodes are not in order.
---
 queueing_tool/network/queue_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 943c9c1..25d61bc 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1012,7 +1012,8 @@ class QueueNetwork(object):
 
     def reset_colors(self):
         """Resets all edge and vertex colors to their default values."""
-        for k, e in enumerate(self.g.edges()):
+        for e in self.g.edges():
+            k = self.g.edge_index[e]
             self.g.set_ep(e, 'edge_color', self.edge2queue[k].colors['edge_color'])
         for v in self.g.nodes():
             self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_fill_color'])
-- 
2.43.0


From fe6660335d593133f6977d9e449d33d11688e28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 20/55] fix: a resource that is taken does not serve a waiting
 agent

A departing ResourceAgent takes its resource along, but the agent that
waited next was put in service with it first. That agent then left without
a resource, and more agents were in service than there were servers.
---
 queueing_tool/queues/queue_servers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 970fdb4..0e197f4 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -588,6 +588,10 @@ class QueueServer(object):
             if self.collect_data and new_depart._record is not None:
                 new_depart._record[2] = self._current_t
 
+            # The action can change the number of servers, so it takes place
+            # before one of the waiting agents is served.
+            new_depart.queue_action(self, 2)
+
             num_queued = len(self.queue)
             # This is the number of agents currently being serviced by
             # the QueueServer. This number need not be equal to 
@@ -598,7 +602,6 @@ class QueueServer(object):
             if num_queued > 0 and num_servicing < self.num_servers:
                 self._service_from_queue()
 
-            new_depart.queue_action(self, 2)
             self._update_time()
             return new_depart
 
-- 
2.43.0


From b9d6a7bd85e94e5e094f98e44a53fba0e25e2c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 21/55] fix: a ResourceAgent can always return its resource

A ResourceQueue whose resources were all taken is at capacity, and the
network blocked the very agents that were returning their resources to it.
With BAS blocking they then waited for a departure that never came.
---
 queueing_tool/network/queue_network.py   | 2 +-
 queueing_tool/queues/queue_extentions.py | 6 ++++++
 queueing_tool/queues/queue_servers.py    | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 25d61bc..4583b3b 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1350,7 +1350,7 @@ class QueueNetwork(object):
         self.num_events += 1
 
         if event == 2:
-            if q2.at_capacity() and e2 != e1:
+            if q2._blocks(q1._departures[0]) and e2 != e1:
                 q2.num_blocked += 1
                 q1._departures[0].blocked += 1
                 if self._blocking:
diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index ffdc9a9..0232428 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -106,6 +106,12 @@ class ResourceQueue(LossQueue):
                self.num_arrivals, self.num_departures, round(self._time, 3))
         return my_str.format(*arg)
 
+    def _blocks(self, agent):
+        # Agents that return a resource do not need any room.
+        if isinstance(agent, ResourceAgent) and agent._has_resource:
+            return False
+        return self.at_capacity()
+
     def set_num_servers(self, n):
         num_servicing = self.num_system - len(self.queue)
         for _ in range(max(min(n - num_servicing, len(self.queue)), 0)):
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 0e197f4..66c8ea2 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -391,6 +391,10 @@ class QueueServer(object):
         """
         return False
 
+    def _blocks(self, agent):
+        # Whether an agent from within the network has to wait elsewhere.
+        return self.at_capacity()
+
     def clear(self):
         """Clears out the queue. Removes all arrivals, departures, and
         queued agents from the :class:`.QueueServer`, resets
-- 
2.43.0


From df4b5d3b8a88a21229222b1fdd9480bf3bf982b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 22/55] fix: color the edges of a new network by their own
 queues

As in reset_colors, the order of the graph's edges need not be the order of
the edge indexes.
---
 queueing_tool/graph/graph_preparation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index e751d00..208734f 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -134,7 +134,8 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
     if 'pos' not in g.vertex_properties():
         g.set_pos()
 
-    for k, e in enumerate(g.edges()):
+    for e in g.edges():
+        k = g.edge_index[e]
         g.set_ep(e, 'edge_pen_width', 1.25)
         g.set_ep(e, 'edge_marker_size', 8)
         if e[0] == e[1]:
-- 
2.43.0


From 974186552ea0667ac6f9086eccff4a5b78a9f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 23/55] fix: set_active on a queue that reached its deactive_t

The time of the arrival that was not created any more was kept as the time
of the next one, so that set_active left the queue active without any
arrival scheduled.
---
 queueing_tool/queues/queue_extentions.py | 5 +++--
 queueing_tool/queues/queue_servers.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 0232428..ae738f5 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -327,12 +327,13 @@ class InfoQueue(LossQueue):
             heappush(self._arrivals, agent)
         else:
             if self._current_t >= self._next_ct:
-                self._next_ct = self.arrival_f(self._current_t)
+                next_ct = self.arrival_f(self._current_t)
 
-                if self._next_ct >= self.deactive_t:
+                if next_ct >= self.deactive_t:
                     self._active = False
                     return
 
+                self._next_ct = next_ct
                 self._num_total += 1
                 new_agent = self.AgentFactory((self.edge[2], self._oArrivals), len(self.net_data))
                 new_agent._time = self._next_ct
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 66c8ea2..c13f196 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -361,12 +361,13 @@ class QueueServer(object):
             heappush(self._arrivals, agent)
         else:
             if self._current_t >= self._next_ct:
-                self._next_ct = self.arrival_f(self._current_t)
+                next_ct = self.arrival_f(self._current_t)
 
-                if self._next_ct >= self.deactive_t:
+                if next_ct >= self.deactive_t:
                     self._active = False
                     return
 
+                self._next_ct = next_ct
                 self._num_total += 1
                 new_agent = self.AgentFactory((self.edge[2], self._oArrivals))
                 new_agent._time = self._next_ct
-- 
2.43.0


From fa562728dc41adcc982d6ab4b583c317e9b13d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 24/55] fix: do not schedule an event when a queue has none

When an agent returned its resource on a loop, or its service never ended,
its queue was left without a next event but put in the heap with time
infinity, and simulating it counted as an event.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 4583b3b..3ab560a 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1384,7 +1384,7 @@ class QueueNetwork(object):
             new_q1k = q1._key()
             new_q2k = q2._key()
 
-            if new_q2k[0] != q2k[0]:
+            if new_q2k[0] != q2k[0] and new_q2k[0] < np.infty:
                 self._fancy_heap.push(*new_q2k)
 
                 if new_q1k[0] < np.infty and new_q1k != new_q2k:
-- 
2.43.0


From 70cba729c67699548dce0c1ae40c18b3a29d8841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 25/55] fix: an agent on a loop is not lost when its queue has
 too many agents

After set_num_servers had lowered the capacity of a LossQueue below the
number of agents in it, an agent that went from it to itself was dropped.
It is blocked now, and served again.
---
 queueing_tool/network/queue_network.py   |  4 ++--
 queueing_tool/queues/queue_extentions.py |  4 ++--
 queueing_tool/queues/queue_servers.py    | 14 +++++++++++---
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 3ab560a..d2b6c7b 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1350,10 +1350,10 @@ class QueueNetwork(object):
         self.num_events += 1
 
         if event == 2:
-            if q2._blocks(q1._departures[0]) and e2 != e1:
+            if q2._blocks(q1._departures[0], e2 == e1):
                 q2.num_blocked += 1
                 q1._departures[0].blocked += 1
-                if self._blocking:
+                if self._blocking and e2 != e1:
                     t = q2._departures[0]._time + EPS * uniform(0.33, 0.66)
                     q1.delay_service(t)
                 else:
diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index ae738f5..da05804 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -106,11 +106,11 @@ class ResourceQueue(LossQueue):
                self.num_arrivals, self.num_departures, round(self._time, 3))
         return my_str.format(*arg)
 
-    def _blocks(self, agent):
+    def _blocks(self, agent, own=False):
         # Agents that return a resource do not need any room.
         if isinstance(agent, ResourceAgent) and agent._has_resource:
             return False
-        return self.at_capacity()
+        return super(ResourceQueue, self)._blocks(agent, own)
 
     def set_num_servers(self, n):
         num_servicing = self.num_system - len(self.queue)
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index c13f196..277789f 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -392,9 +392,10 @@ class QueueServer(object):
         """
         return False
 
-    def _blocks(self, agent):
-        # Whether an agent from within the network has to wait elsewhere.
-        return self.at_capacity()
+    def _blocks(self, agent, own=False):
+        # Whether there is no room for an agent from within the network,
+        # which comes from this very queue if own is True.
+        return self.at_capacity() and not own
 
     def clear(self):
         """Clears out the queue. Removes all arrivals, departures, and
@@ -862,6 +863,13 @@ class LossQueue(QueueServer):
         """
         return self.num_system >= self.num_servers + self.buffer
 
+    def _blocks(self, agent, own=False):
+        if own:
+            # The agent makes room for itself, unless there were too many
+            # agents here because servers were taken away.
+            return self.num_system > self.num_servers + self.buffer
+        return self.at_capacity()
+
     def clear(self):
         super(LossQueue, self).clear()
         self.num_blocked = 0
-- 
2.43.0


From ef65bfb72780f72db021a6cd872398c59a33ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 26/55] fix: set_transitions accepts a matrix when vertices are
 not in order

The rows of the vertices without out edges are left out of the check that
rows sum to one; they were found by the order of the graph's vertices, so
the wrong rows were checked if that order differs from the indices.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index d2b6c7b..200e04e 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1118,7 +1118,7 @@ class QueueNetwork(object):
                     self._route_probs[key][k] = value.get(e[1], 0)
 
         elif isinstance(mat, np.ndarray):
-            non_terminal = np.array([self.g.out_degree(v) > 0 for v in self.g.nodes()])
+            non_terminal = np.array([self.g.out_degree(v) > 0 for v in range(self.nV)])
             if mat.shape != (self.nV, self.nV):
                 msg = ("Matrix is the wrong shape, should "
                        "be {0} x {1}.").format(self.nV, self.nV)
-- 
2.43.0


From bfdddd5d1dd921e596b4d2868dc2ea7d59beb98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 27/55] fix: next_event_description sees events of changed
 queues

When every agent in the network waits at a queue without free servers no
event is scheduled; a call of set_num_servers or delay_service that
schedules one was not announced.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 200e04e..3a757d3 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -997,7 +997,7 @@ class QueueNetwork(object):
             The edge index of the edge that this event will occur at.
             If there are no events then ``None`` is returned.
         """
-        if self._fancy_heap.size == 0 or self.time == np.infty:
+        if self.time == np.infty:
             event_type = 'Nothing'
             edge_index = None
         else:
-- 
2.43.0


From 96175ab7a7242d304e901f3d013f70f11055bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 28/55] fix: simulate notices an event set for the time of an
 earlier one

_update_heap compared the queues with the last time the heap knew, which
can be that of an event that already took place and left the heap.
---
 queueing_tool/network/queue_network.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 3a757d3..f1643e8 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1305,8 +1305,11 @@ class QueueNetwork(object):
         """Makes the heap agree with the queues, which can have been changed
         (with ``set_num_servers`` for example) since the last event.
         """
-        times = self._fancy_heap.q_map()
-        if any(q._time != times[k] and q._time < np.infty
+        heap = self._fancy_heap
+        times = heap.q_map()
+        # The heap remembers the times of events that took place.
+        keys = set(zip(heap.times, heap.edges))
+        if any(q._time < np.infty and (q._time != times[k] or (q._time, k) not in keys)
                for k, q in enumerate(self.edge2queue)):
             keys = [q._key() for q in self.edge2queue if q._time < np.infty]
             self._fancy_heap = PriorityQueue(keys, self.nE)
-- 
2.43.0


From 4fb293659620558dfcc9417589c43423e39791d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 29/55] fix: simultaneous events take place in the order of the
 edges

The order of events at the same time depended on the layout of the heap,
which is rebuilt for a copy, so that a copy did not continue with the same
events as the original. next_event_description already goes by the edges.
---
 queueing_tool/network/queue_network.py | 37 +++++++++++++++++++-------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index f1643e8..5d8d59e 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1314,17 +1314,34 @@ class QueueNetwork(object):
             keys = [q._key() for q in self.edge2queue if q._time < np.infty]
             self._fancy_heap = PriorityQueue(keys, self.nE)
 
-    def _simulate_next_event(self, slow=True):
-        if self._fancy_heap.size == 0:
-            self._t = np.infty
-            return
-
-        q1k = self._fancy_heap.pop()
+    def _pop_heap(self):
+        """Removes the key of the next event from the heap and returns it,
+        or ``None`` if there is none. Events at the same time take place in
+        the order of their edges, as :meth:`.next_event_description` says.
+        """
+        heap = self._fancy_heap
+        keys = []
+        while heap.size > 0 and (not keys or heap.array_times[0] <= keys[0][0]):
+            key = heap.pop()
+            if key is None:
+                break
+            elif keys and key[0] > keys[0][0]:
+                heap.push(*key)
+                break
+            # The heap can still hold an entry for an event that has already
+            # taken place. Such an entry is not an event, so skip over it.
+            elif key[0] == self.edge2queue[key[1]]._time and key not in keys:
+                keys.append(key)
+
+        if len(keys) > 1:
+            keys.sort()
+            for key in keys[1:]:
+                heap.push(*key)
+
+        return keys[0] if keys else None
 
-        # The heap can still hold an entry for an event that has already
-        # taken place. Such an entry is not an event, so skip over it.
-        while q1k is not None and q1k[0] != self.edge2queue[q1k[1]]._time:
-            q1k = self._fancy_heap.pop() if self._fancy_heap.size > 0 else None
+    def _simulate_next_event(self, slow=True):
+        q1k = self._pop_heap()
 
         if q1k is None:
             self._t = np.infty
-- 
2.43.0


From b0951cd7ffa0d26fe43fb0f0381c2d43f8b3aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 30/55] fix: poisson_random_measure has no points where the
 rate is zero

uniform() may return 0, and then a candidate was kept whatever the rate.
---
 queueing_tool/queues/queue_servers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 277789f..e02d857 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -73,7 +73,7 @@ def poisson_random_measure(t, rate, rate_max):
     """
     scale = 1.0 / rate_max
     t = t + exponential(scale)
-    while rate_max * uniform() > rate(t):
+    while rate_max * uniform() >= rate(t):
         t = t + exponential(scale)
     return t
 
-- 
2.43.0


From cce099be592a9985c9078e7bb058014f869ef2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 31/55] fix: the fill color of a vertex with a terminal loop is
 updated

_update_all_colors marked the vertex as done without updating its fill
color when it met the loop before the other edges of the vertex.
---
 queueing_tool/network/queue_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 5d8d59e..44dad80 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1592,6 +1592,8 @@ class QueueNetwork(object):
                 self.g.set_vp(v, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
                     self.g.set_vp(v, 'vertex_fill_color', q._current_color())
+                elif do[v]:
+                    self._update_vertex_color(v)
                 do[v] = False
             else:
                 self.g.set_ep(e, 'edge_color', q._current_color())
-- 
2.43.0


From 6f8bc16e15fd68fb917abdd01ec683ecad1ef434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 32/55] fix: positions belong to their vertex when vertices are
 not in order

pos is indexed with the number of the vertex, but was filled in the order
in which the graph got its vertices.
---
 queueing_tool/graph/graph_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 656e13d..7345b9c 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -240,7 +240,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
 
         pos = nx.get_node_attributes(self, name='pos')
         if len(pos) == self.number_of_nodes():
-            self.pos = np.array([pos[v] for v in self.nodes()])
+            self.pos = np.array([pos[v] for v in sorted(self.nodes())])
         else:
             self.pos = None
 
@@ -313,7 +313,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
         if pos is None:
             pos = nx.spring_layout(self)
         nx.set_node_attributes(self, name='pos', values=pos)
-        self.pos = np.array([pos[v] for v in self.nodes()])
+        self.pos = np.array([pos[v] for v in sorted(self.nodes())])
 
     def get_edge_type(self, edge_type):
         """Returns all edges with the specified edge type.
-- 
2.43.0


From 2e3873e019554fb26fe7be13bc930e3e7af6efda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 33/55] fix: the bound of the draw is the sum that _choice adds
 up

---
 queueing_tool/queues/agents.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/agents.py b/queueing_tool/queues/agents.py
index d41f62f..c0ec93d 100644
--- a/queueing_tool/queues/agents.py
+++ b/queueing_tool/queues/agents.py
@@ -1,3 +1,5 @@
+from functools import reduce
+from operator import add
 from sys import float_info
 
 from numpy import infty
@@ -108,8 +110,9 @@ class Agent(object):
 
         # With u in (0, sum(pr)] an edge with probability zero is never
         # chosen, also when u is zero or the probabilities sum to slightly
-        # less than one.
-        u = max(uniform() * sum(pr), TINY)
+        # less than one. The sum is the one _choice adds up, sum() rounds in
+        # another way.
+        u = max(uniform() * reduce(add, pr), TINY)
         k = _choice(pr, u, n)
 
         # _choice returns an integer between 0 and n-1 where the
-- 
2.43.0


From 173e8ca0f6eac63ec6a6188fc20c8359bfe2c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 34/55] fix: set_transitions changes nothing when it raises

---
 queueing_tool/network/queue_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 44dad80..afa5b39 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1114,6 +1114,8 @@ class QueueNetwork(object):
                     msg = "Some transition probabilities were negative."
                     raise ValueError(msg)
 
+            # Nothing is changed unless everything in mat is valid.
+            for key, value in mat.items():
                 for k, e in enumerate(sorted(self.g.out_edges(key))):
                     self._route_probs[key][k] = value.get(e[1], 0)
 
-- 
2.43.0


From 740c9ea9d0aa3c43d0d5431c4fb4934153e2df95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 35/55] fix: set_transitions rejects probability on vertices
 without an edge

---
 queueing_tool/network/queue_network.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index afa5b39..52a136d 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1113,6 +1113,9 @@ class QueueNetwork(object):
                 elif (np.array(probs) < 0).any():
                     msg = "Some transition probabilities were negative."
                     raise ValueError(msg)
+                elif not self._sums_to_one(key, value):
+                    msg = "Sum of transition probabilities over the edges was not 1."
+                    raise ValueError(msg)
 
             # Nothing is changed unless everything in mat is valid.
             for key, value in mat.items():
@@ -1130,6 +1133,9 @@ class QueueNetwork(object):
                 raise ValueError(msg)
             elif (mat < 0).any():
                 raise ValueError("Some transition probabilities were negative.")
+            elif not all(self._sums_to_one(v, mat[v]) for v in range(self.nV)):
+                msg = "Sum of transition probabilities over the edges was not 1."
+                raise ValueError(msg)
 
             for k in range(self.nV):
                 for j, e in enumerate(sorted(self.g.out_edges(k))):
@@ -1137,6 +1143,13 @@ class QueueNetwork(object):
         else:
             raise TypeError("mat must be a numpy array or a dict.")
 
+    def _sums_to_one(self, v, probs):
+        # Whether no probability is on a vertex that v has no edge to.
+        targets = [e[1] for e in self.g.out_edges(v)]
+        if isinstance(probs, dict):
+            targets = [u for u in targets if u in probs]
+        return self.g.out_degree(v) == 0 or bool(np.isclose(sum(probs[u] for u in targets), 1))
+
     def show_active(self, **kwargs):
         """Draws the network, highlighting active queues.
 
-- 
2.43.0


From 1d57dc3a901820779ba30896d9ff682a7388635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 36/55] fix: a random graph of one vertex has that vertex

---
 queueing_tool/graph/graph_generation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index 87b6cdc..c7f5410 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -229,6 +229,8 @@ def minimal_random_graph(num_vertices, seed=None, **kwargs):
         if unionF.nClusters == 1:
             break
 
+    # A single vertex has no edges to add it with.
+    g.add_nodes_from(range(num_vertices))
     pos = {j: p for j, p in enumerate(points)}
     g = QueueNetworkDiGraph(g.to_directed())
     g.set_pos(pos)
-- 
2.43.0


From 36fbbf818ad2c7cbae5a208f23b13fd0a2de1d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 37/55] fix: set_types_rank gives type 2 to the top ranked
 vertices

---
 queueing_tool/graph/graph_generation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index c7f5410..6d24b5a 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -405,11 +405,11 @@ def set_types_rank(g, rank, pType2=0.1, pType3=0.1, seed=None, **kwargs):
 
     for v in g.nodes():
         if v in dests:
-            g.set_vp(v, 'loop_type', 3)
+            g.set_vp(v, 'loop_type', 2)
             if not g.is_edge((v, v)):
                 g.add_edge(v, v)
         elif v in fcqs:
-            g.set_vp(v, 'loop_type', 2)
+            g.set_vp(v, 'loop_type', 3)
             if not g.is_edge((v, v)):
                 g.add_edge(v, v)
 
-- 
2.43.0


From 6ce0ca292597a6d7c6123e52618628000ef82d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 38/55] fix: set_types_rank gives no vertex type 2 if pType2 is
 zero

---
 queueing_tool/graph/graph_generation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index 6d24b5a..60db2cc 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -378,13 +378,13 @@ def set_types_rank(g, rank, pType2=0.1, pType3=0.1, seed=None, **kwargs):
 
     tmp = np.sort(np.array(rank))
     nDests = int(np.ceil(g.number_of_nodes() * pType2))
-    dests = np.where(rank >= tmp[-nDests])[0]
+    dests = np.where(rank >= tmp[-nDests])[0] if nDests > 0 else np.zeros(0, int)
 
     if 'pos' not in g.vertex_properties():
         g.set_pos()
 
-    dest_pos = np.array([g.vp(v, 'pos') for v in dests])
-    nFCQ = int(pType3 * g.number_of_nodes())
+    dest_pos = np.array([g.vp(v, 'pos') for v in dests]).reshape(-1, 2)
+    nFCQ = int(pType3 * g.number_of_nodes()) if nDests > 0 else 0
     min_g_dist = np.ones(nFCQ) * np.infty
     ind_g_dist = np.ones(nFCQ, int)
 
-- 
2.43.0


From fcfe7d5378cfab463475bd8b4e3478e31d013679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 39/55] fix: edges without edge_type are type 1 if the graph is
 not adjusted

---
 queueing_tool/graph/graph_preparation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index 208734f..26b9dc7 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -119,6 +119,10 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
         if len(pos) > 0:
             g.set_pos(pos)
 
+    for e in g.edges():
+        if g.ep(e, 'edge_type') is None:
+            g.set_ep(e, 'edge_type', 1)
+
     g.new_vertex_property('vertex_color')
     g.new_vertex_property('vertex_fill_color')
     g.new_vertex_property('vertex_pen_width')
-- 
2.43.0


From b81bb6f2ac40ab4a568ec23da278eae2605c2b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 40/55] fix: queue classes of any edge type need no q_args

---
 queueing_tool/network/queue_network.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 52a136d..f06440c 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -335,10 +335,9 @@ class QueueNetwork(object):
                 q_classes[k] = self.default_classes[k]
 
         if q_args is None:
-            q_args = {k: {} for k in range(5)}
-        else:
-            for k in set(q_classes.keys()) - set(q_args.keys()):
-                q_args[k] = {}
+            q_args = {}
+        for k in set(q_classes.keys()) - set(q_args.keys()):
+            q_args[k] = {}
 
         for key, args in q_args.items():
             if 'colors' not in args:
-- 
2.43.0


From fe8a6a9a1ad1afe0238534bf2ae367c7a01cad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 41/55] fix: a tuple of edges selects these edges

The documentation allows any iterable of 2-tuples, but if it was a tuple then
all queues were selected, so that clear_data(edge=((0, 1), (1, 2))) cleared the
data of every queue.
---
 queueing_tool/network/queue_network.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index f06440c..e9174a0 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1677,9 +1677,8 @@ def _get_queues(g, queues, edge, edge_type):
 
     elif queues is None:
         if edge is not None:
-            if isinstance(edge, tuple):
-                if isinstance(edge[0], INT) and isinstance(edge[1], INT):
-                    queues = [g.edge_index[edge]]
+            if isinstance(edge, tuple) and isinstance(edge[0], INT):
+                queues = [g.edge_index[edge]]
             elif isinstance(edge[0], collections.abc.Iterable):
                 if np.array([len(e) == 2 for e in edge]).all():
                     queues = [g.edge_index[e] for e in edge]
-- 
2.43.0


From 8423995ca9f73a39b425f0c45c87c2ba3273dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 42/55] fix: no queue is changed if one of those given does not
 exist

clear_data, start_collecting_data and stop_collecting_data raised IndexError
for an index that is too large, but after changing the queues before it.
---
 queueing_tool/network/queue_network.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index e9174a0..a2aaea1 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -631,8 +631,8 @@ class QueueNetwork(object):
         """
         queues = _get_queues(self.g, queues, edge, edge_type)
 
-        for k in queues:
-            self.edge2queue[k].data = {}
+        for q in [self.edge2queue[k] for k in queues]:
+            q.data = {}
 
     def copy(self):
         """Returns a deep copy of itself."""
@@ -1471,8 +1471,8 @@ class QueueNetwork(object):
         """
         queues = _get_queues(self.g, queues, edge, edge_type)
 
-        for k in queues:
-            self.edge2queue[k].collect_data = True
+        for q in [self.edge2queue[k] for k in queues]:
+            q.collect_data = True
 
     def stop_collecting_data(self, queues=None, edge=None, edge_type=None):
         """Tells the queues to stop collecting data on agents.
@@ -1501,8 +1501,8 @@ class QueueNetwork(object):
         """
         queues = _get_queues(self.g, queues, edge, edge_type)
 
-        for k in queues:
-            self.edge2queue[k].collect_data = False
+        for q in [self.edge2queue[k] for k in queues]:
+            q.collect_data = False
 
     def transitions(self, return_matrix=True):
         """Returns the routing probabilities for each vertex in the
-- 
2.43.0


From 89f5288e4dd2b76d6cad12d3fde4f66600ac6d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 43/55] fix: queues selected by edge type are in the order of
 their indices

They were in the order in which the edges were added to the graph, so that
initialize(edge_type=1) activated them in another order (and with other draws,
or other ones of them because of max_agents) if the same network was described
in another order.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index a2aaea1..f1fe9a6 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1694,7 +1694,7 @@ def _get_queues(g, queues, edge, edge_type):
                 if g.ep(e, 'edge_type') in edge_type:
                     tmp.append(g.edge_index[e])
 
-            queues = np.array(tmp, int)
+            queues = np.array(sorted(tmp), int)
 
         if queues is None:
             queues = range(g.number_of_edges())
-- 
2.43.0


From 0bc780a0e032d72a65e0e5b974902ec88850c7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 44/55] fix: a blocked agent tries again after the next
 departure at large times too

When the clock is above about 1e8 then EPS gets lost when it is added to the
time of the departure, so that the agent tried again and again at that very
time, before the departure, and the simulation never went on.
---
 queueing_tool/network/queue_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index f1fe9a6..d3165e3 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1388,7 +1388,9 @@ class QueueNetwork(object):
                 q2.num_blocked += 1
                 q1._departures[0].blocked += 1
                 if self._blocking and e2 != e1:
-                    t = q2._departures[0]._time + EPS * uniform(0.33, 0.66)
+                    d = q2._departures[0]._time
+                    # At large times EPS can be less than the precision.
+                    t = max(d + EPS * uniform(0.33, 0.66), np.nextafter(d, np.infty))
                     q1.delay_service(t)
                 else:
                     q1.delay_service()
-- 
2.43.0


From 55bef89d817c69cb283081c2accc9987a087f840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 45/55] fix: a QueueNetworkDiGraph that was edited can be used
 without adjusting it

Its edge indices are those of the edges it was created with. After
add_edges_from, remove_edge or copy, QueueNetwork(g, adjust_graph=False)
raised KeyError or IndexError, and after add_edge the edges were not in
sorted order.
---
 queueing_tool/graph/graph_preparation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index 26b9dc7..2714d41 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -118,6 +118,10 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
         g = QueueNetworkDiGraph(g)
         if len(pos) > 0:
             g.set_pos(pos)
+    else:
+        # The edge indices of g are out of date if edges were added or
+        # removed after it was created.
+        g = QueueNetworkDiGraph(g)
 
     for e in g.edges():
         if g.ep(e, 'edge_type') is None:
-- 
2.43.0


From c4d34bc8ac05958140de10ce09a313067a16f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:43 +0000
Subject: [PATCH 46/55] fix: any infinity is a valid number of servers

math.inf, float('inf') and elements of arrays were refused with the
message that num_servers must be an integer or infinity, because they
are not the same object as numpy's constant.
---
 queueing_tool/queues/queue_servers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index e02d857..9afb59f 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -281,7 +281,7 @@ class QueueServer(object):
                  deactive_t=infty, colors=None, seed=None,
                  coloring_sensitivity=2, **kwargs):
 
-        if not isinstance(num_servers, numbers.Integral) and num_servers is not infty:
+        if not isinstance(num_servers, numbers.Integral) and num_servers != infty:
             msg = "num_servers must be an integer or infinity."
             raise TypeError(msg)
         elif num_servers <= 0:
@@ -696,7 +696,7 @@ class QueueServer(object):
         ValueError
             If ``n`` is not positive.
         """
-        if not isinstance(n, numbers.Integral) and n is not infty:
+        if not isinstance(n, numbers.Integral) and n != infty:
             the_str = "n must be an integer or infinity.\n{0}"
             raise TypeError(the_str.format(str(self)))
         elif n <= 0:
-- 
2.43.0


From 240ec724c805576fb2dd731349ba54c973740e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 47/55] fix: reset_colors gives loops and their vertices their
 own default colors

Loops got the color of other edges, the vertices of loops the fill color
of those without, and the borders of vertices were left as they were.
---
 queueing_tool/network/queue_network.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index d3165e3..7b5c090 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1013,9 +1013,14 @@ class QueueNetwork(object):
         """Resets all edge and vertex colors to their default values."""
         for e in self.g.edges():
             k = self.g.edge_index[e]
-            self.g.set_ep(e, 'edge_color', self.edge2queue[k].colors['edge_color'])
+            key = 'edge_loop_color' if e[0] == e[1] else 'edge_color'
+            self.g.set_ep(e, 'edge_color', self.edge2queue[k].colors[key])
         for v in self.g.nodes():
-            self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_fill_color'])
+            e = (v, v)
+            # The colors of a vertex with a loop are those of its queue.
+            colors = self.edge2queue[self.g.edge_index[e]].colors if self.g.is_edge(e) else self.colors
+            self.g.set_vp(v, 'vertex_fill_color', colors['vertex_fill_color'])
+            self.g.set_vp(v, 'vertex_color', colors['vertex_color'])
 
     def set_transitions(self, mat):
         """Change the routing transitions probabilities for the
-- 
2.43.0


From 7eb936fcfce971d087eb852990cb5faabc1e3c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 48/55] fix: an arrival with a resource does not end a
 ResourceQueue's arrivals

---
 queueing_tool/queues/queue_extentions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index da05804..97d33a6 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -154,6 +154,9 @@ class ResourceQueue(LossQueue):
                     self._num_total -= 1
                     self.set_num_servers(self.num_servers + 1)
 
+                    if self._active:
+                        self._add_arrival()
+
                     if self.collect_data:
                         t = arrival._time
                         if arrival.agent_id not in self.data:
-- 
2.43.0


From 64957d3ce8064c6de6f055c478a68394715fba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 49/55] fix: adjacency2graph leaves the dict it is given as it
 was

---
 queueing_tool/graph/graph_wrapper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 7345b9c..0ea22db 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -170,12 +170,14 @@ def adjacency2graph(adjacency, edge_type=None, adjust=1, **kwargs):
         elif isinstance(edge_type, dict):
             edge_type = _dict2dict(edge_type)
 
+    # The graph has copies of the dictionaries that were given.
+    g = nx.from_dict_of_dicts(adjacency, create_using=nx.DiGraph())
+    adjacency = nx.to_dict_of_dicts(g)
+
     for u, ty in edge_type.items():
         for v, et in ty.items():
             adjacency[u][v]['edge_type'] = et
 
-    g = nx.from_dict_of_dicts(adjacency, create_using=nx.DiGraph())
-    adjacency = nx.to_dict_of_dicts(g)
     adjacency = _adjacency_adjust(adjacency, adjust, True)
 
     return nx.from_dict_of_dicts(adjacency, create_using=nx.DiGraph())
-- 
2.43.0


From 5867df30d631e363fd9eaf962885c4d81f803de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:05 +0000
Subject: [PATCH 50/55] fix: vertices without a position get one, the others
 keep theirs

---
 queueing_tool/graph/graph_preparation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index 2714d41..3125f74 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -111,12 +111,13 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
     """
     g = _test_graph(g)
 
+    pos = nx.get_node_attributes(g, 'pos')
+
     if adjust_graph:
-        pos = nx.get_node_attributes(g, 'pos')
         ans = nx.to_dict_of_dicts(g)
         g = adjacency2graph(ans, adjust=2, is_directed=g.is_directed())
         g = QueueNetworkDiGraph(g)
-        if len(pos) > 0:
+        if len(pos) == g.number_of_nodes():
             g.set_pos(pos)
     else:
         # The edge indices of g are out of date if edges were added or
@@ -139,8 +140,11 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
 
     queues = _set_queues(g, q_cls, q_arg, 'cap' in g.vertex_properties())
 
-    if 'pos' not in g.vertex_properties():
-        g.set_pos()
+    if len(pos) < g.number_of_nodes():
+        # The vertices without a position get one.
+        layout = nx.spring_layout(g)
+        layout.update(pos)
+        g.set_pos(layout)
 
     for e in g.edges():
         k = g.edge_index[e]
-- 
2.43.0


From d26c132788edc0d6c06fb4a185ec1dd2aaf9ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:27 +0000
Subject: [PATCH 51/55] fix: keyword arguments for savefig reach it: facecolor,
 edgecolor, orientation

---
 queueing_tool/graph/graph_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 0ea22db..e718125 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -185,9 +185,9 @@ def adjacency2graph(adjacency, edge_type=None, adjust=1, **kwargs):
 
 SAVEFIG_KWARGS = set([
     'dpi',
-    'facecolorw',
-    'edgecolorw',
-    'orientationportrait',
+    'facecolor',
+    'edgecolor',
+    'orientation',
     'papertype',
     'format',
     'transparent',
-- 
2.43.0


From bb178edb9a9469f4c570e4bdb85f4f2efffc7d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:27 +0000
Subject: [PATCH 52/55] fix: set_pos with an array gives each vertex its own
 position

---
 queueing_tool/graph/graph_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index e718125..f7236d0 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -314,7 +314,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
     def set_pos(self, pos=None):
         if pos is None:
             pos = nx.spring_layout(self)
-        nx.set_node_attributes(self, name='pos', values=pos)
+        nx.set_node_attributes(self, name='pos', values={v: pos[v] for v in self.nodes()})
         self.pos = np.array([pos[v] for v in sorted(self.nodes())])
 
     def get_edge_type(self, edge_type):
-- 
2.43.0


From 3ea1afdac644ac75faa46b6c50191051da6f13ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:27 +0000
Subject: [PATCH 53/55] fix: pop from an empty PriorityQueue returns None
 instead of reading outside of its arrays

---
 queueing_tool/network/priority_queue.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index c9b9719..1858cb9 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -61,6 +61,9 @@ cdef class PriorityQueue:
         cdef double t
         cdef int k
 
+        if self.size == 0:
+            return None
+
         self.heappop()
         with nogil:
             while self.next_time != self.q_times[self.next_node]:
-- 
2.43.0


From 6b4a83f3702f08542d5c142e546b98a9ab8357a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:43 +0000
Subject: [PATCH 54/55] fix: reset_colors gives the vertex of a ResourceQueue
 the border of that queue

It was the one of other queues, and clear() raised a KeyError if the queue
had been given colors without one for other queues.
---
 queueing_tool/network/queue_network.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 7b5c090..2049ca3 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1018,9 +1018,13 @@ class QueueNetwork(object):
         for v in self.g.nodes():
             e = (v, v)
             # The colors of a vertex with a loop are those of its queue.
-            colors = self.edge2queue[self.g.edge_index[e]].colors if self.g.is_edge(e) else self.colors
-            self.g.set_vp(v, 'vertex_fill_color', colors['vertex_fill_color'])
-            self.g.set_vp(v, 'vertex_color', colors['vertex_color'])
+            if self.g.is_edge(e):
+                q = self.edge2queue[self.g.edge_index[e]]
+                self.g.set_vp(v, 'vertex_fill_color', q.colors['vertex_fill_color'])
+                self.g.set_vp(v, 'vertex_color', q._current_color(2))
+            else:
+                self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_fill_color'])
+                self.g.set_vp(v, 'vertex_color', self.colors['vertex_color'])
 
     def set_transitions(self, mat):
         """Change the routing transitions probabilities for the
-- 
2.43.0


From 4f9e84e02f4f0eb2bc126d1f55b2f936bcc4429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:43 +0000
Subject: [PATCH 55/55] fix: show_type does not need a vertex_color of a
 ResourceQueue

It raised a KeyError if the queue had been given colors without one.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 2049ca3..e7c816d 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1245,7 +1245,7 @@ class QueueNetwork(object):
             if self.g.is_edge(e) and self.g.ep(e, 'edge_type') == edge_type:
                 ei = self.g.edge_index[e]
                 self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_highlight'])
-                self.g.set_vp(v, 'vertex_color', self.edge2queue[ei].colors['vertex_color'])
+                self.g.set_vp(v, 'vertex_color', self.edge2queue[ei]._current_color(2))
             else:
                 self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_inactive'])
                 self.g.set_vp(v, 'vertex_color', [0, 0, 0, 0.9])
-- 
2.43.0


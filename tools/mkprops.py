import json
P=[]
QN='queueing_tool/network/queue_network.py'; QS='queueing_tool/queues/queue_servers.py'; QE='queueing_tool/queues/queue_extentions.py'; AG='queueing_tool/queues/agents.py'; PQ='queueing_tool/network/priority_queue.pyx'; CH='queueing_tool/queues/choice.pyx'; GW='queueing_tool/graph/graph_wrapper.py'; GP='queueing_tool/graph/graph_preparation.py'
def p(id,title,st,over,q,why,files,state,mech,obs):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))

p('C01','Events take place in time order and the announced next event is the real one',
 "Each simulated event, of a QueueNetwork of any size or of a lone queue, is the earliest one pending in any queue, takes place exactly at its scheduled time, is counted once in num_events, and current_time never goes back. Before it, the network's time and next_event_description and each queue's time and next_event_description give the time, kind and edge of that event (of one of them if several are due at once), and after an event a queue's current_time is that of its own last event. This also holds after initialize and other calls made between events (set_num_servers and delay_service on a queue act at that queue's own current_time, and may schedule events before that of the network), and the PriorityQueue returns for every sequence of pushes and pops the keys, superseded ones left out, in order of time, and None when none is left.",
 ['schedules','histories','configurations'],'All topologies and sizes, distributions (ties, bursts, stalls), interleavings of arrivals and departures, and operations between events.',
 'Tests run a few seeded networks and compare a handful of times; ties, superseded heap entries, heap growth and changes between calls are not reached.',
 [QN,PQ,QS],[('_fancy_heap','heap of the next event of every queue',PQ),('_time','next event time of a queue',QS)],
 [('QueueNetwork._simulate_next_event',QN),('PriorityQueue.pop/push',PQ),('QueueServer._update_time',QS)],
 ['QueueNetwork.current_time/time/num_events/next_event_description','QueueServer.time/current_time/next_event_description'])

p('C02','Agents are conserved: each is in one place, none is lost, doubled or invented',
 "At every moment each agent that was created and has not left is in exactly one place: scheduled to arrive at, waiting in, or being served by one queue. An agent leaves a queue only by being served there and then enters the queue it chose in the same event, and it leaves the simulation only through a NullQueue, by finding a full queue on arrival from outside, by returning its resource, or by departing from a queue that is not in a network. Hence for each queue num_system, number_queued(), num_arrivals and num_departures, and num_agents and their totals, count exactly those agents, and agent ids are unique.",
 ['schedules','histories','fault_sequences'],'All interleavings of arrivals, departures, blocking, loss, resource moves, server changes, outages and restores.',
 'Tests look at totals of one lossless run; conservation has to hold after every event of every history, including ties and blocked moves.',
 [QN,QS,QE],[('_arrivals/_departures/queue','where the agents are',QS),('_num_total, num_agents','agents at a queue, scheduled ones included',QN)],
 [('QueueServer.next_event',QS),('QueueNetwork._simulate_next_event',QN)],['num_system','number_queued()','num_arrivals','num_departures','num_agents','Agent.queue_action calls'])

p('C03','Queues are FIFO and work-conserving, and services last as long as drawn',
 "A queue serves agents in the order they arrived, never has more agents in service than servers unless servers were taken away meanwhile, and never keeps an agent waiting while a server is free. Each service calls service_f (the function the queue has at that moment) once, at its start with the current time, and the agent departs exactly at the time it returned, unless blocking or delay_service moves that departure. Every agent gets queue_action with kind 0 when it arrives, 1 when its service starts and 2 when it departs, once each and in that order.",
 ['schedules','histories','inputs'],'All arrival and service time sequences (also simultaneous, zero and extreme ones), any number of servers, lone queues and networks.',
 'Tests compare waiting times of one random stream with a recursion for a few server counts; ties, server changes and network arrivals are not covered.',
 [QS,QE],[('queue','waiting agents',QS),('_departures','agents in service',QS)],[('QueueServer.next_event',QS),('QueueServer._service_from_queue',QS)],
 ['service_f calls','Agent.queue_action calls','departure times','number_queued()'])

p('C04','Changing the number of servers at any moment keeps the queue correct',
 "After set_num_servers(n) at any moment num_servers is n, and exactly as many waiting agents, in order of arrival, start service at that queue's current time as there are free servers. Services in progress go on unchanged when servers are taken away, no service starts until fewer than n agents are in service, and agents, counters and later events are otherwise unaffected, also when the queue is part of a running network, n is infinite or the queue is a LossQueue, InfoQueue or ResourceQueue. An invalid n raises (TypeError or ValueError) and changes nothing, except on a ResourceQueue, which does not validate n.",
 ['histories','fault_sequences','schedules'],'Any sequence of increases and decreases (server crashes and recoveries) at any point between events, in lone queues and networks.',
 'Tests change the number of servers once, upwards and before the queue has a history; repeated decreases and increases under load are not reached.',
 [QS,QE,QN],[('num_servers','number of servers',QS)],[('QueueServer.set_num_servers',QS),('ResourceQueue.set_num_servers',QE),('QueueNetwork._update_heap',QN)],
 ['num_servers','number_queued()','num_system','service_f calls'])

p('C05','Finite queues refuse arrivals exactly when full and account for every loss',
 "A LossQueue (or InfoQueue or ResourceQueue) never accepts an agent when num_system is at least num_servers plus its buffer (as they are at that moment), and always accepts one otherwise; at_capacity() tells which is the case. An arrival from outside that finds it full is lost at once: num_blocked grows by one, the agent's add_loss is called once (not required for a ResourceQueue), num_system and the agents in it do not change, the stream of arrivals goes on, and if data is collected a record with the arrival time, zero service start and departure, and the numbers queued and in the system is kept. An agent moving inside the network is never lost this way, and num_blocked equals the number of refused arrivals plus refused moves.",
 ['schedules','histories','configurations'],'All loads, buffers (zero, finite, infinite), server changes that move the capacity, and ties between arrivals and departures.',
 'Tests count blocked agents in a single overloaded run; the decision at every boundary state and at ties is not sampled.',
 [QS,QE,QN],[('num_blocked','refused arrivals and moves',QS),('buffer','waiting room',QS)],[('LossQueue.next_event',QS),('LossQueue.at_capacity',QS),('ResourceQueue.next_event',QE)],
 ['num_blocked','num_system','at_capacity()','Agent.add_loss calls','Agent.blocked'])

p('C06','Blocked agents stay, are counted and get through under BAS and RS',
 "An agent that ends its service and whose chosen queue is full (its own queue only counts as full, and it is then always served again, if it is over capacity without it) stays in service where it is, and the target's num_blocked and the agent's blocked count each grow by one. Under 'BAS' it tries again just after (at most 1e-6 after, or at the next floating point number after) the time at which the target's next departure is then scheduled; under 'RS' it gets another service from its own queue, drawn with service_f at the current time, and tries again when that ends. Each try asks desired_destination and enters if the chosen queue has room, so that blocked agents get through once room is made; changing the blocking attribute (upper or lower case) applies from the next blocked attempt.",
 ['schedules','histories','fault_sequences'],'All saturation patterns, chains and joins of finite queues, stalls of the target, and switches of the blocking mode during a run.',
 'Tests check that blocking happens in one network; which event blocks, the retry time and progress depend on the schedule.',
 [QN,QS],[('_blocking','BAS or RS',QN),('blocked','times an agent was blocked',AG)],[('QueueNetwork._simulate_next_event blocked branch',QN),('QueueServer.delay_service',QS)],
 ['num_blocked','Agent.blocked','service_f calls','departure times','desired_destination calls'])

p('C07','Arrivals from outside follow arrival_f, active_cap, deactive_t and activation',
 "An active queue always has exactly one external arrival scheduled, at the time returned by one arrival_f call made when the previous one took place (or at activation) with the current time; its agent comes from AgentFactory with id (edge index, running count). The count of agents created never exceeds active_cap and none is created for a time at or after deactive_t: when either limit is reached, or after set_inactive(), the queue is inactive, an arrival already scheduled still takes place, and no further ones are created until set_active() is called again. Arrivals from inside the network neither consume nor disturb this stream, and set_active() on an active queue or at active_cap does nothing. arrival_f, active_cap and deactive_t may be replaced during a run; the present ones apply from the next arrival that is scheduled.",
 ['schedules','histories','configurations'],'All arrival processes, caps, stopping times and on/off sequences interleaved with internal traffic, for every queue class.',
 'Tests run one queue to its cap and one to its stopping time; interleaving with internal arrivals, outages and ties is not covered.',
 [QS,QE],[('_next_ct','next external arrival',QS),('_oArrivals','agents created here',QS),('active_cap/deactive_t','limits',QS)],[('QueueServer._add_arrival',QS),('InfoQueue._add_arrival',QE),('QueueServer.set_active',QS)],
 ['arrival_f calls','AgentFactory calls','active','num_arrivals[1]'])

p('C08','Simulating never takes a network above max_agents',
 "While a QueueNetwork is simulated the number of agents in it, counting scheduled arrivals (the sum of num_agents), never grows beyond max_agents. A queue's stream of external arrivals is switched off because of max_agents only at an event of that queue that finds the network at or above the limit; below the limit arrivals go on, moves inside the network are never stopped by it, and initialize() activates no more than max_agents queues. Changing max_agents during a run takes effect from the next event.",
 ['schedules','histories','configurations'],'All networks, limits (also infinite and lowered during the run) and schedules.',
 'Tests check one run with one limit at its end only; the limit has to hold after each event.',
 [QN],[('max_agents','limit',QN),('num_agents','agents per queue',QN)],[('QueueNetwork._simulate_next_event admission test',QN),('QueueNetwork.initialize',QN)],
 ['num_agents','active','num_arrivals[1]'])

p('C09','Agents are routed along legal edges, by the current transition probabilities',
 "An agent that departs from edge (u, v) enters the queue on an edge that leaves v. An Agent picks each such edge independently with the probability currently set for it (set_transitions applies from the next departure and leaves other vertices as they were) and never one with probability zero; transitions() reports these probabilities. A GreedyAgent picks an edge with the smallest number_queued(), the first of them in the order of out_edges if several tie, and a custom desired_destination is followed exactly.",
 ['schedules','histories','inputs'],'All graphs, probability vectors (zeros, sums off by rounding, extreme draws), queue states and changes of the transitions during a run.',
 'Tests compare long-run frequencies of one matrix loosely; rare edges, boundary draws, ties and mid-run changes are not reached.',
 [AG,CH,QN],[('_route_probs','transition probabilities',QN),('out_edges','edges leaving a vertex',QN)],[('Agent.desired_destination',AG),('_choice/_argmin',CH),('QueueNetwork.set_transitions',QN)],
 ['desired_destination results','queue entered','transitions()'])

p('C10','Recorded data is a faithful log of the visits',
 "With collect_data on, each arrival at a queue adds one record for that agent and queue: arrival time, service start, departure (zero until they happen), the number queued on arrival (the agent included if it has to wait) and the number in the system after it arrived, and later events of that visit fill in only that record. fetch_data, get_queue_data and get_agent_data return exactly the records of the queues selected by index, edge or edge type (with the edge index, rows of one queue or agent in order of arrival), whatever else happened; switching collection off and on, or clearing data, at any time only omits or removes what it concerns and never changes or invents another record.",
 ['histories','schedules','fault_sequences'],'All histories with revisits, blocking, losses, server changes and collection switched on, off or cleared for any queues at any moment.',
 'Tests look at the shape of the data and at a few columns of one run; faithfulness needs an independent log of every visit.',
 [QS,QN,QE],[('data','records by agent id',QS)],[('QueueServer.next_event',QS),('QueueServer.fetch_data',QS),('QueueNetwork.get_agent_data/get_queue_data',QN)],
 ['fetch_data()','get_queue_data()','get_agent_data()','start/stop_collecting_data','clear_data'])

p('C11','A seeded simulation is exactly reproducible',
 "Building the same network or queue with the same seed (or after numpy.random.seed) and making the same calls gives exactly the same events, times, data and random graph, in the same process or another one. Nothing else influences it: not the hash seed, memory layout, wall clock, Python's own random state, state left by earlier simulations, nor calls that only read or draw.",
 ['schedules','configurations','histories'],'All networks, built-in queue classes and agents, and call sequences; any environment and process history.',
 'Tests rerun one seed in the same process; a dependence on hash order, leftover state or an unseeded source shows only across processes or after other work.',
 [QN,QS,AG,GW,'queueing_tool/graph/graph_generation.py'],[('numpy.random global state','the only source of randomness',QN)],[('seed parameters',QN),('module level uniform/exponential',QS)],
 ['event traces, data and graphs of two executions'])

p('C12','A copy is a complete, independent snapshot',
 "QueueNetwork.copy() and QueueServer.copy() give, at any moment of a run, an object in the same state: simulated with the same draws both continue with exactly the same events, data and answers to every query. Nothing done to one (simulating, clearing, changing servers, transitions, data collection, blocking or colors) shows in the other, so a network restored from a copy after any later failure continues as if nothing had happened. Making the copy does not change the original.",
 ['crash_points','histories','schedules'],'Any snapshot moment, any continuation and interleaving of copy and original, any queue and agent classes.',
 'Tests copy once and compare that times differ after simulating one of the two; equality of the continuation and aliasing need a twin run.',
 [QN,QS],[('all network state','copied field by field',QN)],[('QueueNetwork.copy',QN),('QueueServer.copy',QS)],['events, data and queries of copy and original'])

p('C13','clear() brings back a fresh network or queue',
 "After clear() at any moment, also after an exception from a user-supplied function interrupted an event, a QueueNetwork or lone queue has no agents, events, data or counts, its clocks are zero and all queues are inactive, and simulating a cleared network before initialize() raises QueueingToolError. Once initialized or activated again it behaves exactly, with the same draws, as a newly built one with the same configuration (numbers of servers, transitions, limits, buffers, functions, blocking and data collection as they are at that time).",
 ['crash_points','histories'],'Any history before the clear, also one cut off inside an event, and any continuation after it.',
 'Tests check a few counters after a clear; leftovers of clocks, heaps or streams show only in the continuation after specific histories.',
 [QN,QS,QE],[('all simulation state','reset by clear',QN)],[('QueueNetwork.clear',QN),('QueueServer.clear and overrides',QS)],['state after clear','events and data of the continuation'])

p('C14','Looking at a simulation does not change it',
 "Reading properties, next_event_description, transitions, fetch_data, get_queue_data and get_agent_data, repr, drawing (draw, show_active, show_type, also when writing the image fails), copying, and switching data collection on or off never change what happens later: with the same draws all later events and counts are the same, and no random draw is consumed by them. The same holds for how a run is divided into calls: simulate in pieces, one event at a time or with animate gives the same history as one call.",
 ['histories','schedules','fault_sequences'],'Any placement of any observers and any division of a run, with disk errors while drawing.',
 'Tests call each observer once on its own; interference shows only as a changed continuation relative to an unobserved twin.',
 [QN,QS,GW],[('simulation state and numpy.random state','must not be touched',QN)],[('QueueNetwork.draw/show_*/get_*_data/animate',QN)],['events, counts and draws of an observed and an unobserved twin'])

p('C15','Resources are conserved between ResourceQueues and agents',
 "A ResourceAgent without a resource that departs from a ResourceQueue takes exactly one, lowering its num_servers by one, and one that arrives with a resource gives it back, raising num_servers by one, leaves the simulation at once and needs neither room nor service, and is recorded as such if data is collected. So resources in queues plus those held by agents stay constant (apart from set_num_servers), num_servers never becomes negative, services never use a resource that was taken, and a returned resource immediately serves the first agent waiting. over_max counts the changes that set num_servers to more than max_servers (twice the initial number), and other agents and other queues neither take nor return resources.",
 ['schedules','histories'],'All interleavings of takes and returns among several ResourceQueues, with and without buffers, other agents and blocking.',
 'Tests follow one small network and check a total; takes and returns under contention and waiting agents are not covered.',
 [QE],[('num_servers','free resources',QE),('_has_resource','agent holds a resource',QE)],[('ResourceAgent.queue_action',QE),('ResourceQueue.next_event/set_num_servers',QE)],['num_servers','over_max','num_system','departures and returns'])

p('C16','Information carried by InfoAgents is truthful and never gets older',
 "Every known entry for a queue in the net_data of an InfoAgent or InfoQueue (time, number of servers, load) is the state that queue had at that time, when an InfoAgent was there, and unknown entries are -1. When an InfoAgent arrives at an InfoQueue the queue takes over every entry of the agent that is newer than its own, and at arrival, start of service and departure the agent takes over every entry of the queue that is newer and then stamps its own current entry for that queue. So an entry's time never goes back and no information appears other than by these meetings; get_beliefs() gives an agent's loads, and clear() on an InfoQueue makes it forget everything.",
 ['schedules','histories'],'All movement patterns of InfoAgents over networks of InfoQueues and other queues, with losses, ties and blocking.',
 'Tests check the shape of the beliefs and one update; who knows what, since when, depends on the whole schedule.',
 [QE],[('net_data','what is known of every queue',QE)],[('InfoQueue.extract_information/next_event',QE),('InfoAgent.queue_action',QE)],['net_data of agents and queues at every meeting'])

p('C17','simulate() stops exactly where asked, and runs drain when arrivals end',
 "simulate(n) performs exactly n events if that many are left, simulate(t=T) performs events until the clock is T or more past its value at the call and stops at the first such event, and for a lone queue simulate(nA=k) and simulate(nD=k) stop at the event that creates the k-th further external arrival or completes the k-th further departure. When no event is left the call returns and later calls do nothing. Once all arrival streams have ended, and services and routing let agents leave, a bounded number of further events empties the network or queue: nobody is left waiting, in service or blocked.",
 ['schedules','histories','fault_sequences'],'All networks, amounts, divisions and histories, with faults (stalls, server losses, blocking, outages) that have stopped.',
 'Tests use a few amounts on running queues; stopping at the edge, running out of events and draining after faults are not covered.',
 [QN,QS],[],[('QueueNetwork.simulate',QN),('QueueServer.simulate',QS)],['num_events','current_time','num_departures','num_arrivals','num_system'])

p('C18','poisson_random_measure samples the given rate function',
 "poisson_random_measure(t, rate, rate_max) returns a time strictly after t (up to rounding) at which rate is positive, and asks rate only at candidate times in increasing order after t. Started from each returned time it generates a Poisson process whose expected number of points in any interval is the integral of rate over it, for any rate bounded by rate_max, and the points of different calls use independent draws of numpy's global generator.",
 ['inputs','schedules'],'All rate functions bounded by rate_max (constant, periodic, on/off, near zero or at the bound), start times and draws.',
 'Tests compare one mean for one rate; thinning at extreme draws and rates with gaps is not covered.',
 [QS],[],[('poisson_random_measure',QS)],['returned times','rate calls'])

p('C19','Colors show the current state of the queues',
 "When a QueueNetwork is drawn or animated, every edge has the color that its queue's load gives it at that moment, every vertex with a loop the fill and border colors of the queue on that loop (the fill of a loop of type 0 is that of its vertex's other queues), and every other vertex a fill given by the load of all queues that enter it, where load is agents in the system relative to servers; show_active and show_type highlight exactly the active queues or the queues of the type, and reset_colors and clear() give everything its default color, that of the queue or network. Updating event by event (animate) gives the same colors as a full update after each event, and afterwards nothing about the simulation has changed. Every vertex is drawn at its own position (also if a user gave it) and every edge as one visible line, and the documented arguments (size, bgcolor, keywords for lines, for vertices and for saving) reach the figure.",
 ['histories','schedules','configurations'],'All graphs (loops, terminal loops, any node order), histories and divisions between animated and plain simulation.',
 'Tests compare a single image or check that the calls return; stale colors depend on the order of events.',
 [QN,QS,GP],[('_prev_edge','edge of the last event',QN)],[('QueueNetwork._update_all_colors/_update_graph_colors',QN),('QueueServer._current_color',QS)],['edge_color, vertex_fill_color and vertex_color properties of the graph'])

GG='queueing_tool/graph/graph_generation.py'
p('C20','A network is the one that was described',
 "However a network is described (dict of lists or of dicts, matrix, networkx graph or QueueNetworkDiGraph, also one that was edited or copied, edge types inside the description or, which then wins, beside it, vertices and edges in any order), QueueNetwork has exactly its vertices and edges and one queue on each edge; edge indices, edge2queue, out_edges and in_edges follow the sorted order of the edges, and each queue has the class and arguments given for its edge type (the documented defaults if none are given, type 1 if the edge has no type). Only vertices without outgoing edges are adjusted: adjacency2graph and a dict given directly add a loop of type 0 to them; with adjust=2, and for a graph or matrix given directly, the edges into them become type 0 instead. Positions stay with their vertices, and building does not change the description, also if it fails half way. Networks built from descriptions of the same network have, with the same draws, the same history.",
 ['inputs','configurations','crash_points','schedules'],'All graphs (loops, terminal and isolated vertices, any labels and order), types, classes, descriptions, and failures during construction.',
 'Tests build a few graphs and compare dictionaries; that every description gives the same running network, in any order and after a failed attempt, needs twin runs.',
 [GP,GW,QN],[('edge_index','rank of an edge',GW),('edge2queue/out_edges/in_edges','queues by edge index',QN)],[('adjacency2graph',GW),('_prepare_graph/_set_queues',GP),('QueueNetwork.__init__',QN)],['g, edge2queue, out_edges, in_edges, transitions()','histories of networks built from other descriptions'])

p('C21','Random graph generators give graphs of the kind that was asked for',
 "For any size, parameters and draws, minimal_random_graph gives num_vertices vertices with positions, joined in both directions exactly within the smallest distance that makes the graph connected. generate_random_graph adds a loop to each vertex independently with prob_loop, and it and set_types_random give each edge (each loop) independently a type by proportions (loop_proportions), never one without a share; shares that do not sum to one raise ValueError and change nothing. set_types_rank, and generate_pagerank_graph with the pagerank, put a loop of type 2 on the vertices with the ceil(pType2 |V|) highest ranks (and those that tie with them), a loop of type 3 on at most int(pType3 |V|) other vertices near these, and make all other edges type 1. Otherwise vertices and edges stay as they were, and the result can be simulated in a QueueNetwork. UnionFind, which decides what is connected, keeps exactly the partition made by the unions (find, size, nClusters).",
 ['inputs','configurations'],'All sizes (one vertex included), parameters, ranks with ties, and draws, extreme ones included.',
 'Tests use a few sizes and seeds; extreme draws, ties, boundary shares and single vertices are not sampled.',
 [GG,'queueing_tool/union_find.py'],[],[('minimal_random_graph',GG),('set_types_random',GG),('set_types_rank',GG),('UnionFind.union','queueing_tool/union_find.py')],['vertices, edges, positions and edge types of the graph'])

p('C22','Transition probabilities are valid at every moment',
 "set_transitions accepts exactly the dictionaries and |V| x |V| arrays whose entries are not negative and sum to one over the outgoing edges of every vertex that is given and has any (entries left out of a dictionary are zero, order and zero entries elsewhere do not matter); then both forms of transitions() give these, and vertices that were not given keep theirs. Any other argument raises ValueError (TypeError if it is neither) and changes nothing at all. generate_transition_matrix gives such an array for any graph and draws, with a positive entry for every edge as long as no draw is exactly zero. Probabilities may be set at any moment of a run and survive clear() and copy(), and the same probabilities give the same history in whatever form they were passed.",
 ['inputs','histories','schedules'],'All valid and invalid arguments, at any moment of any run, and all draws of the generator.',
 'Tests try one argument for each error on an idle network; partly valid dictionaries, extreme draws and the later history are not reached.',
 [QN,GG],[('_route_probs','transition probabilities',QN)],[('QueueNetwork.set_transitions',QN),('generate_transition_matrix',GG)],['result or exception of set_transitions','transitions()','later histories'])

p('C23','Calls that are refused change nothing',
 "set_num_servers with an invalid number (except on a ResourceQueue), initialize with an invalid nActive or with nothing to activate, simulate or animate before initialize(), a blocking mode that is not a string, invalid transitions, and starting or stopping collection, clearing, reading data or initializing for edges or indices of which one does not exist raise an error (the documented one: TypeError, ValueError or QueueingToolError) at any moment of a run, and change nothing: state, counters, data, colors and random draws are as before, and the run continues as if the call had not been made.",
 ['histories','fault_sequences'],'All such calls at any moment of any history of networks and lone queues.',
 'Tests check that the error is raised on an idle object; partial changes show only in the state and continuation of a running one.',
 [QN,QS],[('_initialized','whether the network was initialized',QN)],[('QueueNetwork.initialize/simulate/animate/blocking/set_transitions',QN),('_get_queues',QN),('QueueServer.set_num_servers',QS)],['exceptions, all public state, later events and draws'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))

"""Which families decide which property, with what budget, and how a run counts."""
from dst import fam_net, fam_twin, fam_heap, fam_route, fam_prm, fam_repro, fam_color, fam_form, fam_gen, fam_trans

FAMILIES = {'net': fam_net, 'twin': fam_twin, 'heap': fam_heap, 'route': fam_route, 'prm': fam_prm, 'repro': fam_repro,
            'color': fam_color, 'form': fam_form, 'gen': fam_gen, 'trans': fam_trans}

NET = [('net', 1)]
PLAN = {
    'C01': [('net', 8), ('heap', 2)],
    'C02': NET, 'C03': NET, 'C04': NET, 'C05': NET, 'C06': NET, 'C07': NET, 'C08': NET,
    'C09': [('net', 12), ('route', 1)],
    'C10': NET,
    'C11': [('repro', 1)],
    'C12': [('twin', 1)], 'C13': [('twin', 1)], 'C14': [('twin', 1)],
    'C15': NET, 'C16': NET,
    'C17': [('net', 1), ('twin', 1)],
    'C18': [('prm', 1)],
    'C19': [('color', 1)],
    'C20': [('form', 1)],
    'C21': [('gen', 1)],
    'C22': [('trans', 1)],
    'C23': [('twin', 1)],
}

# (runs, seconds) of the quick and the thorough check on 8 workers
BUDGET = {
    'net': ((9000, 60), (400000, 800)),
    'C09': ((6000, 60), (250000, 800)),
    'C11': ((1800, 60), (30000, 800)),
    'C12': ((6000, 60), (200000, 800)),
    'C13': ((8000, 60), (300000, 800)),
    'C14': ((4000, 60), (150000, 800)),
    'C17': ((9000, 60), (400000, 800)),
    'C18': ((5000, 60), (150000, 800)),
    'C19': ((3000, 60), (80000, 800)),
    'C20': ((6000, 60), (200000, 800)),
    'C21': ((8000, 60), (300000, 800)),
    'C22': ((9000, 60), (300000, 800)),
    'C23': ((7000, 60), (250000, 800)),
}


def budget(prop, tier):
    b = BUDGET.get(prop, BUDGET['net'])
    return b[0] if tier == 'quick' else b[1]


# what a run must have reached to count as non-trivial for the property
NEED = {
    'C01': ('simultaneous events', 'arrival ties with a move', 'superseded', 'waits'),
    'C02': ('left through NullQueue', 'lost on arrival', 'blocked agent got through', 'resource returned', 'waits'),
    'C03': ('waits',),
    'C04': ('servers added', 'servers taken away'),
    'C05': ('lost on arrival', 'blocked move (BAS)', 'blocked move (RS)', 'accepted after having been full'),
    'C06': ('blocked move (BAS)', 'blocked move (RS)'),
    'C07': ('stream ended by active_cap', 'stream ended by deactive_t', 'activated', 'arrivals switched off', 'lost on arrival'),
    'C08': ('stream stopped by max_agents', 'initialize beyond max_agents', 'max_agents below the present number'),
    'C09': ('transitions changed', 'greedy tie', 'left through NullQueue', 'routes counted'),
    'C10': ('data compared (non-empty)',),
    'C11': None,
    'C12': ('states compared',),
    'C13': ('states compared',),
    'C14': ('observer called', 'drawn', 'drawing failed', 'animated', 'run in pieces', 'timed run in pieces',
            'disk full while animating', 'data collection on', 'data collection off'),
    'C15': ('resource taken', 'resource returned'),
    'C16': ('information exchanged',),
    'C17': ('simulate(t=)', 'simulate(n)', 'drained', 'simulate(nA=)', 'simulate(nD=)', 'nothing left'),
    'C18': ('laws compared', 'candidates rejected'),
    'C19': ('frames', 'drawings: draw', 'drawings: active', 'drawings: type'),
    'C20': ('histories compared', 'crash inside the construction', 'built again from the same description'),
    'C21': ('min', 'random', 'pagerank', 'types', 'rank', 'refused'),
    'C22': ('histories compared',),
    'C23': ('refused: servers', 'refused: nactive', 'refused: queues', 'refused: early', 'refused: blocking', 'refused: trans', 'refused: unknown'),
}

RULE = {
    '': 'Run i takes a plan (configuration, operations and faults) from (VERIF_SEED, property, i) and executes it. A run is non-trivial if at least '
        'one event took place and at least one of the conditions of the property (NEED in dst/registry.py) was reached; two are distinct if the '
        'digests of their histories differ.',
    'C11': 'Run i takes seeded simulations from (VERIF_SEED, 11, i) and repeats them in a perturbed or fresh process. A run is non-trivial if events took '
           'place; two are distinct if the digests of the results differ.',
}

SIM = 'simulated: every call of numpy.random from the code is answered by the seeded generator of the run'
REAL = {
    '': 'QueueNetwork, QueueServer and its subclasses, agents, QueueNetworkDiGraph and graph preparation, PriorityQueue and choice (built from the .pyx '
        'of /repo), numpy and networkx: all real',
    'C14': 'as for the other properties; matplotlib with the Agg backend is real too',
    'C18': 'poisson_random_measure, and QueueServer when it drives a queue; numpy.random in part of the runs',
    'C19': 'QueueNetwork with its queues and graph, and matplotlib up to the artists of the figure',
    'C11': 'everything, numpy.random included',
    'C21': 'the generators, UnionFind, networkx (pagerank, spring layout), QueueNetwork with its queues; numpy.random in part of the runs',
}
STUB = {
    '': 'numpy.random (' + SIM + '); arrival_f, service_f, AgentFactory and agents are recording subclasses or functions of the simulator',
    'C14': 'numpy.random (' + SIM + '); arrival_f, service_f and agents of the simulator; the file that images are written to (full after some bytes) and '
           'the movie writer',
    'C18': 'numpy.random in part of the runs (' + SIM + ')',
    'C19': 'numpy.random (' + SIM + '); arrival_f, service_f and agents of the simulator; Figure.savefig and the movie writer record the artists or fail',
    'C20': 'numpy.random (' + SIM + '); arrival_f, service_f, AgentFactory and agents are of the simulator; constructors of queues that fail at a chosen moment',
    'C21': 'numpy.random, arrays included, in most runs (' + SIM + '); arrival_f, service_f and agents of the simulator',
    'C11': 'none; wall clock, hash seed, memory layout, Python random state and earlier simulations are varied',
}
ASSUME = [
    'the sampled runs stand for the histories the property quantifies over',
    'networks of at most a few dozen queues and some hundred events per run',
    'user-supplied functions behave as their documentation asks (arrival_f and service_f return times not before their argument)',
    'the reference model in dst/shadow.py states the property correctly (it does not share code with /repo)',
]

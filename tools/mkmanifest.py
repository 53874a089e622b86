"""Writes /verif/MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NET = 'deterministic simulation with fault injection: seeded event-by-event runs against an executable reference model'
TWIN = 'deterministic simulation with fault injection: seeded twin runs (control and perturbed) compared'
T = {'C11': 'deterministic simulation with fault injection: seeded runs repeated in perturbed and fresh processes',
     'C12': TWIN, 'C13': TWIN, 'C14': TWIN,
     'C17': NET + ', and one call against single steps',
     'C01': NET + ', and seeded schedules of the PriorityQueue',
     'C09': NET + ', and frequencies of seeded routes',
     'C18': 'deterministic simulation with fault injection: seeded draws (also extreme ones), points compared with the law of the rate by time change',
     'C20': 'deterministic simulation with fault injection: networks built from several descriptions (also after a crash inside the construction) simulated with the same draws and compared',
     'C21': 'deterministic simulation with fault injection: generators under seeded draws (also extreme ones) against an independent statement of what was asked for, results simulated',
     'C22': TWIN + ', acceptance and probabilities decided from the argument',
     'C23': TWIN,
     'C19': 'deterministic simulation with fault injection: artists recorded at every frame (drawing may fail) against colors computed from public state'}
NOTE = ('Seeded search: holds on every run explored (counts in the evidence file), no claim beyond them. Trusts the oracle in /verif/dst '
        '(it shares no code with /repo) and the simulated user functions; every violation is minimised and replayable.')
NA = json.load(open(os.path.join(V, 'tools', 'na.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
na = {x['property'] for x in NA}
m = dict(version=1, setup_cmd='./check build',
         checks=[dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique=T.get(p['id'], NET), level='exploration', level_note=NOTE)
                 for p in props if p['id'] not in na],
         not_applicable=NA,
         notes='No hooks in /repo: numpy.random, arrival_f, service_f, AgentFactory, agents, files and movie writers are the seams. '
               './check replay FILE replays a violation. known_findings.txt lists the defects that were repaired.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')

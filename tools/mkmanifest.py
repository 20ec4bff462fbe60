"""Writes /verif/MANIFEST.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {
 'C01': ('whole campaigns re-executed: same process with perturbed global generators and foreign stars interleaved, and fresh processes with other hash seeds; bit-identical digests required', 'simulated campaigns, fresh-process replay'),
 'C02': ('random step schedules against the closed-form life of a spot', ''),
 'C03': ('random step schedules against the closed-form life of a facula', ''),
 'C04': ('random histories of add/birth/age against a reference population (conservation, exactly-once ageing, exact expiry)', ''),
 'C05': ('histories with observations and hostile callers injected, compared bit for bit with the undisturbed history', ''),
 'C06': ('seeded scheduler switches threads at source-line granularity; results compared with the serial execution', ''),
 'C07': ('faults (exceptions at seeded source lines and random draws) injected in births and observations; atomicity and retry compared with the uninterrupted run', ''),
 'C08': ('checkpoint (deepcopy/pickle) and restart at seeded points of a history, also in a fresh process; bit-identical continuation', ''),
 'C09': ('invariants on the coverage report in every reached state, hostile configurations included', ''),
 'C10': ('reports compared with an independent reference renderer along histories', ''),
 'C11': ('maps of permuted, regrouped and duplicated arrivals compared, and with the coolest-wins reference', ''),
 'C12': ('facula maps against a reference model of wall and floor along life and rotation', ''),
 'C13': ('planet orbits scheduled in random order and sampling, masks compared with exact circle overlap and a reference mask', ''),
 'C14': ('random exposure schedules over flare series against an independently integrated light curve', ''),
 'C15': ('flare generation under a buggified random generator; structural invariants and statistical oracle over many seeds', ''),
 'C16': ('birth schedules under split steps; expectation probed through the injected generator, Poisson statistics', ''),
 'C17': ('births under a buggified random generator; invariants plus statistical oracle', ''),
 'C18': ('mature populations under a buggified random generator; coverage, reachability and termination within a draw budget', ''),
 'C19': ('granulation requests in random order and from different objects; equality, bounds and mean over seeds', ''),
 'C20': ('regions and generators shared between stars with different grids in random interleavings; maps against the reference renderer', ''),
 'C21': ('long simulated campaigns (7 mean lifetimes) of births and decay; time-averaged area against target', ''),
 'C22': ('long simulated campaigns of facula births and decay; time-averaged area against target', ''),
 'C23': ('simulated histories plotted from random viewpoints, some plots interrupted; pixels of the real figure against an independent rendering', ''),
}
NOTE = 'Seeded search, not exhaustive: says the property held on every simulated run listed in the evidence. Trusts numpy, astropy, JAX and the reference models in /verif/sim; bounds and tolerances per property are in DESIGN.md.'
checks = [dict(property=k, quick_cmd=f'python3 check.py {k}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {k}',
               evidence_file=f'evidence/{k}.json', technique='deterministic simulation with fault injection: ' + v[0],
               level='exploration', level_note=NOTE) for k, v in N.items()]
NA = {
 'C30': 'Grid generation is a pure function of its size arguments: no clock, schedule, randomness, history or fault can influence it, so a simulator has nothing to decide.',
 'C31': 'Closed-form functions of their arguments; the random and historical side of the energy law is claimed as C15.',
 'C32': 'Resampling is a pure function of the array passed in; no schedule, state or fault is involved.',
 'C33': 'Rounding and clipping are pure functions of one value; no schedule, state or fault is involved.',
}
doc = dict(version=1, setup_cmd='python3 check.py setup', checks=checks,
           not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
           notes='No hooks in /repo: the code already takes its random generators, grid and time steps as arguments; threads, interruptions and crashes are driven through sys.settrace. Replay: python3 check.py <id> --replay <file>.')
json.dump(doc, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

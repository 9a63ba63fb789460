"""Write MANIFEST.json: a check for every property that has a driver."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'TLA+ specification (TLC): trace validation of recorded library behaviour'
NOTE = {
}
GEN = {
	'C05': 'TLA+ specification (TLC): subspace pool histories generated by TLC and replayed, plus trace validation',
	'C15': 'TLA+ specification (TLC): session behaviours generated by TLC, replayed in the library and validated',
	'C16': 'TLA+ state machine (TLC): all histories up to a bound generated by TLC and replayed in the library',
}
base = ('Every behaviour of the library recorded by the driver (see evidence coverage.what) is validated event by event by TLC against the '
	'specification, which computes the expected result itself; the specification is model checked against its own laws on all signatures up to '
	'its bound. Bounded: sampled subspaces, values and shapes beyond the exhaustively enumerated small algebras. Trusts TLC, the recorder and, for '
	'real valued functions, the stated tolerances.')
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
	p = json.loads(l)['id']
	if os.path.exists(os.path.join(here, 'harness', 'drivers', p.lower() + '.py')):
		checks.append(dict(property=p, quick_cmd=f'./check.sh {p} quick', thorough_cmd=f'./check.sh {p} thorough', evidence_file=f'evidence/{p}.json',
			technique=GEN.get(p, TECH), level='model_checking', level_note=NOTE.get(p, base)))
	else:
		na.append(dict(property=p, reason='no check has been built yet'))
m = dict(version=1, setup_cmd='true', hooks=dict(guard='NUMGA_VERIF_HOOKS', enable='no hooks are needed: the checks drive the public interface of /repo as it is', source_commits=[]),
	checks=checks, not_applicable=na, notes='TLA+ checked with TLC; see DESIGN.md')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)

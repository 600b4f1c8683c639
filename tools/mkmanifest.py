"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'runtime monitoring of full processing runs against an independent reference oracle',
 'C02': 'trace monitor over burst/surface events of full runs with hostile record patterns',
 'C03': 'monitor on calibrated bursts of full runs (exactly-once oracle)',
 'C04': 'history monitor: product equality across sequences of runs, cancels, failures',
 'C05': 'monitor on surface events against a reference oracle',
 'C06': 'runtime monitor with round-trip and range oracles over dense and boundary inputs',
 'C07': 'monitor on beam angles and beams against a reference oracle',
 'C08': 'monitor on stacks against a reference oracle',
 'C09': 'monitor on corrections and compressed beams against a reference oracle, conservation checks',
 'C10': 'monitor on masks and waveforms against a reference oracle',
 'C11': 'monitor on sigma-0 factors against a reference oracle',
 'C12': 'monitor on delivered records against independently decoded file contents, random access histories',
 'C13': 'offline checker: written file against recorded writer events',
 'C14': 'offline checker: written file against recorded writer events',
 'C15': 'offline checker of product times, attributes and names against the input',
 'C16': 'model-based monitor over random files and access histories',
 'C17': 'monitor on stored files against an independent upgrade model',
 'C18': 'model-based trace monitor over random operation histories with faults',
 'C19': 'model-based trace monitor over random operation histories',
 'C20': 'model-based trace monitor over random operation histories',
 'C21': 'model-based trace monitor over random command histories',
 'C22': 'progress trace monitor, cancellation at every point, signal injection',
 'C23': 'model-based trace monitor over random request histories',
 'C24': 'model-based monitor over random configuration states, one process per case, recorded commands',
 'C25': 'monitor on exposed data and captured figures against independently decoded files',
}
NOTE = {
 'stage': 'Real chain run on generated inputs; verdict by comparison with an independent reference implementation (vmon/ref.py). Assurance is for the executions observed (see evidence counts); trusts numpy, netCDF4 and the reference.',
 'model': 'Real code run on seeded random operation histories and hostile inputs inside a scratch folder; each step compared with an independent model. Assurance is for the histories observed.',
}
checks, na = [], []
for i in range(1, 26):
    pid = 'C%02d' % i
    if os.path.exists(os.path.join(here, 'vmon', 'checks', pid.lower() + '.py')):
        checks.append(dict(property=pid, quick_cmd='./check.sh %s quick' % pid, thorough_cmd='./check.sh %s thorough' % pid,
                           evidence_file='evidence/%s.json' % pid, technique=TECH[pid], level='exploration',
                           level_note=NOTE['stage' if i <= 15 else 'model']))
    else:
        na.append(dict(property=pid, reason='check not built yet'))
m = dict(version=1, setup_cmd='true',
         hooks=dict(guard='none', enable='no hooks are compiled into /repo: the monitors wrap public objects at run time', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Checks import dedop directly from /repo (PYTHONPATH), nothing to build. All file effects stay in a scratch folder made and removed by check.sh.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), len(na))

"""Writes MANIFEST.json: a check for every checks/cNN.py, the rest goes under not_applicable."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': ('online monitor: output traces vs. simulator ground truth under randomised recordings', 'exploration'),
 'C02': ('conservation / exactly-once monitor over written files, randomised recordings and settings', 'exploration'),
 'C03': ('monitor over every written output file (name, codes, window, encoding) under randomised settings', 'exploration'),
 'C04': ('monitor of output coverage for systematically and randomly placed t1/t2 against ground truth', 'exploration'),
 'C05': ('differential runtime monitor: one recording rendered in every raw format', 'exploration'),
 'C06': ('AddressSanitizer/UBSan and valgrind-style poisoned-heap runs of the compiled parser under coverage-guided and structured fuzzing, open-file monitor', 'exploration'),
 'C07': ('online monitor: parser rows vs. an independent line model over damaged and well-formed files', 'exploration'),
 'C08': ('fault injection on raw files, monitor of unaffected output and problem report', 'fault_enumeration'),
 'C09': ('fault injection on GPS records, monitor of sample times and refusals', 'fault_enumeration'),
 'C10': ('conservation monitor across gem_cat file joins plus conversion against ground truth', 'exploration'),
 'C11': ('parallel/serial differential monitor with injected worker delays and failures', 'exploration'),
 'C12': ('monitor over gemconvert command lines: outputs attributed to loggers by ground truth', 'exploration'),
 'C13': ('monitor over metadata and GPS side files against ground truth, repeated conversions', 'exploration'),
 'C14': ('crash and write-fault injection at every file operation, file-system monitor, recovery comparison', 'fault_enumeration'),
 'C15': ('invariant monitor over the instrument constants and responses for every serial number and gain', 'exploration'),
 'C16': ('monitor over renamed files and inventories against the station table', 'exploration'),
 'C17': ('monitor of GPS summaries against generated fixes with outliers', 'exploration'),
 'C18': ('monitor of lags and window coverage for synthetic delayed signals, recorded calls to the correlator', 'exploration'),
 'C19': ('invariant monitor over noise models for random bands and spectra', 'exploration'),
 'C20': ('monitor of huddle-test results against generated logger records', 'exploration'),
 'C21': ('conservation monitor over merged day files', 'exploration'),
 'C22': ('differential monitor: single-file converter vs. ground truth and main reader', 'exploration'),
 'C23': ('monitor of the waveform database against generated files', 'exploration'),
 'C24': ('differential monitor across output formats', 'exploration'),
 'C25': ('monitor of direction estimates against generated plane waves', 'exploration'),
}
NOTE = {}
NOTE_DEFAULT = ('Held on the executions this run produced (counts in the evidence file), generated from VERIF_SEED; '
                'trusts the oracles in lib/ (simulator and independent models), the Python interpreter, numpy, pandas '
                'and ObsPy.')
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
        checks.append({'property': i,
                       'quick_cmd': '/opt/venv/bin/python checks/run.py ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough /opt/venv/bin/python checks/run.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i][0], 'level': TECH[i][1],
                       'level_note': NOTE.get(i, NOTE_DEFAULT)})
    else:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks were added to /repo: every monitor observes the public API, the command-line entry points, '
              'the files written, or a fresh sanitizer build of the parser made from /repo\'s working tree.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'unclaimed')

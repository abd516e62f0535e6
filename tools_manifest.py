"""Regenerates MANIFEST.json from the checks that exist."""
import json
import os
ROOT = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl')) if l.strip()]
PY = 'runtime monitoring of generated Python code against an independent reference oracle'
CPP = 'generated C++ run under AddressSanitizer and UndefinedBehaviorSanitizer, results judged by an independent reference oracle'
GEN = 'runtime monitoring of prophyc runs and of the artifacts they produce'
NOTES = {
    'C01': (PY, 'Encodings observed for all ordered pairs of about 100 field shapes and for sampled longer structs and nested schemas, both orders; '
                'schemas and values that were not generated are not covered.'),
    'C02': (PY, 'Round trips of the same workload as C01; arrays above 65536 elements are a known finding.'),
    'C03': (CPP, 'Sampled schemas (fixed delicate set, tuples, random) compiled and driven on a little-endian host.'),
    'C04': (PY + '; C++ values evaluated by the compiler', 'All shape pairs through both front-ends, sampled longer ones.'),
    'C05': (CPP, 'Decoded values and randomly filled objects; arrays beyond the range of a narrow sizer are a known finding.'),
    'C06': (PY, 'Damaged and random byte strings; promptness and memory by generous proportional limits.'),
    'C07': (CPP, 'Damaged and random byte strings in exact-size blocks with a counting allocator; enum value ranges are a known finding.'),
    'C08': ('layout of generated raw headers evaluated by the compiler and compared with an independent reference layout',
            'All shape pairs, sampled longer ones, one ABI (g++ x86-64).'),
    'C09': (CPP, 'Foreign-endian messages between guard zones; parts returning to a smaller alignment are a known finding.'),
    'C10': (PY, 'Random histories compared with a reference model after every operation.'),
    'C11': (PY, 'Random sessions over two messages compared with independent reference states.'),
    'C12': (GEN, 'Sampled valid schemas imported and compiled; one broken rule per invalid schema, every rule reached.'),
    'C13': (GEN, 'Sampled hostile inputs, options and include graphs; termination by a generous CPU limit.'),
    'C14': (GEN, 'Sampled expression trees evaluated by every back-end and by a reference evaluator.'),
    'C15': (GEN, 'All orderings of all graphs of up to 4 definitions, sampled beyond.'),
    'C16': (GEN, 'Sampled splits of schemas over files and directories compared with the single file.'),
    'C17': (GEN, 'Sampled schemas through both front-ends; every patch rule reached.'),
    'C18': (CPP, 'Sampled values printed by both languages; floats excluded as in the property.'),
    'C19': (CPP, 'Sampled values encoded in both orders by both languages, compared through the map of scalars.'),
    'C20': (GEN, 'Sampled projects compiled repeatedly under varied conditions, outputs compared byte by byte.'),
}
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(ROOT, 'checks', p.lower() + '.py')):
        technique, note = NOTES[p]
        checks.append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': technique, 'level': 'exploration',
                       'level_note': note + ' Only observed executions are judged.'})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
doc = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(doc, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

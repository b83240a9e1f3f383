"""Regenerate MANIFEST.json from the checks that exist (mc/checks/cXX.py)."""
import importlib.util
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'bounded exhaustive exploration (stateless model checking) of the real library, judged by an independent RP66 reader and a specification model'
BFS = 'explicit-state search of a specification model to a bounded depth; every history replayed on the real library and its output judged against the model'
BFS_IDS = {'C14', 'C17', 'C18', 'C20', 'C07', 'C09'}
NOTE = {
    'C01': 'decides every maximum record length x body length of the stated windows on the real writer; not body lengths beyond them',
    'C02': 'exact within the stated body-length windows and record sequences; longer records only at the capacity boundaries',
    'C03': 'every dtype/byte order/layout/special value of the stated tables; values in between are not enumerated',
    'C04': 'every object type and attribute with every value class, alone and in pairs; not all combinations of three or more attributes',
    'C05': 'every attribute, value class, assignment route and time; pairs of attributes of one object, not all combinations',
    'C06': 'complete for the 8/16-bit codes and all length prefixes; boundary tables for the 32/64-bit codes',
    'C07': 'all object graphs up to the stated number of same-named objects, sets and logical files',
    'C08': 'all channel layouts up to the stated number of channels; widths from a table',
    'C09': 'all orders of additions up to the stated depth',
    'C10': 'every accepted chunk size near the record boundaries for small files; larger files at tabled sizes',
    'C11': 'all source kinds x windows x chunk sizes for up to the stated number of rows',
    'C12': 'a table of unrepresentable inputs in every place they can be given, alone and in pairs',
    'C13': 'all index arrays over a small value alphabet up to the stated length, per dtype',
    'C14': 'all histories of files built and written before up to the stated depth; interference needing longer histories is not seen',
    'C15': 'all record lengths of the stated windows for every maximum record length of the tier',
    'C16': 'all payload lengths of the stated windows; all short sequences of payload classes',
    'C17': 'all context histories to the stated depth; each restricted input in every mode',
    'C18': 'all interleavings of additions to up to three logical files to the stated depth',
    'C19': 'all source kinds, layouts, dtypes and write options of the table, successful and failing writes',
    'C20': 'every rejected call of the table at every position of short histories',
}
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'mc', 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': f'./check {i} --tier quick', 'thorough_cmd': f'./check {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': BFS if i in BFS_IDS else TECH,
                       'level': 'model_checking', 'level_note': NOTE[i]})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries of tools/entries.py"""
import importlib.util
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location('entries', os.path.join(HERE, 'entries.py'))
entries = importlib.util.module_from_spec(spec)
spec.loader.exec_module(entries)
ROOT = os.path.dirname(HERE)

with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf8') as f:
    for e in entries.ENTRIES:
        assert len(e['title']) <= 80, e['id']
        f.write(json.dumps({
            'id': e['id'], 'title': e['title'], 'statement': e['statement'],
            'quantifier': {'over': e['over'], 'text': e['for_all']},
            'why_tests_cant': e['why'],
            'anchors': {'files': e['files'], 'state': [],
                        'mechanism': [{'name': n, 'where': w} for n, w in e['mechanism']],
                        'observe_at': e['observe'], 'hook_needed': None},
        }, ensure_ascii=False) + '\n')

manifest = {
    'version': 1,
    'setup_cmd': './setup',
    'checks': [{
        'property': e['id'],
        'quick_cmd': './check {} quick'.format(e['id']),
        'thorough_cmd': './check {} thorough'.format(e['id']),
        'evidence_file': 'evidence/{}.json'.format(e['id']),
        'technique': e['technique'],
        'level': 'model_checking',
        'level_note': e['note'],
    } for e in entries.ENTRIES if not e.get('not_applicable')],
    'not_applicable': [{'property': e['id'], 'reason': e['not_applicable']} for e in entries.ENTRIES if e.get('not_applicable')],
    'notes': 'No hooks in /repo: the code is driven as it is. The two C++ modules are compiled from the working tree against '
             'header stand-ins (shim/) for pybind11, GSL and the OpenMP runtime, because none of the three is installed here; '
             'the OpenMP stand-in is the controlled scheduler that P13 enumerates.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf8') as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write('\n')

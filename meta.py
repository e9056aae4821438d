#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec/properties.py (one source for both)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from spec.properties import PROPS, NOT_CLAIMED   # noqa: E402


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as fh:
        for p in PROPS + NOT_CLAIMED:
            fh.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['forall']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]},
            }) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'python3 -c "import ast, json, sys; assert sys.version_info >= (3, 9)"',
        'checks': [{
            'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]}', 'thorough_cmd': f'python3 check.py {p["id"]}',
            'technique': p['technique'], 'level': 'other', 'level_note': p['note'],
        } for p in PROPS],
        'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NOT_CLAIMED],
        'notes': 'All checks are pure static analyses of /repo\'s current Python source (standard library ast; nothing of the '
                 'package is imported or executed), built on the shared engine in sa/. No hooks are needed in /repo.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
from props import PROPS
try: from props import NOT_APPLICABLE
except ImportError: NOT_APPLICABLE = {}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = [dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
               technique=PROPS[i].get('technique', 'symbolic execution of the compiled code (LLVM IR), decided by Z3'), level=PROPS[i].get('level', 'model_checking'),
               level_note=PROPS[i].get('note') or ('Bounded, every path and value within: ' + '; '.join(PROPS[i]['bounds']))) for i in ids if i in PROPS]
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check yet (work in progress)')) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)

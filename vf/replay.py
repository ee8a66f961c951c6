#!/usr/bin/env python3-vt
"""Replays a violation with a failing input against the current real code: replay.py <replay file>"""
import json
import os
import re
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import props

v = json.load(open(sys.argv[1]))
print(f'property {v["property"]}, contract {v["contract"]}: {v["obligation"]}')
if v['kind'] != 'failing input':
    print('no failing input; output of the verifier:')
    print(json.dumps(v['verifier_output'], indent=1))
    sys.exit(2)
part = next(p for p in props.PROPS[v['property']]['parts'] if p['harness'] == v['harness'])
b = build.native_bin(v['harness'], part.get('nsrcs', part['srcs']))
m = re.search(r'size=(\d+)', v['input'])
size = m.group(1) if m else '3'
r = subprocess.run([b, '--only', v['contract'], '--replay', size + ':' + ','.join(map(str, v['trail']))],
                   capture_output=True, text=True)
print(r.stdout)
sys.exit(1 if '"fail"' in r.stdout else 0)

"""Writes spec/constants.json: how often each constant appears in the source of
the unchanged package (used by the samplers of the native stage only)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from native.run import source_constants
S, N = source_constants()
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'constants.json')
json.dump({'strings': dict(sorted(S.items())), 'numbers': {repr(k): v for k, v in sorted(N.items())}}, open(p, 'w'), indent=0, sort_keys=True)

"""re-executes the failing input recorded in a replay file"""
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import native  # noqa: E402


def main():
    d = json.load(open(sys.argv[1]))
    if 'inputs' not in d:
        print(json.dumps(d, indent=1))
        print('obligation not discharged; no failing input recorded')
        return 0
    mod, name = d['contract'].rsplit('.', 1)
    fn = getattr(importlib.import_module(mod), name)
    st, label, detail, log, ch = native.run_once(fn, d['seed'], d.get('forced'), d.get('maxn') or 6)
    print(st, label, detail)
    return 1 if st == 'fail' else 0


sys.exit(main())

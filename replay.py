#!/usr/bin/env python3-vt
"""replay.py FILE: run one counterexample against the plainly imported package of /repo.
Exit 1 if the property fails on it, 0 if it holds."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.pycache_prefix = '/dev/null/none'   # never run stale bytecode
sys.path.insert(0, HERE)


class PlainLib:
    def __init__(self):
        from sx import loader
        self.src = loader.SRC
        self.names = loader.Lib._names

    def __getattr__(self, n):
        import importlib
        if n in self.names:
            return getattr(importlib.import_module('pyrusgeom.' + self.names[n]), n)
        if n == 'sm':
            return importlib.import_module('pyrusgeom.soccer_math')
        if n == 'mv':
            return importlib.import_module('pyrusgeom.math_values')
        raise AttributeError(n)

    def mod(self, leaf):
        import importlib
        return importlib.import_module('pyrusgeom.' + leaf)


def main():
    with open(sys.argv[1]) as f:
        h = json.load(f)
    import check
    cases = check.load_cases(h['property'])
    case = next(c for k, c in cases.items() if c.name == h['case'])
    from sx import loader, run
    sys.path.insert(0, loader.SRC)
    vals = {k: (v if isinstance(v, int) else float.fromhex(v)) for k, v in h['raw'].items()}
    import io
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        out = run.concrete(case, vals, h['choices'], 20, PlainLib())
    print('inputs', out['used'])
    print('failed', out['failed'], out.get('exc') or '')
    return 1 if out['bad'] else 0


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""check.py PROPERTY: explores the state space of the property, see DESIGN.md."""
import os
import sys

FIXED = {'PYTHONHASHSEED': '0', 'PYTHONUTF8': '1', 'PYTHONDONTWRITEBYTECODE': '1',
         'PYTHONPYCACHEPREFIX': '/nonexistent/pycache'}

if __name__ == '__main__':
    if any(os.environ.get(k) != v for k, v in FIXED.items()):
        os.execve(sys.executable, [sys.executable] + sys.argv, {**os.environ, **FIXED})
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from mc import explore, props
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        sys.exit(explore.replay(sys.argv[2]))
    spaces, assumptions, budget = props.get(sys.argv[1])
    sys.exit(explore.main(sys.argv[1], spaces, assumptions, budget))

#!/opt/venv/bin/python
"""run.py PROPERTY [--replay FILE] [--budget S] [--runs N] [--tier quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import bootstrap  # noqa: E402

if __name__ == "__main__":
    tmp = bootstrap.reexec([os.path.abspath(__file__)] + sys.argv[1:])
    from dst import load
    sys.exit(load.main(sys.argv[1:], tmp))

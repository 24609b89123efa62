#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough]: decide one property on the current /repo tree."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib.runner import main

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

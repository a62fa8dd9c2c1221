#!/usr/bin/env python3
"""run_check.py ID [--replay FILE] [--tier quick|thorough] [--seed N]"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import master  # noqa: E402
sys.exit(master.main(sys.argv[1:]))

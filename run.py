#!/usr/bin/env python3
"""python3 run.py C01 --tier quick|thorough      run a property's check
python3 run.py C01 --replay FILE              re-run a saved case"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf.runner import main  # noqa: E402

sys.exit(main())

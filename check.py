#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | --setup"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if "--setup" in sys.argv:
    from engine import ir
    m = ir.module()
    print("%d functions" % len(m.fns))
    sys.exit(0)
from engine.runner import main
sys.exit(main(sys.argv[1:]))

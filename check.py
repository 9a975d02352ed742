#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import framework
sys.exit(framework.main(sys.argv[1], sys.argv[2:]))

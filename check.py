#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--seed N] | --replay FILE | --setup"""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import driver
sys.exit(driver.main(sys.argv[1:]))

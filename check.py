#!/usr/bin/python3
"""python3 check.py ID [--tier quick|thorough] [--repo DIR]: decide a property
of the repository from its source. Exit 0: nothing violates it; 1: violated;
2: no answer."""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.checks import main

if __name__ == "__main__":
    sys.exit(main())

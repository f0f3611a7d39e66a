#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import check
if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(check.main(sys.argv))

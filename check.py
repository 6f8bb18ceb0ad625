#!/usr/bin/env python3
"""check.py <property> quick|thorough: decide one property on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.main import main
if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

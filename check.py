#!/usr/bin/env python3
"""Entry point: python3 check.py <property> [--tier quick|thorough] ..."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from dst.runner import main
sys.exit(main())

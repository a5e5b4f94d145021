#!/usr/bin/env python3-vt
import os, sys
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
from vengine.runner import main
sys.exit(main(sys.argv[1:]))

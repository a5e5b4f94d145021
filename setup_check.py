"""Offline setup: nothing to build; confirms the tools and the repository import."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)
import z3, cvc5  # noqa
from vengine import runner  # noqa
print("z3", z3.get_version_string(), "cvc5 ok")

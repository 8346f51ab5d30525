"""builds the clang plugin that dumps the AST"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import astdb
print(astdb.plugin_path())

"""compiles the BDD core used by the checks"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode = True
from sa import bdd, llvmir
print("ready")

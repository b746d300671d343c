#!/opt/veriftools/pyvenv/bin/python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from nbv import run
sys.exit(run.main(sys.argv[1:]))

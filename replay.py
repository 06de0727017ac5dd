"""python3-vt replay.py <counterexample.json>: runs the recorded inputs on the real, uninstrumented code"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sx.run import replay_main
sys.exit(replay_main(sys.argv[1]))

"""python3 sa/check.py ID [quick|thorough]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base

if __name__ == '__main__':
    pid = sys.argv[1]
    mod = importlib.import_module('p_' + pid.lower())
    sys.exit(base.main(pid, mod.run, sys.argv[2:]))

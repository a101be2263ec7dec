#!/usr/bin/env python3
"""python3 checks/check.py <property id> [quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import lib
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else None
chk = lib.Check(pid, tier)
try:
    importlib.import_module("check_" + pid.lower()).main(chk)
    chk.finish()
except SystemExit:
    raise
except lib.CheckError as e:
    print(f"CHECK ERROR property={pid}: {e}", flush=True)
    sys.exit(2)
except BaseException:
    traceback.print_exc()
    sys.exit(2)

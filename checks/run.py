#!/usr/bin/python3
"""checks/run.py ID [--quick|--thorough]"""
import importlib, os, sys
if "PYTHONHASHSEED" not in os.environ: os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="1"))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from nmv.check import main
WHERE = {"P03": "store", "P04": "store", "P06": "store", "P08": "store", "P14": "store", "P18": "store", "P19": "store", "P12": "query", "P13": "query", "P05": "query", "P07": "cli", "P09": "cli", "P01": "cli", "P11": "dump", "P02": "crash", "P10": "insert", "P15": "compact", "P20": "hooks", "P17": "conf", "P16": "share", "P21": "git"}
pid = sys.argv[1]
m = importlib.import_module("checks.c_" + WHERE[pid])
sys.exit(main(pid, getattr(m, pid), sys.argv[2:]))

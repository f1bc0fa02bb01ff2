#!/opt/venv/bin/python
"""Entry point of every check:  run.py <property id> [--replay FILE]"""
import os
import sys
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)

if __name__ == "__main__":
    from checks import registry
    sys.exit(registry.main(sys.argv[1:]))

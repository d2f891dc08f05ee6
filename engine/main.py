import sys, os, importlib
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "contracts"))
if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    pid = sys.argv[1]
    m = importlib.import_module(pid.lower())
    c = m.CHECK
    if len(sys.argv) > 2: c.contracts = [x for x in c.contracts if any(a in x.name for a in sys.argv[2:])]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    sys.exit(c.run(tier if tier in ("quick", "thorough") else "quick", seed))

"""worker.py PROP count | PROP INDEX OUT BUDGET : verify one contract in its own process"""
import sys, os, json, time, glob, importlib, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "contracts"))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    import contract
    for f in sorted(glob.glob(os.path.join(os.path.dirname(HERE), "contracts", "*.py"))):
        importlib.import_module(os.path.basename(f)[:-3])
    cs = contract.REG.get(sys.argv[1], [])
    if sys.argv[2] == "count":
        print(len(cs))
        return
    c = cs[int(sys.argv[2])]
    r = contract.run_contract(c, deadline=time.time() + float(sys.argv[4]))
    tmp = sys.argv[3] + ".tmp"
    json.dump(r, open(tmp, "w"))
    os.replace(tmp, sys.argv[3])


if __name__ == "__main__":
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    t = threading.Thread(target=main)
    t.start()
    t.join()

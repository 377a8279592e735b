import sys

from vlib.common import worker

if __name__ == "__main__":
    pid, tier, seed, w, nw, out = sys.argv[1:7]
    worker(pid, tier, int(seed), int(w), int(nw), out)

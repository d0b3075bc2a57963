"""python -m sim.cli check C01 quick | worker ... | probe ... | shrink ... | replay FILE"""
import os
import sys


def main(argv):
    sys.dont_write_bytecode = True
    from . import engine
    cmd = argv[0]
    if cmd == "check":
        sys.exit(engine.main_check(argv[1], argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick"),
                                   int(os.environ.get("VERIF_SEED", "1"))))
    if cmd == "worker":
        pid, tier, seed, first, step, count, hb, deadline = argv[1:]
        engine.worker(pid, tier, int(seed), int(first), int(step), int(count), hb, float(deadline))
    elif cmd == "probe":
        pid, tier, seed, idx, limit = argv[1:]
        engine.probe(pid, tier, int(seed), int(idx), int(limit))
    elif cmd == "shrink":
        engine.shrink_main(argv[1], argv[2], argv[3], float(argv[4]))
    elif cmd == "replay":
        engine.replay_main(os.path.abspath(argv[1]))
    else:
        sys.exit(2)


if __name__ == "__main__":
    main(sys.argv[1:])

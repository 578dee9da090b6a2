import os
import sys
import traceback
import warnings

warnings.simplefilter("ignore")
import logging

logging.disable(logging.CRITICAL)


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    try:
        import pywr
        import pywr.model, pywr.nodes, pywr.parameters, pywr.recorders, pywr.solvers  # noqa
    except Exception:
        # The package built but cannot be imported: nothing it promises holds.
        tb = traceback.format_exc()
        print(tb)
        home = os.environ["VERIF_HOME"]
        os.makedirs(os.path.join(home, "evidence", "replay"), exist_ok=True)
        path = os.path.join(home, "evidence", "replay", pid + "-import.txt")
        with open(path, "w") as fh:
            fh.write(tb)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    assert os.path.realpath(pywr.__file__).startswith("/repo/"), pywr.__file__
    from mc import harness

    if "--replay" in argv:
        return harness.replay(pid, argv[argv.index("--replay") + 1])
    return harness.explore(pid, tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

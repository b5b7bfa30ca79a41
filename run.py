#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import argparse, importlib, os, shutil, sys, tempfile, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
import vt  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    mod = importlib.import_module(a.prop.lower())
    if a.replay:
        data = open(a.replay).read()
        fd, tmp = tempfile.mkstemp()
        os.write(fd, data.encode())
        os.close(fd)
        rc = mod.CHECK(a.tier + "-replay", a.seed).replay(tmp)
        os.remove(tmp)
        return rc
    return mod.CHECK(a.tier, a.seed).run()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except vt.ToolError as e:
        print("TOOL-ERROR", e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)

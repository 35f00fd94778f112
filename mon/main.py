import importlib
import os
import sys


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = rest.pop(0)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0") or "0")
    except ValueError:
        import zlib
        seed = zlib.crc32(os.environ["VERIF_SEED"].encode())
    from mon import harness
    check = importlib.import_module("checks." + pid.lower())
    return harness.run(check, tier, seed, replay)


if __name__ == "__main__":
    code = 2
    try:
        code = main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)

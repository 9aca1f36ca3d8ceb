"""Entry point: python -m harness.main <PROPERTY-ID>."""
import importlib
import sys
import traceback


def main():
    pid = sys.argv[1]
    try:
        from .core import Check
        mod = importlib.import_module("checks." + pid.lower())
        chk = Check(pid)
        mod.run(chk)
        rc = chk.finish()
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={pid}: the check could not run")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()

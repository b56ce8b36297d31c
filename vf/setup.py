"""Sanity of the installation: the specification parses, TLC and lattpy run."""
import os
import sys
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    from vf import engine
    lp = engine.load()
    print("lattpy from", os.path.dirname(lp.__file__))
    spec = os.path.join(HERE, "spec")
    for m in sorted(os.listdir(spec)):
        if m.endswith(".tla"):
            p = subprocess.run(["tla-sany", m], cwd=spec, capture_output=True, text=True)
            ok = p.returncode == 0 and "*** Errors" not in p.stdout and "Fatal" not in p.stdout
            print(m, "ok" if ok else "FAILED")
            if not ok:
                print(p.stdout[-3000:])
                return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())

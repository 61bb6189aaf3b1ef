"""setup_cmd: the tools are there and the engine agrees with the interpreter on a small program."""
import subprocess
import sys

from .run import REALPY, REPO


def main():
    import z3
    from . import core, values  # noqa: F401
    s = z3.Solver()
    x = z3.Int("x")
    s.add(x * x == 49, x < 0)
    assert s.check() == z3.sat and s.model()[x].as_long() == -7
    r = subprocess.run([REALPY, "-B", "-c", "import sys; sys.path.insert(0, %r); import metaknowledge; print(metaknowledge.__file__)" % REPO],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(r.stdout.decode()[-400:])
    return r.returncode


if __name__ == "__main__":
    sys.exit(main())

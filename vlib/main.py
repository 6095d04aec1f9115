"""Entry point: python main.py PROPERTY [--tier quick|thorough] [--replay FILE]."""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    scratch = tempfile.mkdtemp(prefix="medil-check-")
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["XDG_CACHE_HOME"] = os.path.join(scratch, "cache")
    os.environ["TORCHINDUCTOR_CACHE_DIR"] = os.path.join(scratch, "torch")
    pid = os.getpid()
    try:
        from vlib import core

        return core.run(sys.argv[1:], HERE, scratch)
    finally:
        if os.getpid() == pid:
            os.chdir("/")
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)

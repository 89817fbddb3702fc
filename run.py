#!/opt/venv/bin/python
"""run.py Cxx [--tier quick|thorough] [--replay FILE]"""
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("TZ") != "UTC" or os.environ.get("PYTHONDONTWRITEBYTECODE") != "1":
    env = dict(os.environ, PYTHONHASHSEED="0", TZ="UTC", PYTHONDONTWRITEBYTECODE="1")
    os.execve(sys.executable, [sys.executable] + sys.argv, env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True

if __name__ == "__main__":
    prop = sys.argv[1].upper()
    from mc import core
    repo = os.path.realpath(core.REPO)
    import tfchain
    got = os.path.dirname(os.path.realpath(tfchain.__file__))
    if got != os.path.join(repo, "tfchain"):
        print("ERROR: tfchain is imported from %s, not from %s" % (got, repo))
        sys.exit(2)
    module = importlib.import_module("mc.checks." + prop.lower())
    code = core.main(module, sys.argv[2:])
    sys.stdout.flush()
    os._exit(code)

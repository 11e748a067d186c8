"""Process environment of every check: builds the extensions, puts /repo and the offline tools on the import path."""
import importlib.abc
import importlib.machinery
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
TOOLS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
TOOL_PACKAGES = {"hypothesis", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector", "_hypothesis_globals",
                 "sortedcontainers", "attr", "attrs", "mpmath"}


class _ToolFinder(importlib.abc.MetaPathFinder):
    """Imports only the named pure tools from the tool venv; numpy, scipy... always come from the project's own venv."""

    def find_spec(self, name, path=None, target=None):
        if path is None and (name in TOOL_PACKAGES or name.startswith("_hypothesis")):
            return importlib.machinery.PathFinder.find_spec(name, TOOLS)
        return None


def build():
    env = dict(os.environ)
    r = subprocess.run([sys.executable, os.path.join(VERIF, "harness", "build_ext.py"), REPO], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-4000:])
        print("HARNESS-ERROR: building the extensions failed")
        sys.exit(3)


def paths():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    h = os.path.join(VERIF, "harness")
    if h not in sys.path:
        sys.path.insert(1, h)
    if not any(isinstance(f, _ToolFinder) for f in sys.meta_path):
        sys.meta_path.append(_ToolFinder())

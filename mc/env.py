"""Binds the explorer to the code under test: imports DLMS_SPODES from the current working tree of /repo
(or $VERIF_REPO) as package `src.DLMS_SPODES`, from a scratch working directory that holds a fixed
config.toml (config_parser reads ./config.toml at import).  Nothing in /repo is written."""
import atexit
import contextlib
import importlib
import io
import logging
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "src.DLMS_SPODES"
HERE = os.path.dirname(os.path.abspath(__file__))
_scratch = None


def scratch() -> str:
    """scratch directory of this run, removed at exit by the process that made it"""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vmc_")
        owner = os.getpid()

        def clean(path=_scratch, owner=owner):
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def setup(config: str | None = "config.toml"):
    """call once, before mod()"""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch(), "pyc")      # never run a stale compiled copy
    sys.setrecursionlimit(3000)
    os.environ["TZ"] = "UTC"
    d = scratch()
    if config:
        shutil.copy(os.path.join(HERE, config), os.path.join(d, "config.toml"))
    os.makedirs(os.path.join(d, "Types"), exist_ok=True)
    os.chdir(d)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)


class CodeUnderTestBroken(Exception):
    """a module of the code under test cannot be imported"""


def mod(name: str):
    full = f"{PKG}.{name}" if name else PKG
    if full in sys.modules:
        return sys.modules[full]
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            if PKG not in sys.modules:
                importlib.import_module(PKG)
            return importlib.import_module(full)
        except Exception as e:
            raise CodeUnderTestBroken(f"import {full}: {type(e).__name__}: {e}") from e

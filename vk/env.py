"""Load the code under test from /repo's working tree into this process, in a scratch directory.

The library prefers a config.toml of the current directory to its own and keeps its meter-type corpus in ./Types,
so the harness runs in a private scratch directory with a copy of the corpus alone; nothing is written to /repo.
"""
import atexit
import contextlib
import io
import logging
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("VK_REPO", "/repo")
_scratch = None


def scratch() -> str:
    return _scratch


def setup(types: bool = False) -> str:
    """create the scratch cwd; types: with a copy of the corpus of type files"""
    global _scratch
    sys.dont_write_bytecode = True
    _scratch = tempfile.mkdtemp(prefix="vk_")
    atexit.register(shutil.rmtree, _scratch, True)
    if types:
        src = os.path.join(REPO, "test", "Types")
        if os.path.isdir(src):
            shutil.copytree(src, os.path.join(_scratch, "Types"))
    os.chdir(_scratch)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    return _scratch


@contextlib.contextmanager
def quiet():
    """the library prints; keep its chatter out of the verdict stream"""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def load(name: str = ""):
    import importlib
    full = "src.DLMS_SPODES" + (f".{name}" if name else "")
    with quiet():
        return importlib.import_module(full)

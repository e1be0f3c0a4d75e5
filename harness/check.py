"""Entry point: python -m harness.check PROPERTY"""
import importlib
import os
import resource
import sys
import traceback

from . import core


def main():
    prop = sys.argv[1]
    c = core.Check(prop)
    os.environ["TMPDIR"] = c.workdir
    import tempfile
    tempfile.tempdir = c.workdir
    os.chdir(c.workdir)
    err = None
    try:
        mod = importlib.import_module(f"harness.checks.{prop.lower()}")
        mod.run(c)
    except core.MachineryError as e:
        err = f"machinery error: {e}"
    except BaseException as e:
        kind, text = core.classify(e)
        if kind == "violation":
            c.fail(f"{prop}:unexpected-exception", None, detail=text)
        err = "machinery error:\n" + text
    rc = c.finish(err)
    sys.stdout.flush()
    os._exit(rc)


main()

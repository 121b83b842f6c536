#!/usr/bin/env python3
"""Entry point: run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("HYPOTHESIS_NO_PLUGINS", "1")
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from harness.core import main  # noqa: E402

if __name__ == "__main__":
    main(sys.argv[1:])

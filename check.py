#!/usr/bin/env python3
"""Run one static check: check.py <property> [--thorough]."""

import importlib
import sys
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))

from spa.registry import CHECKS  # noqa: E402
from spa.report import run  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    module, technique, _ = CHECKS[prop]
    mod = importlib.import_module(f"spa.{module}")
    fn = getattr(mod, f"analyse_{prop.lower()}", None) or mod.analyse
    sys.exit(run(prop, technique, fn, sys.argv[2:]))

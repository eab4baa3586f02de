#!/usr/bin/env python3
"""Fills the Go build cache so that the first check is not slower than the others."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
import tempfile, shutil
from checks import CHECKS
for c in ("C17", "C23", "C16"):
    d = tempfile.mkdtemp(prefix="verif_setup_")
    try:
        check.build(c, dict(CHECKS[c], id=c), d, {})
    except check.CheckError as e:
        print(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)

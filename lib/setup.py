#!/usr/bin/env python3
"""Checks that the tools the checks use are present. Nothing needs building ahead of a run."""
import shutil, sys
miss = [t for t in ("goto-cc", "goto-instrument", "cbmc", "gcc") if not shutil.which(t)]
if miss: print("missing tools:", miss)
sys.exit(1 if miss else 0)

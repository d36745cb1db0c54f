#!/usr/bin/env python3
"""Builds the driver once, so that the checks only rebuild what changed, and lets TLC parse the specification."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import verif  # noqa: E402

verif.build()
verif.build_reallua()
print("ready")

#!/usr/bin/env python3
"""Decides one property of the crate in /repo from its source."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from obs.main import main
sys.exit(main(sys.argv[1:]))

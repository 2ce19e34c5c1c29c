#!/usr/bin/env python3
"""Builds the fact extractor and extracts the facts of the current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import facts
print("facts ready in %.1f s" % facts.ensure())

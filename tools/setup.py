#!/usr/bin/env python3
"""builds the extractor and the replay oracle (offline)"""
import subprocess, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.exit(subprocess.call(['python3', V + '/check.py', '--setup']))

#!/usr/bin/env python3
# sanity check of the tool chain; every check builds what it needs itself
import subprocess, sys
r = subprocess.run(["g++", "--version"], stdout=subprocess.PIPE)
sys.exit(r.returncode)

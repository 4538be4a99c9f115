#!/usr/bin/env python3
"""setup_cmd: compiles the TLC operator overrides; the drivers are built by each check from /repo's tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
vbuild.build_java()

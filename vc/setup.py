#!/usr/bin/env python3
"""builds the AST exporter (also built on demand by the checks)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prog
print(prog.build_exporter(None))

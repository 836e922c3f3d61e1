#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decides a property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.dont_write_bytecode = True
import akv, registry
akv.main(registry.REGISTRY[sys.argv[1]], sys.argv[1])

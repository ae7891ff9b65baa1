#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]"""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
sys.exit(common.main(sys.argv))

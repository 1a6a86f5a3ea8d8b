#!/usr/bin/env python3-vt
"""Entry point of every check: check.py <property> [--tier quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "gbtlv"))
import driver
sys.exit(driver.main(sys.argv[1:]))

#!/usr/bin/env python3
"""Decides one property: builds IR from /repo's working tree, discharges every obligation with engine/fv, reports.
usage: check.py PROPERTY [quick|thorough]"""
import sys, os, json, subprocess, time, hashlib, shutil, threading, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import props
from fvlib import *

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    R = Run(pid, tier)
    try: rc = props.TABLE[pid](R)
    finally: R.cleanup()
    sys.exit(rc)
if __name__ == '__main__': main()

#!/usr/bin/env python3
"""check.py ID: decide one property on the current tree of /repo (see DESIGN.md)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import props, vlib

if __name__ == '__main__':
    pid = sys.argv[1]
    if pid == '--setup':
        vlib.build(False), vlib.build(True), vlib.build_virt(), vlib.build_gotor()
        vlib.drop_builds()
        sys.exit(0)
    fn, level, assumptions = props.CHECKS[pid]
    vlib.main(pid, fn, level, assumptions)

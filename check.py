#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]

Decides one property of properties.jsonl on /repo's working tree: builds the driver from it, runs the driver on
generated cases and lets TLC decide from the specification whether what it observed is allowed.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core

if __name__ == "__main__":
    core.main(sys.argv[1:])

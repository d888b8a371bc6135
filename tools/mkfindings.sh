#!/bin/bash
# helper: print hash of the fix commit whose subject contains $1
git -C /repo log --format='%h %s' | grep -F "$1" | cut -d' ' -f1

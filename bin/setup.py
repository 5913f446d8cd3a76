#!/usr/bin/env python3
"""Checks that the tools the checks need are there; the checks build everything themselves, from /repo's current tree."""
import shutil, subprocess, sys
for t in ('g++', 'git'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
p = subprocess.run(['g++', '-std=c++17', '-fsanitize=address', '-x', 'c++', '-', '-o', '/dev/null'], input='int main() {}', text=True)
sys.exit(p.returncode)

"""Compiles the Java module overrides of the specification and checks that the tools are there."""

import shutil
import sys

import run

for tool in ('gcc', 'java'):
    if not shutil.which(tool):
        sys.exit('missing: ' + tool)
run.java_classes()

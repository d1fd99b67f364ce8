"""Builds the extractor and the dependencies once (every check would do so by itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
try:
    build.driver()
except Exception as e:
    print('setup: %s' % e)
print('setup done')

"""Builds the analysis engine from the committed source (cached under /verif/.build)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from common import engine_binary
print(engine_binary())

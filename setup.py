"""builds the analysis tool (build/irdump)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import ir
ir.ensure_tools()

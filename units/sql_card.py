import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sqltx


def vcs(src):
    return sqltx.goals(src, "card")

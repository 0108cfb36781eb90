"""Shared pieces of the bounded stand-ins."""
import math
import os
import random
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')

class Skip(Exception):
    """the case is outside what the property speaks about"""

class Bad(Exception):
    """the property is broken"""

def need(cond, msg, *args):
    if not cond:
        raise Bad(msg % args if args else msg)

def close(a, b, tol=0.002):
    return abs(a - b) <= tol

def comps(c):
    return list(c)

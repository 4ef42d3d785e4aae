"""Contracts for C11: continuation chaining and reading of results."""
from .futu import *
def prepare(): mod()
def units(tier): return ATTACH + DETACH + READ + [u for u in PACK if u[0] == 'reduced']
BATTERY = [SEQ, WAIT, TWAIT]
BOUNDED = ['await, await_for, blocking_get, blocking_get_for: bounded harness with threads']

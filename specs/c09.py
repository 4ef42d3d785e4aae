"""Contracts for C09: each continuation is scheduled exactly once, on its executor, after the result."""
from .futu import *
def prepare(): mod()
def units(tier): return ATTACH + DETACH + COMPLETE
BATTERY = [RACE, TRACE, SEQ]
BOUNDED = ['the interleavings of whole calls (contracts: monitor invariant per critical section, all interleavings; harness: random schedules)']

"""Contracts for C10: packaged tasks and promises."""
from .futu import *
def prepare(): mod()
def units(tier): return PACK + ASYNC + [u for u in READ if u[0] == 'ready']
BATTERY = [SEQ, RACE]

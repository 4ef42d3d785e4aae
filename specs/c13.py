"""Contracts for C13: when_any."""
from .whn import *
def prepare(): mod('when')
def units(tier): return ANYU
BATTERY = [wbat(['seq'], ['-fsanitize=address,undefined']), wbat(['race'], ['-O1', '-DPERTURB']), wbat(['race', 'noexc'], ['-fsanitize=thread'])]

"""Contracts for C12: when_all."""
from .whn import *
def prepare(): mod('when')
def units(tier): return ALLU
BATTERY = [wbat(['seq'], ['-fsanitize=address,undefined']), wbat(['race'], ['-O1', '-DPERTURB']), wbat(['race', 'noexc'], ['-fsanitize=thread'])]

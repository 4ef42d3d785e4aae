"""Contracts for C15: how joined channels combine their inputs."""
from .chan import *
def prepare(): mod()
def units(tier): return sunits()
def run(u): return strategy(u)
ASSUMPTIONS = []
BATTERY = []

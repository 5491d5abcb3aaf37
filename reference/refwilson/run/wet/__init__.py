"""Renormalization group running of Wilson coefficients in
the weak effective theory."""


from . import rge
from .classes import WETrunner

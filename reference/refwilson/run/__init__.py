"""Renormalization group evolution in SMEFT and WET."""


from . import smeft
from . import wet

"""SMEFT renormalization group evolution.

Based on arXiv:1308.2627, arXiv:1310.4838, and arXiv:1312.2014.

Ported from the [DsixTools](https://dsixtools.github.io) Mathematica package.
"""

from . import beta
from . import classes
from . import rge
from .classes import SMEFT

"""Classes for building HUGRs."""

from .base import ParentBuilder
from .cfg import Block, Cfg
from .cond_loop import Case, Conditional, If, TailLoop
from .dfg import DefinitionBuilder, DfBase, Dfg, Function
from .function import Module
from .tracked_dfg import TrackedDfg

__all__ = [
    "ParentBuilder",
    "Cfg",
    "Block",
    "Case",
    "If",
    "Conditional",
    "TailLoop",
    "Function",
    "Module",
    "TrackedDfg",
    "Dfg",
    "DefinitionBuilder",
    "DfBase",
]

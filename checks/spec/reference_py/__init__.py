"""`hugr` is a Python package for the Quantinuum HUGR common
representation.
"""

from . import model
from .hugr.base import Hugr
from .hugr.node_port import Direction, InPort, Node, OutPort, Wire

__all__ = [
    "Hugr",
    "Node",
    "OutPort",
    "InPort",
    "Direction",
    "Wire",
    "model",
]

# This is updated by our release-please workflow, triggered by this
# annotation: x-release-please-version
__version__ = "0.14.4"

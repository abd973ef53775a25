"""Types of the same names as those of types_a, but other ones."""
from .types_a import NAMES, make

globals().update(make(__name__, *NAMES))

"""Stand-in for numpy, which is not installed: the array type that pybind11 asks for."""
from .core.multiarray import ndarray, array

"""Multi-dimensional arrays: opengm/datastructures/marray/marray.hxx"""
from cv.unit import harness_units
DRIVER = "arrays.cxx"
UNITS = harness_units("arrays.cxx", unfold=4)

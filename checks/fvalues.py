"""Values of the built-in functions: opengm/functions/*.hxx"""
from cv.unit import harness_units
DRIVER = "fvalues.cxx"
UNITS = harness_units("fvalues.cxx", unfold=4)

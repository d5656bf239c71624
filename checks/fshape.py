"""Shapes of the built-in functions: opengm/functions/*.hxx"""
from cv.unit import harness_units
DRIVER = "fshape.cxx"
UNITS = harness_units("fshape.cxx", unfold=4)

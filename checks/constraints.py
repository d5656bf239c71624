"""Constraints: opengm/datastructures/{indicator_variable,linear_constraint}.hxx, opengm/functions/constraint_functions/*.hxx"""
from cv.unit import harness_units
DRIVER = "constraints.cxx"
UNITS = harness_units("constraints.cxx", unfold=4)

"""Combination and accumulation operators: opengm/operations/*.hxx, opengm/utilities/accumulation.hxx"""
from cv.unit import harness_units
DRIVER = "operations.cxx"
UNITS = harness_units("operations.cxx", unfold=4)
UNITS.update(harness_units("minmax.cxx", prefix="ieee ", fmode="fp"))
UNITS.update(harness_units("accumulation.cxx", prefix="accumulation "))

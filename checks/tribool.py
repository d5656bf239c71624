"""Three-valued logic: opengm/utilities/tribool.hxx"""
from cv.unit import *
DRIVER = "tribool.cxx"
UNITS = harness_units(DRIVER)

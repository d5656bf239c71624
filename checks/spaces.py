"""Label spaces: opengm/graphicalmodel/space/*.hxx"""
from cv.unit import harness_units
DRIVER = "spaces.cxx"
UNITS = harness_units("spaces.cxx", unfold=4)

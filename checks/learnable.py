"""Learnable functions: opengm/functions/learnable/{lpotts,lunary}.hxx, opengm/graphicalmodel/weights.hxx"""
from cv.unit import harness_units
DRIVER = "learnable.cxx"
UNITS = harness_units("learnable.cxx", unfold=4)

"""Label enumeration: opengm/utilities/{indexing,accessor_iterator,shape_accessor,subsequence_iterator,vector_view}.hxx"""
from cv.unit import harness_units
DRIVER = "walkers.cxx"
UNITS = harness_units("walkers.cxx", unfold=4)

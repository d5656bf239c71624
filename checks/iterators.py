"""Index views, accessor iterators, subsequences: opengm/utilities/{accessor_iterator,subsequence_iterator,vector_view,sorting}.hxx"""
from cv.unit import harness_units
DRIVER = "iterators.cxx"
UNITS = harness_units("iterators.cxx", unfold=4)

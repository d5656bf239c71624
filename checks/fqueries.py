"""Property queries of the functions: opengm/functions/function_properties_base.hxx and the overrides of the function classes"""
from cv.unit import harness_units
DRIVER = "fqueries.cxx"
UNITS = harness_units("fqueries.cxx", unfold=4)

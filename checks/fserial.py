"""Serialization of the built-in functions: opengm/functions/*.hxx"""
from cv.unit import harness_units, pure
DRIVER = "fserial.cxx"
UNITS = harness_units("fserial.cxx", unfold=4, setup=lambda u, n: pure(u, "opengm::unsignedIntegerPow"))

"""FastSequence and BufferVector: opengm/datastructures/{fast_sequence,buffer_vector}.hxx"""
from cv.unit import harness_units
DRIVER = "sequences.cxx"
OPS = "contents default sized filled copy assignment self_assignment push_back push_back_own resize reserve clear element".split()
UNITS = harness_units("sequences.cxx", names=["%s_%s" % (p, o) for p in ("fast", "fast1", "buffer") for o in OPS])

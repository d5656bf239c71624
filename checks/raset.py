"""RandomAccessSet: opengm/datastructures/randomaccessset.hxx"""
from cv.unit import harness_units
DRIVER = "raset.cxx"
OPS = "empty reserved insert insert_hint insert_range from_range erase_key erase_at erase_range find bounds access copy assignment swap clear reserve key_comp".split()
UNITS = harness_units("raset.cxx", names=["%s_%s" % (p, o) for p in ("inc", "dec", "dir") for o in OPS] + ["dir_swap2", "dir_assign2"])

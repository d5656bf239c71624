"""ChangeablePriorityQueue and FiFoQueue: opengm/utilities/queues.hxx"""
from cv.unit import harness_units
DRIVER = "queues.cxx"
OPS = "create push_new push_same push_earlier push_later change_earlier change_later change_same pop delete_last delete_inner top reset setPriorities".split()
UNITS = harness_units("queues.cxx", names=["%s_%s" % (p, o) for p in ("min", "max") for o in OPS] + ["fifo_" + o for o in "create push pop history clear".split()], feas=400000)

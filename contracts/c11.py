"""C11: space tree and heap structure."""
from contracts.bhlib import *
from contracts import bhlib
HARNESS = 'bh.cpp'; HARNESS_GROUPS = ['c11']
HARNESS_TUS = bhlib.SRC
EXTRACT = bhlib.EXTRACT
ASSUME = ['std::nth_element: the index range afterwards is a permutation of it with the element at the median no smaller than those before and no larger than those after (contract of the standard library)',
          'positive masses, at least one body, fewer than 2^28 bodies; an OpenMP task runs at the latest at the taskwait of its creator, and sibling tasks see disjoint parts of the tree (stated as frame obligations)']
BOUNDED = ['release of the old tree nodes concretely, under the address sanitizer']
def sections(tier): return bhlib.sections_structure(tier)

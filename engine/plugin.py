"""Base class of the property plugins."""
from values import *
from state import *
import state as S


class Plugin:
    watch_write = False
    watch_elem = False
    whole_seqs = False      # sequences of different shape are generalised as a whole

    def whole(self, st):
        return self.whole_seqs

    def on_elem(self, E, st, b, left):
        """an element of vector b was read"""

    def at_end(self, E, st):
        pass

    def lazy_cell(self, E, st, p, size, ty, o):
        return None

    def lazy_box(self, E, st, p, kind, info, o):
        return None

    def lazy_fill(self, E, st, p, size, o):
        pass

    def on_write(self, E, st, p, size, v):
        pass

    def indirect_call(self, E, st, fr, op, f, args):
        return NotImplemented

    def on_enter(self, E, st, fn, args, op):
        return None

    def at_head(self, E, st):
        pass

    def tapes(self, E, st):
        return []

    def struct_kind(self, v):
        return None

    def map_query(self, E, st, p, box, key):
        return None

    def search_bound(self, E, st, rand):
        """restrict the initial state of one round of the random search"""

    def search_drop(self, E, st, rand):
        """at a loop head of the random search: give this path up?"""
        return False

    def event(self, *a):
        pass

"""A recording stand-in for the part of Pandas that exporting needs (Pandas is not installed here)."""

import sys
import types

import numpy


class Interval(object):
    def __init__(self, left, right, closed="right"):
        if closed not in ("left", "right", "both", "neither"):
            raise ValueError("invalid option for 'closed': %r" % (closed,))
        if not left <= right:
            raise ValueError("left side of interval must be <= right side")
        self.left, self.right, self.closed = left, right, closed

    def __eq__(self, other):
        return isinstance(other, Interval) and (self.left, self.right, self.closed) == (other.left, other.right, other.closed)

    def __hash__(self):
        return hash((self.left, self.right, self.closed))

    def __repr__(self):
        return "Interval(%r, %r, closed=%r)" % (self.left, self.right, self.closed)


class Index(object):
    def __init__(self, rows, names):
        self.rows = rows
        self.names = names

    def __len__(self):
        return len(self.rows)


class MultiIndex(Index):
    @staticmethod
    def from_arrays(arrays, sortorder=None, names=None):
        arrays = [list(a) for a in arrays]
        if len(arrays) == 0:
            raise ValueError("Must pass non-zero number of levels/codes")
        if len(set(len(a) for a in arrays)) != 1:
            raise ValueError("all arrays must be same length")
        if names is not None and len(names) != len(arrays):
            raise ValueError("Length of names must match number of levels in MultiIndex.")
        return MultiIndex([tuple(r) for r in zip(*arrays)], None if names is None else list(names))

    @staticmethod
    def from_tuples(tuples, sortorder=None, names=None):
        return MultiIndex([tuple(r) for r in tuples], None if names is None else list(names))

    @staticmethod
    def from_product(iterables, sortorder=None, names=None):
        rows = [()]
        for it in iterables:
            it = list(it)
            rows = [r + (x,) for r in rows for x in it]
        return MultiIndex(rows, None if names is None else list(names))


class DataFrame(object):
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        self.index = index
        if isinstance(data, dict):
            columns = list(data) if columns is None else list(columns)
            data = numpy.array([data[c] for c in columns], dtype=float).T.reshape(-1, len(columns))
        elif data is not None:
            data = numpy.asarray(data)
            if data.dtype.names is not None:
                columns = list(data.dtype.names) if columns is None else list(columns)
                data = numpy.array([data[c] for c in columns], dtype=float).T.reshape(-1, len(columns))
        self.columns = list(columns)
        if data is None:
            data = numpy.full((len(index), len(self.columns)), numpy.nan)
        data = numpy.array(data)
        if data.ndim != 2 or data.shape != (len(index), len(self.columns)):
            raise ValueError("Shape of passed values is %r, indices imply %r" % (data.shape, (len(index), len(self.columns))))
        self.values = data


def install():
    mod = types.ModuleType("pandas")
    mod.Interval, mod.MultiIndex, mod.DataFrame, mod.Index = Interval, MultiIndex, DataFrame, Index
    mod.__version__ = "0.23.0"
    sys.modules["pandas"] = mod
    return mod

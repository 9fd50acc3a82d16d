"""Difference constraints of a path: x - y <= c, over symbolic inputs

Comparisons of instants ask the same few questions over and over.  Everything the
path has established in this form is kept as a closed matrix of upper bounds;
a comparison that follows from it, or contradicts it, needs no solver call.
Only what is left open is put to the solver.
"""

INF = float("inf")
ZERO = 0


class Bounds:
    def __init__(self):
        self.ub = {ZERO: {ZERO: 0}}
        self.neq = {}

    def node(self, leaf):
        """Row of a leaf, with the bounds of its own"""
        key = leaf.key
        if key not in self.ub:
            for row in self.ub.values():
                row[key] = INF
            self.ub[key] = {k: INF for k in self.ub}
            self.ub[key][key] = 0
            self._edge(key, ZERO, leaf.hi)
            self._edge(ZERO, key, -leaf.lo)
        return key

    def _edge(self, i, j, c):
        ub = self.ub
        if c >= ub[i][j]:
            return
        for a in ub:
            base = ub[a][i] + c
            if base == INF:
                continue
            row, via = ub[a], ub[j]
            for b in ub:
                if base + via[b] < row[b]:
                    row[b] = base + via[b]

    def le(self, i, j, c):
        """Add x_i - x_j <= c"""
        self._edge(i, j, c)
        self._tighten()

    def eq(self, i, j, c):
        self._edge(i, j, c)
        self._edge(j, i, -c)
        self._tighten()

    def ne(self, i, j, c):
        self.neq[(i, j, c)] = True
        self._tighten()

    def _tighten(self):
        again = True
        while again:
            again = False
            for i, j, c in self.neq:
                if self.ub[i][j] == c and self.ub[j][i] != -c:
                    self._edge(i, j, c - 1)
                    again = True
                elif self.ub[j][i] == -c and self.ub[i][j] != c:
                    self._edge(j, i, -c - 1)
                    again = True

    def ask_le(self, i, j, c):
        if self.ub[i][j] <= c:
            return True
        if self.ub[j][i] < -c:
            return False
        return None

    def ask_eq(self, i, j, c):
        if self.ub[i][j] == c and self.ub[j][i] == -c:
            return True
        if self.ub[i][j] < c or self.ub[j][i] < -c or (i, j, c) in self.neq:
            return False
        return None


class Leaf:
    __slots__ = ("key", "e", "lo", "hi")

    def __init__(self, key, e, lo, hi):
        self.key, self.e, self.lo, self.hi = key, e, lo, hi

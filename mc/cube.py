"""Independent description of the cubed sphere, used as oracle (no code of the repository)."""
import numpy as np

SOUTH, NORTH, WEST, EAST = 0, 1, 2, 3


def gauss(ns):
    return np.polynomial.legendre.leggauss(ns)[0]


def position(panel, x1, x2):
    """Unit vector of the point with equiangular coordinates (x1, x2) on a panel."""
    X, Y = np.tan(x1), np.tan(x2)
    one = np.ones_like(X * Y)
    X, Y = X * one, Y * one
    v = {
        0: (one, X, Y),
        1: (-X, one, Y),
        2: (-one, -X, Y),
        3: (X, -one, Y),
        4: (-Y, X, one),
        5: (Y, X, -one),
    }[panel]
    v = np.stack(v)
    return v / np.sqrt((v**2).sum(0))


def basis(panel, x1, x2):
    """Tangent vectors d(position)/dx1, d(position)/dx2 (complex step: exact to rounding)."""
    h = 1e-30
    e1 = np.imag(_cpos(panel, x1 + 1j * h, x2 + 0j)) / h
    e2 = np.imag(_cpos(panel, x1 + 0j, x2 + 1j * h)) / h
    return e1, e2


def _cpos(panel, x1, x2):
    X, Y = np.tan(x1), np.tan(x2)
    one = np.ones_like(X * Y)
    X, Y = X * one, Y * one
    v = {
        0: (one, X, Y),
        1: (-X, one, Y),
        2: (-one, -X, Y),
        3: (X, -one, Y),
        4: (-Y, X, one),
        5: (Y, X, -one),
    }[panel]
    v = np.stack(v)
    return v / np.sqrt((v**2).sum(0))


class Tile:
    """The tile of a rank: panel, row, col among lines x lines tiles per panel."""

    def __init__(self, rank, lines):
        self.rank, self.lines = rank, lines
        per = lines * lines
        self.panel = rank // per
        self.row, self.col = divmod(rank % per, lines)
        w = (np.pi / 2) / lines
        self.x1 = (-np.pi / 4 + self.col * w, -np.pi / 4 + (self.col + 1) * w)
        self.x2 = (-np.pi / 4 + self.row * w, -np.pi / 4 + (self.row + 1) * w)

    def line(self, lo, hi, ne, ns):
        """Solution points of ne elements with ns Gauss points each between lo and hi."""
        edges = np.linspace(lo, hi, ne + 1)
        g = gauss(ns)
        return np.concatenate([0.5 * (a + b) + 0.5 * (b - a) * g for a, b in zip(edges[:-1], edges[1:])])

    def edge(self, d, ne, ns):
        """(x1, x2) of the points along edge d, in the order in which the tile stores them."""
        t1 = self.line(*self.x1, ne, ns)
        t2 = self.line(*self.x2, ne, ns)
        if d == SOUTH:
            return t1, np.full_like(t1, self.x2[0])
        if d == NORTH:
            return t1, np.full_like(t1, self.x2[1])
        if d == WEST:
            return np.full_like(t2, self.x1[0]), t2
        return np.full_like(t2, self.x1[1]), t2


def edge_match(lines, ne, ns):
    """For every (rank, edge, point): the (rank', edge', point') of the tile on the other side, at the same position."""
    n = 6 * lines * lines
    ids, pts = [], []
    for r in range(n):
        t = Tile(r, lines)
        for d in range(4):
            x1, x2 = t.edge(d, ne, ns)
            p = position(t.panel, x1, x2)
            for i in range(p.shape[1]):
                ids.append((r, d, i))
                pts.append(p[:, i])
    pts = np.array(pts)
    table = {}
    for a, k in enumerate(ids):
        near = np.flatnonzero((np.abs(pts - pts[a]) < 1e-8).all(axis=1))
        near = [ids[b] for b in near if b != a]
        assert len(near) == 1, (k, near)
        table[k] = near[0]
    return table


def convert(vec, src, dst, covariant):
    """Components of a tangent vector at a shared point: from tile src=(panel,x1,x2) to dst=(panel,x1,x2)."""
    e = np.stack(basis(*src), axis=-1)  # 3 x 2
    f = np.stack(basis(*dst), axis=-1)
    if covariant:
        # c_i = V . e_i  ->  V = e (e^T e)^-1 c
        V = e @ np.linalg.solve(e.T @ e, vec)
        return f.T @ V
    V = e @ vec
    return np.linalg.solve(f.T @ f, f.T @ V)

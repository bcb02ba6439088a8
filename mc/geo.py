"""Independent analytic geometry of the rotated equiangular cubed sphere (oracle; no code of the repository)."""
import numpy as np

RADIUS = 6371220.0
OMEGA = 7.29212e-5
GRAVITY = 9.80616


def rotation(lon, lat, ang):
    """Rigid rotation that puts the centre of panel 0 at (lon, lat), turned by ang."""
    cl, sl, cp, sp, ca, sa = np.cos(lon), np.sin(lon), np.cos(lat), np.sin(lat), np.cos(ang), np.sin(ang)
    Rz = np.array([[cl, -sl, 0], [sl, cl, 0], [0, 0, 1]])
    Ry = np.array([[cp, 0, -sp], [0, 1, 0], [sp, 0, cp]])
    Rx = np.array([[1, 0, 0], [0, ca, -sa], [0, sa, ca]])
    return Rz @ Ry @ Rx.T


def _v(panel, X, Y):
    one = np.ones_like(X * Y)
    X, Y = X * one, Y * one
    return np.stack(
        {
            0: (one, X, Y),
            1: (-X, one, Y),
            2: (-one, -X, Y),
            3: (X, -one, Y),
            4: (-Y, X, one),
            5: (Y, X, -one),
        }[panel]
    )


def unit(panel, x1, x2):
    v = _v(panel, np.tan(x1), np.tan(x2))
    return v / np.sqrt((v * v).sum(0))


def tangents(panel, x1, x2):
    """d(unit)/dx1, d(unit)/dx2; analytic, so that they can be differentiated with a complex step."""
    X, Y = np.tan(x1), np.tan(x2)
    v = _v(panel, X, Y)
    z = 0 * X * Y
    d1 = (_v(panel, X + 1, Y) - v) * (1 + X * X + z)
    d2 = (_v(panel, X, Y + 1) - v) * (1 + Y * Y + z)
    n = np.sqrt((v * v).sum(0))
    out = []
    for d in (d1, d2):
        out.append(d / n - v * ((v * d).sum(0) / n**3))
    return out


class Points:
    """Everything known about a set of points (x1, x2) of a panel; components are in element coordinates:
    lengths along x1, x2 are measured in half elements (dx1, dx2 are the widths of an element)."""

    def __init__(self, panel, x1, x2, dx, rot, radius=RADIUS):
        x1, x2 = np.broadcast_arrays(np.asarray(x1, float), np.asarray(x2, float))
        self.panel, self.x1, self.x2, self.rot = panel, x1, x2, rot
        self.half = dx / 2.0
        R = lambda w: np.tensordot(rot, w, axes=(1, 0))
        self.p = R(unit(panel, x1, x2))
        e1, e2 = tangents(panel, x1, x2)
        self.e = np.stack([R(e1), R(e2)]) * radius * self.half  # (2, 3, ...)
        self.lon = np.arctan2(self.p[1], self.p[0]) % (2 * np.pi)
        self.lat = np.arcsin(np.clip(self.p[2], -1, 1))
        self.east = np.stack([-np.sin(self.lon), np.cos(self.lon), 0 * self.lon])
        self.north = np.stack(
            [-np.sin(self.lat) * np.cos(self.lon), -np.sin(self.lat) * np.sin(self.lon), np.cos(self.lat)]
        )
        self.cov = np.einsum("ia...,ja...->ij...", self.e, self.e)
        det = self.cov[0, 0] * self.cov[1, 1] - self.cov[0, 1] ** 2
        self.sqrtG = np.sqrt(det)
        self.contra = np.stack(
            [np.stack([self.cov[1, 1], -self.cov[0, 1]]), np.stack([-self.cov[0, 1], self.cov[0, 0]])]
        ) / det
        self.f = 2 * OMEGA * np.sin(self.lat)

    def dual(self):
        return np.einsum("ij...,ja...->ia...", self.contra, self.e)

    def wind(self, u1, u2):
        """(eastward, northward) of contravariant components."""
        V = u1 * self.e[0] + u2 * self.e[1]
        return (V * self.east).sum(0), (V * self.north).sum(0)

    def components(self, u, v):
        V = u * self.east + v * self.north
        d = self.dual()
        return (V * d[0]).sum(0), (V * d[1]).sum(0)

    def christoffel(self):
        """G[i][j][k] of the element coordinates (spatial), by complex step on the analytic tangents."""
        h = 1e-30
        R = lambda w: np.tensordot(self.rot, w, axes=(1, 0))
        de = []
        for j in range(2):
            a = self.x1 + (1j * h if j == 0 else 0)
            b = self.x2 + (1j * h if j == 1 else 0)
            t = tangents(self.panel, a, b)
            de.append([R(np.imag(w) / h) * RADIUS * self.half * self.half for w in t])
        d = self.dual()
        return [[[(d[i] * de[j][k]).sum(0) for k in range(2)] for j in range(2)] for i in range(2)]

    def coriolis(self):
        """C[i][j]: i-th contravariant component of (vertical component of the rotation) x e_j."""
        d = self.dual()
        w = OMEGA * np.sin(self.lat) * self.p
        return [[(d[i] * np.cross(w, self.e[j], axis=0)).sum(0) for j in range(2)] for i in range(2)]


def gauss(ns):
    return np.polynomial.legendre.leggauss(ns)[0]


def element_points(lo, hi, ne, ns):
    """(ne, ns) coordinates of the solution points of the elements between lo and hi."""
    w = (hi - lo) / ne
    c = lo + w * (np.arange(ne) + 0.5)
    return c[:, None] + 0.5 * w * gauss(ns)[None, :]


def tile_range(rank, lines):
    per = lines * lines
    panel, r = divmod(rank, per)
    row, col = divmod(r, lines)
    w = (np.pi / 2) / lines
    return panel, (-np.pi / 4 + col * w, -np.pi / 4 + (col + 1) * w), (-np.pi / 4 + row * w, -np.pi / 4 + (row + 1) * w)


def interior(rank, lines, ne, ns, rot):
    """Solution points of a tile with ne elements per side, in the shape (ne, ne, ns*ns) used for states."""
    panel, r1, r2 = tile_range(rank, lines)
    a = element_points(*r1, ne, ns)
    b = element_points(*r2, ne, ns)
    x1 = np.broadcast_to(a[None, :, None, :], (ne, ne, ns, ns)).reshape(ne, ne, ns * ns)
    x2 = np.broadcast_to(b[:, None, :, None], (ne, ne, ns, ns)).reshape(ne, ne, ns * ns)
    return Points(panel, x1, x2, (r1[1] - r1[0]) / ne, rot)


def edges_i(rank, lines, ne, ns, rot):
    """West and east edge of every element: (ne, ne, 2*ns)"""
    panel, r1, r2 = tile_range(rank, lines)
    w = (r1[1] - r1[0]) / ne
    b = element_points(*r2, ne, ns)
    x2 = np.broadcast_to(b[:, None, None, :], (ne, ne, 2, ns)).reshape(ne, ne, 2 * ns)
    x1 = np.broadcast_to((r1[0] + w * (np.arange(ne)[None, :, None, None] + np.arange(2)[None, None, :, None])), (ne, ne, 2, ns)).reshape(ne, ne, 2 * ns)
    return Points(panel, x1, x2, w, rot)


def edges_j(rank, lines, ne, ns, rot):
    """South and north edge of every element: (ne, ne, 2*ns)"""
    panel, r1, r2 = tile_range(rank, lines)
    w = (r1[1] - r1[0]) / ne
    a = element_points(*r1, ne, ns)
    x1 = np.broadcast_to(a[None, :, None, :], (ne, ne, 2, ns)).reshape(ne, ne, 2 * ns)
    x2 = np.broadcast_to((r2[0] + w * (np.arange(ne)[:, None, None, None] + np.arange(2)[None, None, :, None])), (ne, ne, 2, ns)).reshape(ne, ne, 2 * ns)
    return Points(panel, x1, x2, w, rot)

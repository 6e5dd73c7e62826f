"""a stand-in for the grids of the brille library (which crash on many crystals): fixed points, filled as Euphonic fills them, and
inverse-distance interpolation; everything else of brille (symmetry, lattice, Brillouin zone) is real"""
import numpy as np

POINTS = np.array([[0., 0., 0.], [0.5, 0., 0.], [0., 0.5, 0.5], [0.25, 0.1, -0.3], [0.5, 0.5, 0.5], [0.1, -0.4, 0.2]])


class Grid:
    def __init__(self, bz, **kw):
        self.kw = {k: float(v) for k, v in kw.items()}
        self.BrillouinZone = bz
        self.rlu = POINTS.copy()
        # the requested size matters, smoothly
        size = sum(self.kw.values())
        self.soft = 1e-3*(1 + size/(100 + size))

    def fill(self, values, values_el, values_weight, vectors, vectors_el, vectors_weight):
        self.values, self.vectors = np.array(values), np.array(vectors)

    def ir_interpolate_at(self, qpts, **kw):
        d = np.linalg.norm(qpts[:, None, :] - self.rlu[None], axis=-1)
        w = 1/(d + self.soft)
        w /= w.sum(axis=1, keepdims=True)
        return np.einsum('qg,gmx->qmx', w, self.values), np.einsum('qg,gmx->qmx', w, self.vectors)


class Trellis(Grid):
    pass


class Mesh(Grid):
    pass


class Nest(Grid):
    pass


def install():
    import brille
    if brille.BZTrellisQdc is not Trellis:
        brille.BZTrellisQdc, brille.BZMeshQdc, brille.BZNestQdc = Trellis, Mesh, Nest

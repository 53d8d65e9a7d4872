import aesara
import aesara.tensor as at
import numpy as np
from aesara.sparse.basic import _is_sparse_variable, dense_from_sparse
from aesara.tensor.random import RandomStream
from aesara.tensor.random.op import RandomVariable
from aesara.tensor.var import TensorVariable
from polyagamma import random_polyagamma


class PolyaGammaRV(RandomVariable):
    name = "polyagamma"
    ndim_supp = 0
    ndims_params = [0, 0]
    dtype = "floatX"
    _print_name = ("PG", "\\operatorname{PG}")

    def __call__(self, h=1.0, z=0.0, size=None, **kwargs):
        return super().__call__(h, z, size=size, **kwargs)

    @classmethod
    def rng_fn(cls, rng, h, z, size=None):
        bg = rng._bit_generator if isinstance(rng, np.random.RandomState) else rng
        return random_polyagamma(h, z, size=size, random_state=bg).astype(
            aesara.config.floatX
        )


polyagamma = PolyaGammaRV()


def multivariate_normal_rue2005(rng, b, Q):
    if _is_sparse_variable(Q):
        Q = dense_from_sparse(Q)
    L = at.linalg.cholesky(Q)
    w = at.slinalg.solve_triangular(L, b, lower=True)
    u = at.slinalg.solve_triangular(L.T, w, lower=False)
    z = rng.standard_normal(size=L.shape[0])
    z.owner.outputs[0].name = "z_rng"
    v = at.slinalg.solve_triangular(L.T, z, lower=False)
    return u + v


def multivariate_normal_cong2017(
    rng: RandomStream,
    A: TensorVariable,
    omega: TensorVariable,
    phi: TensorVariable,
    t: TensorVariable,
) -> TensorVariable:
    A_inv = 1 / A
    a_rows = A.shape[0]
    z = rng.standard_normal(size=a_rows + omega.shape[0])
    z.owner.outputs[0].name = "z_rng"
    y1 = at.sqrt(A_inv) * z[:a_rows]
    y2 = (1 / at.sqrt(omega)) * z[a_rows:]
    Ainv_phi = A_inv[:, None] * phi.T
    B = phi @ Ainv_phi
    indices = at.arange(B.shape[0])
    B = at.subtensor.set_subtensor(
        B[indices, indices],
        at.diag(B) + 1.0 / omega,
    )
    alpha = at.linalg.solve(B, t - phi @ y1 - y2, assume_a="pos")
    return y1 + Ainv_phi @ alpha

import numpy as np

from _gap import module_getattr

__getattr__ = module_getattr("sklearn.gaussian_process.kernels")


class Kernel:
    pass


class RBF(Kernel):
    def __init__(self, length_scale=1.0, length_scale_bounds=(1e-5, 1e5)):
        self.length_scale = length_scale

    def __call__(self, X, Y=None, eval_gradient=False):
        X = np.atleast_2d(X)
        Y = X if Y is None else np.atleast_2d(Y)
        d = ((X[:, None, :] - Y[None, :, :]) / self.length_scale) ** 2
        K = np.exp(-0.5 * d.sum(axis=2))
        return K


class DotProduct(Kernel):
    def __init__(self, sigma_0=1.0, sigma_0_bounds=(1e-5, 1e5)):
        self.sigma_0 = sigma_0

    def __call__(self, X, Y=None, eval_gradient=False):
        X = np.atleast_2d(X)
        Y = X if Y is None else np.atleast_2d(Y)
        return np.inner(X, Y) + self.sigma_0 ** 2

'''Stand-ins for fitted models, so that the real search functions can be run on any history of scores quickly'''
import random
import numpy as np

class FakeGPy:
    '''What scoring needs of a fitted GPy model'''
    def __init__(self, X, ll, k): self.X, self._ll, self._k, self.num_data = X, ll, k, len(X)
    def log_likelihood(self): return self._ll
    def _size_transformed(self): return self._k

class Fitter:
    '''A model_list_fitter: one scored model per expression, in order; scores drawn (with ties) from a seeded generator'''
    def __init__(self, seed, ties = False): self.r, self.ties, self.calls = random.Random(seed), ties, []
    def __call__(self, X, Y, k_exprs, restarts = 5, optimiser = 'lbfgsb', max_retries = 1):
        from GPy_ABCD.Models.model import GPModel
        ms = []
        for kex in k_exprs:
            m = GPModel(X, Y, kex)
            m.restarts = restarts
            ll = float(self.r.randint(-3, 3)) if self.ties else self.r.uniform(-100, 100)
            m.model = FakeGPy(X, ll, self.r.randint(1, 2 if self.ties else 8))
            ms.append(m)
        self.calls.append(dict(X = X, Y = Y, kexs = list(k_exprs), models = list(ms), args = (restarts, optimiser, max_retries)))
        return ms

CH = 'python/getdist/chains.py'
MC = 'python/getdist/mcsamples.py'
HEAD = '''
import numpy as np
from getdist import MCSamples
from getdist.chains import WeightedSamples
'''
seed('quantile-right', 'C06', 'a fraction that the cumulative weight reaches exactly at a sample',
     'the limit is the next larger sample when the cumulative weight equals the fraction exactly',
     [(CH, "ix = np.searchsorted(d.cumsum, target)", "ix = np.searchsorted(d.cumsum, target, side='right')")],
     HEAD + '''
s = WeightedSamples(samples=np.array([[4.], [1.], [3.], [2.]]), weights=np.ones(4))
assert s.confidence(0, 0.5) == 2, s.confidence(0, 0.5)
assert s.confidence(0, 0.25, upper=True) == 3
assert s.confidence(0, 0.3) == 2
''')
seed('subrange-weights', 'C06', 'limits of a part of the samples not starting at the first row, with unequal weights',
     'limits of a sub-range use the weights of the first rows of the whole samples',
     [(CH, "cumsum=np.cumsum(weights[start + indices]))", "cumsum=np.cumsum(weights[indices]))")],
     HEAD + '''
x = np.array([5., 6, 7, 1, 2, 3])
w = np.array([1., 1, 1, 8, 1, 1])
s = WeightedSamples(samples=x.reshape(-1, 1), weights=w)
assert s.confidence(0, 0.5) == 1
assert s.confidence(0, 0.5, start=3) == 1, s.confidence(0, 0.5, start=3)
assert s.confidence(0, 0.5, end=3) == 6
''')
seed('equal-weights-norm', 'C06', 'limits with weights given that do not sum to the weights of the samples',
     'limits with other weights use the total of the weights of the samples',
     [(CH, "norm=np.sum(weights[start:end]),", "norm=np.sum(weights[start:end]) if start or end else self.norm,"),
      (CH, "            weights = self.weights\n        paramVec = self._makeParamvec(paramVec)[start:end]",
       "            weights = self.weights\n        if self.means is None:\n            self.setMeans()\n        paramVec = self._makeParamvec(paramVec)[start:end]")],
     HEAD + '''
x = np.arange(1., 9)
s = WeightedSamples(samples=x.reshape(-1, 1), weights=np.ones(8))
assert s.confidence(0, 0.25) == 2
assert s.confidence(0, 0.25, weights=np.ones(8) * 4) == 2
assert s.confidence(0, 0.75, weights=np.ones(8) / 2) == 6
''')
seed('region-by-weight', 'C06', 'samples where the most likely ones are not the ones with most weight, and equal likelihoods',
     'the best-fit sample is the last of the samples ordered by posterior, of a weighted likelihood',
     [(MC, "bestfit_ix = np.argmin(self.loglikes)", "bestfit_ix = np.argmin(np.where(self.weights > self.norm * 1e-3, self.loglikes, np.max(self.loglikes)))")],
     HEAD + '''
rng = np.random.default_rng(1)
x = rng.normal(size=(2000, 2))
L = (x ** 2).sum(axis=1) / 2 + 1
w = np.ones(2000)
b = np.argmin(L)
m = MCSamples(samples=x, loglikes=L, weights=w + 2, names=['a', 'b'], ignore_rows=0).getLikeStats()
assert m.parWithName('a').bestfit_sample == x[b, 0], 'best fit'
assert abs(m.logLike_sample - L[b]) < 1e-10
''')

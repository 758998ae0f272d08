CV = 'python/getdist/covmat.py'
CH = 'python/getdist/chains.py'
HEAD = '''
import os, sys, tempfile, shutil
import numpy as np
from getdist import MCSamples
from getdist.covmat import CovMat
'''
seed('merge-by-second', 'C15', 'merging matrices with at least two parameters in common, in another order',
     'the merged matrix has the entries of the second matrix for pairs both contain',
     [(CV, "                if C.paramNames[i] in params1 and C.paramNames[j] in params1:\n                    C.matrix[i, j] = self.matrix[map1[covmap[i]], map1[covmap[j]]]\n                elif C.paramNames[i] in params2 and C.paramNames[j] in params2:\n                    C.matrix[i, j] = cov2.matrix[map2[covmap[i]], map2[covmap[j]]]",
           "                if C.paramNames[i] in params2 and C.paramNames[j] in params2 and i != j:\n                    C.matrix[i, j] = cov2.matrix[map2[covmap[i]], map2[covmap[j]]]\n                elif C.paramNames[i] in params1 and C.paramNames[j] in params1:\n                    C.matrix[i, j] = self.matrix[map1[covmap[i]], map1[covmap[j]]]\n                elif C.paramNames[i] in params2 and C.paramNames[j] in params2:\n                    C.matrix[i, j] = cov2.matrix[map2[covmap[i]], map2[covmap[j]]]")],
     HEAD + '''
a = CovMat(matrix=np.array([[4., 1.], [1., 9.]]), paramNames=['x', 'y'])
b = CovMat(matrix=np.array([[1., .5, .2], [.5, 16., 3.], [.2, 3., 25.]]), paramNames=['z', 'y', 'x'])
m = a.mergeCovmatWhereNew(b)
assert m.paramNames == ['x', 'y', 'z']
assert np.allclose(m.matrix, [[4, 1, .2], [1, 9, .5], [.2, .5, 1]]), m.matrix
''')
seed('cov-pars-sorted', 'C15', 'a covariance asked for a list of parameters that is not in increasing order',
     'the covariance of a list of parameters is returned in the order of the samples, not of the list',
     [(CH, "            return self.fullcov[np.ix_(pars, pars)]", "            return self.fullcov[np.ix_(np.unique(pars), np.unique(pars))]")],
     HEAD + '''
x = np.random.default_rng(3).normal(size=(300, 3)) * [1, 2, 3]
s = MCSamples(samples=x, names=['a', 'b', 'c'], settings={'ignore_rows': 0})
assert np.allclose(s.getCov(pars=[0, 2]), np.cov(x[:, [0, 2]].T, ddof=0))
assert np.allclose(s.getCov(pars=[2, 0]), np.cov(x[:, [2, 0]].T, ddof=0))
''')

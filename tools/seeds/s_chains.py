CH = 'python/getdist/chains.py'
MC = 'python/getdist/mcsamples.py'
seed('fixed-tiny-params', 'C01', 'a parameter whose values are all tiny (e.g. A_s ~ 2e-9) while still varying',
     'deleting fixed parameters also deletes a varying parameter with very small values',
     [(CH, 'if np.allclose(self.samples[:, i], mean, rtol=1e-12, atol=0):', 'if np.allclose(self.samples[:, i], mean, rtol=1e-12):')],
     '''
import numpy as np
from getdist.chains import WeightedSamples
x = np.array([[1., 2.1e-9], [2., 2.3e-9], [3., 2.2e-9]])
w = WeightedSamples(samples=x)
w.deleteFixedParams()
assert w.samples.shape == (3, 2), w.samples.shape
assert np.array_equal(w.samples, x)
''')
seed('minweight-loglikes', 'C01', 'weights spanning the minimum ratio and loglikes present, first sample surviving',
     'dropping low weight samples keeps the samples just at the threshold of the wrong side: the row kept loses its own log-likelihood',
     [(CH, '''                self.filter(self.weights > max_weight * min_weight_ratio)''',
       '''                keep = np.nonzero(self.weights > max_weight * min_weight_ratio)[0]
                if self.loglikes is not None and keep[-1] - keep[0] + 1 == len(keep):
                    # contiguous block, avoid copies
                    self.loglikes = self.loglikes[:len(keep)]
                    self.weights = self.weights[keep]
                    self.changeSamples(self.samples[keep[0]:keep[-1] + 1, :])
                else:
                    self.filter(keep)''')],
     '''
import numpy as np
from getdist.chains import WeightedSamples
x = np.arange(8.).reshape(4, 2)
w = WeightedSamples(samples=x, weights=np.array([1e-40, 1., 2., 3.]), loglikes=np.array([9., 1., 2., 3.]), min_weight_ratio=-1)
w.setMinWeightRatio(1e-30)
assert np.array_equal(w.samples, x[1:]), w.samples
assert np.array_equal(w.loglikes, [1., 2., 3.]), w.loglikes
''')
seed('separate-last-chain', 'C02', 'combined chains filtered so that rows at the end of the last chain are dropped... and then separated again',
     'separated chains share a boundary row: the last row of one chain is given to the next chain',
     [(CH, 'self.chain_offsets = np.cumsum(np.array([0] + [chain.samples.shape[0] for chain in self.chains]))',
       'self.chain_offsets = np.cumsum(np.array([0] + [np.count_nonzero(chain.weights) for chain in self.chains]))')],
     '''
import numpy as np
from getdist.chains import Chains, WeightedSamples
c = Chains(names=['a'])
c.chains = [WeightedSamples(samples=np.array([[1.], [2.], [3.]]), weights=np.array([1., 0., 1.]), min_weight_ratio=-1),
            WeightedSamples(samples=np.array([[4.], [5.]]), weights=np.array([1., 1.]), min_weight_ratio=-1)]
c.makeSingle()
got = [list(ch.samples[:, 0]) for ch in c.getSeparateChains()]
assert got == [[1, 2, 3], [4, 5]], got
''')
seed('thin-carry', 'C03', 'a weight larger than the thin factor following a partially filled step',
     'thinning loses the units carried over from previous samples, so the wrong units are kept',
     [(CH, '''                        mult -= (factor - tot)
                    tot = 0''', '''                        mult -= (factor - min(tot, 1))
                    tot = 0''')],
     '''
import numpy as np
from getdist.chains import WeightedSamples
w = np.array([2, 7, 1, 5, 3, 9])
for f in (3, 4):
    ix = WeightedSamples.thin_indices_single_samples(f, w)
    units = np.repeat(np.arange(len(w)), w)
    assert list(ix) == list(units[f - 1::f]), (f, ix, units[f - 1::f])
''')
seed('stale-neff', 'C04', 'density requested, samples then changed (filter, thin, reweight), density requested again',
     'the kernel bandwidth of the new density is chosen with the effective sample number of the samples before the change',
     [(MC, '''        for par in self.paramNames.names:
            par.N_eff_kde = None
''', '''        for par in self.paramNames.names:
            if not hasattr(par, 'N_eff_kde') or par.isDerived:
                par.N_eff_kde = None
''')],
     '''
import numpy as np
from getdist import MCSamples
r = np.random.RandomState(1)
x = np.cumsum(r.normal(size=(400, 2)), 0) * 0.02 + r.normal(size=(400, 2))
kw = dict(names=['a', 'b'], settings={'ignore_rows': 0})
s = MCSamples(samples=x, loglikes=np.sum(x ** 2, 1) / 2, **kw)
s.get1DDensity('a')
keep = np.arange(400) % 5 == 0
s.filter(keep)
d = s.get1DDensity('a')
f = MCSamples(samples=x[keep], loglikes=np.sum(x[keep] ** 2, 1) / 2, **kw).get1DDensity('a')
assert np.allclose(d.P, f.P, atol=1e-3), np.max(np.abs(d.P - f.P))
''')
seed('density-settings-cached', 'C04', 'a 1D density requested with its own settings, then one with the default settings',
     'a density computed with one-off settings is reported for later default queries',
     [(MC, '''        density1D.normalize('max', in_place=True)
        if not kwargs:
''', '''        density1D.normalize('max', in_place=True)
        if not kwargs or (list(kwargs) == ['fine_bins'] and not meanlikes):
''')],
     '''
import numpy as np
from getdist import MCSamples
r = np.random.RandomState(1)
x = r.normal(size=(400, 2))
kw = dict(samples=x, names=['a', 'b'], settings={'ignore_rows': 0})
s = MCSamples(**kw)
s.get1DDensity('a', fine_bins=200)
d = s.get1DDensity('a')
f = MCSamples(**kw).get1DDensity('a')
assert len(d.P) == len(f.P) and np.allclose(d.P, f.P, atol=1e-6)
''')

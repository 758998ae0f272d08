DE = 'python/getdist/densities.py'
MC = 'python/getdist/mcsamples.py'
HEAD = '''
import numpy as np
from getdist.densities import Density1D, Density2D, getContourLevels
'''
seed('half-edge-once', 'C26', 'a two-dimensional density that is not small on all four edges',
     'only the edges along one direction count half when contour levels are calculated',
     [(DE, "            lastindices = np.roll(lastindices, 1)\n", "            lastindices = np.roll(lastindices, len(lastindices))\n")],
     HEAD + '''
P = np.ones((4, 4))
P[1:3, 1:3] = 3
P[:, 3] = 2
l = getContourLevels(P, [0.55])
# masses: 12 inside, right edge 6, the rest 4.5: the level is in the right edge
w = np.array([0.5, 1, 1, 0.5])
m = P * w * w[:, None]
assert 1 < l[0] <= 3
lev = getContourLevels(P, [0.75])[0]
assert m[P < lev].sum() <= 0.25 * m.sum() + 1e-9 and m[P <= min(P[P >= lev])].sum() >= 0.25 * m.sum() - 1e-9, lev
for f in np.arange(0.3, 0.95, 0.05):
    lev = getContourLevels(P, [f])[0]
    assert m[P < lev - 1e-9].sum() <= (1 - f) * m.sum() + 1e-9 and m[P <= min(P[P >= lev - 1e-9])].sum() >= (1 - f) * m.sum() - 1e-9, (f, lev)
''')
seed('spline-kept', 'C26', 'a density that was interpolated, then normalized in place',
     'interpolated values of a density are those from before it was normalized',
     [(DE, "            self.setP(self.P / norm)\n        self.spl = None\n", "            self.setP(self.P / norm)\n")],
     HEAD + '''
x = np.arange(6.)
d = Density1D(x, np.array([0., 1, 4, 4, 1, 0]))
assert abs(d(2.)[0] - 4) < 1e-9
d.normalize('max', in_place=True)
assert abs(d(2.)[0] - 1) < 1e-9, d(2.)
''')
seed('limit-top-index', 'C26', 'an upper limit of a density, far from the middle of its range',
     'the upper end of an interval is found from the lower side where the density is highest at the lower edge',
     [(DE, "            lim_top = (g.grid[-1] >= trial)\n", "            lim_top = (g.grid[-1] >= trial) or (lim_bot and g.grid[-1] > 0.9 * trial)\n")],
     HEAD + '''
x = np.linspace(0, 1, 101)
for a in np.linspace(0.8, 3.5, 40):
    d = Density1D(x, np.exp(-x * a))
    mn, mx, bot, top = d.getLimits(0.95)
    assert bot and not top and mx < 1, (a, mx, top)
''')
seed('spline-square', 'C26', 'a two-dimensional density with as many points in x as in y',
     'interpolated values of a density on a square grid are those of the transposed density',
     [(DE, "self.spl = RectBivariateSpline(self.x, self.y, self.P.T, s=0)", "self.spl = RectBivariateSpline(self.x, self.y, self.P.T if self.x.size != self.y.size else self.P, s=0)")],
     HEAD + '''
x, y = np.arange(5.), np.arange(5.) * 2
P = np.arange(25.).reshape(5, 5)
d = Density2D(x, y, P)
assert abs(float(np.squeeze(d(1., 6.))) - P[3, 1]) < 1e-6, d(1., 6.)
''')
seed('contours-from-second', 'C26', 'contours of a two-dimensional density of samples, other than the default fractions',
     'the contour levels are those of the default fractions when as many are asked for as there are',
     [(MC, "        density.contours = density.getContourLevels(contours)\n", "        density.contours = density.getContourLevels(contours) if len(contours) != 2 else density.getContourLevels()\n")],
     HEAD + '''
from getdist import MCSamples, chains
chains.print_load_details = False
x = np.random.RandomState(1).normal(size=(4000, 2))
s = MCSamples(samples=x, names=['a', 'b'], settings=dict(contours='0.3 0.5'))
s.updateSettings(settings=dict(contours='0.3 0.5'), doUpdate=False)
s.contours = np.array([0.3, 0.5])
d = s.get2DDensityGridData('a', 'b', num_plot_contours=2)
f = [d.P[d.P > l].sum() / d.P.sum() for l in d.contours]
assert abs(f[0] - 0.3) < 0.05 and abs(f[1] - 0.5) < 0.05, f
''')

PL = 'python/getdist/plots.py'
HEAD = '''
import matplotlib
matplotlib.use('Agg')
import warnings; warnings.simplefilter('ignore')
import numpy as np
from getdist import MCSamples, plots, chains
chains.print_load_details = False
def S(n, names, lab, bounds=None):
    r = np.random.RandomState(n)
    return MCSamples(samples=r.normal(size=(500, len(names))) + n * 0.5 + np.arange(len(names)) * 10, names=names, labels=['L%d' % n + x for x in names], label=lab,
                     ranges=bounds)
g = plots.get_subplot_plotter()
'''
seed('legend-order-labels', 'C27', 'a legend in another order than that of the samples, which is not a mere exchange',
     'labels in the legend are put in the inverse of the requested order, so they stand beside the colours of other samples',
     [(PL, "            legend_labels = [legend_labels[i] for i in label_order]\n", "            legend_labels = [legend_labels[list(label_order).index(i)] for i in range(len(label_order))]\n")],
     HEAD + '''
a = [S(k, ['a', 'b'], 's%d' % k) for k in range(3)]
g.plots_1d(a, ['a', 'b'], colors=['red', 'green', 'blue'], label_order=[1, 2, 0])
l = g.fig.legends[0]
h = l.legend_handles if hasattr(l, 'legend_handles') else l.legendHandles
got = [(t.get_text(), x.get_color()) for t, x in zip(l.get_texts(), h)]
assert got == [('s1', 'green'), ('s2', 'blue'), ('s0', 'red')], got
''')
seed('rename-first-only', 'C27', 'samples that have a parameter under another name, not the first in the list of its names',
     'a renamed parameter is not found in samples after the first that lack it',
     [(PL, "        if isinstance(param, ParamInfo):\n            name = param.name\n            if hasattr(param, 'renames'):\n                if renames:\n", "        if isinstance(param, ParamInfo):\n            name = param.name\n            if hasattr(param, 'renames'):\n                if renames and name not in renames:\n")],
     HEAD + '''
a, b = S(0, ['a', 'p3'], 'A'), S(1, ['a', 'q3'], 'B')
g.plots_1d([a, b], ['a', 'p3'], param_renames={'p3': 'q3'})
n = [len(ax.lines) for ax in g.subplots.reshape(-1)]
assert n == [2, 2], n
''')
seed('rect-last-limits', 'C27', 'a rectangle plot with limits given for a parameter of the columns',
     'limits given for a parameter are ignored for columns other than the first',
     [(PL, "            ax.set_xlim(param_limits.get(xparam, limits[xparam]))\n", "            ax.set_xlim(param_limits.get(xparam, limits[xparam]) if ax is xshares[0] else limits[xparam])\n")],
     HEAD + '''
a = S(0, ['a', 'b', 'c'], 'A')
g.rectangle_plot(['a', 'b'], ['c'], roots=[a], param_limits={'b': [3, 21]})
assert np.allclose(g.subplots[0, 1].get_xlim(), [3, 21]), g.subplots[0, 1].get_xlim()
''')
seed('density-key-sorted', 'C27', 'a second plot with the same plotter of the same parameters with the axes exchanged',
     'the two-dimensional density of a pair of parameters is taken from an earlier plot with the axes exchanged',
     [(PL, "        key = (param1.name, param2.name, likes, conts)\n", "        key = tuple(sorted((param1.name, param2.name))) + (likes, conts)\n")],
     HEAD + '''
a = S(0, ['a', 'b'], 'A')
g.plots_2d([a], 'a', ['b'])
g.plots_2d([a], 'b', ['a'])
ax = g.subplots[0, 0]
v = np.vstack([p.vertices for c in ax.collections for p in c.get_paths()])
assert abs(v[:, 0].mean() - 10) < 2 and abs(v[:, 1].mean()) < 2, v.mean(0)
''')
seed('scatter-colour-first', 'C27', 'an array of several coloured scatter plots with different colour parameters',
     'the label of the colour bar is that of the parameter along y where that is listed later among the parameters',
     [(PL, "            self.last_colorbar = self.add_colorbar(params[2], mappable=self.last_scatter, ax=ax, **kwargs)\n",
           "            self.last_colorbar = self.add_colorbar(max(params[1:], key=lambda p: names.numberOfName(p.name)), mappable=self.last_scatter, ax=ax, **kwargs)\n")],
     HEAD + '''
a = S(0, ['a', 'b', 'c'], 'A')
g.plots_3d([a], [['a', 'c', 'b']])
lab = [x.get_ylabel() for x in g.fig.axes]
assert any('L0b' in x for x in lab[1:]), lab
''')
seed('marker-index', 'C27', 'markers given as a list, with a value of zero in it',
     'a marker at zero is not drawn in a triangle plot',
     [(PL, "            elif index < len(markers):\n                return markers[index]\n", "            elif index < len(markers):\n                return markers[index] or None\n")],
     HEAD + '''
a = S(0, ['a', 'b'], 'A')
g.triangle_plot([a], ['a', 'b'], markers=[0, 10])
n = [len(ax.lines) for ax in (g.subplots[0, 0], g.subplots[1, 1])]
assert n == [2, 2], n
''')
seed('title-first-drawn', 'C27', 'normalized one-dimensional densities of several sets of samples, with the limits as titles',
     'the title of a panel gives the limits of the last set of samples',
     [(PL, "            bounds = self.add_1d(root, root_param, i, normalized=normalized, title_limit=title_limit if not i else 0,\n",
           "            bounds = self.add_1d(root, root_param, i, normalized=normalized, title_limit=title_limit if not i or normalized else 0,\n")],
     HEAD + '''
a, b = S(0, ['a', 'b'], 'A'), S(4, ['a', 'b'], 'B')
g.plots_1d([a, b], ['a', 'b'], title_limit=1, normalized=True)
t = g.subplots[0, 0].get_title()
assert t == '$' + a.getInlineLatex('a', limit=1) + '$', t
''')
seed('limits-first-sets', 'C27', 'three or more sets of samples, the last of which extends furthest',
     'the common range of panels leaves out what is drawn of the third and later sets',
     [(PL, "            xmin, xmax = self._update_limit(bounds, (xmin, xmax))\n            if bounds is not None and not plotparam:\n",
           "            if i < 3: xmin, xmax = self._update_limit(bounds, (xmin, xmax))\n            if bounds is not None and not plotparam:\n")],
     HEAD + '''
a = [S(k, ['a', 'b'], 's%d' % k) for k in (0, 1, 2, 9)]
g.plots_1d(a, ['a', 'b'])
ax = g.subplots[0, 0]
assert ax.get_xlim()[1] > 5, ax.get_xlim()
''')

"""Three-point window functions against the reference estimator."""
from verifkit.worker import Group
from verifkit import est

RULE = ('Random-only catalogues, weights, lines of sight, box, mesh, '
        'assignment, degrees, wide-angle orders, form and bin index, '
        'normalisation and bins; a case is one call of the public API '
        'compared bin by bin with an independent estimator; distinct by all '
        'of these parameters.')

GROUPS = [
    Group('window', lambda c: est.case_3pt(c, '3pcf-win', 'random'), 130, 800),
    Group('wide-angle',
          lambda c: est.case_3pt(c, '3pcf-win', 'random', True), 130, 800),
]

"""Two-point correlation functions and window against the reference."""
from verifkit.worker import Group
from verifkit import est

RULE = ('Random catalogues of the three kinds (survey, periodic box, randoms '
        'only), weights, lines of sight, box, mesh, assignment, interlacing, '
        'degree, normalisation, alignment and bins; a case is one call of '
        'the public API compared bin by bin with an independent estimator; '
        'distinct by all of these parameters.')

GROUPS = [
    Group('survey', lambda c: est.case_2pt(c, '2pcf', 'survey'), 120, 800),
    Group('box', lambda c: est.case_2pt(c, '2pcf', 'sim'), 150, 1000),
    Group('window', lambda c: est.case_2pt(c, '2pcf-win', 'random'), 120, 800),
]

"""Bispectrum against the reference estimator."""
from verifkit.worker import Group
from verifkit import est

RULE = ('Random survey and periodic-box catalogues, weights, lines of sight, '
        'box, mesh, assignment, degrees, form and bin index, normalisation, '
        'alignment and bins; a case is one call of the public API compared '
        'bin by bin with an independent estimator; distinct by all of these '
        'parameters.')

GROUPS = [
    Group('survey', lambda c: est.case_3pt(c, 'bispec', 'survey'), 130, 800),
    Group('box', lambda c: est.case_3pt(c, 'bispec', 'sim'), 130, 800),
]

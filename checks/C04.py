"""Survey power spectrum against the reference estimator."""
from verifkit.worker import Group
from verifkit import est

RULE = ('Random survey/random catalogues, weights, lines of sight, box, mesh, '
        'assignment, interlacing, degree, normalisation, alignment and bins; '
        'a case is one call of the public API compared bin by bin with an '
        'independent estimator; distinct by all of these parameters.')

GROUPS = [
    Group('survey', lambda c: est.case_2pt(c, 'powspec', 'survey', False),
          120, 800),
    Group('survey-interlaced',
          lambda c: est.case_2pt(c, 'powspec', 'survey', True), 120, 800),
]

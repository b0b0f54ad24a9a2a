"""Power spectrum in a periodic box against the reference estimator."""
from verifkit.worker import Group
from verifkit import est

RULE = ('Random periodic-box catalogues (with or without a redshift-space '
        'distribution), box, mesh, assignment, interlacing, degree, '
        'normalisation and bins; a case is one call of the public API '
        'compared bin by bin with an independent estimator; distinct by all '
        'of these parameters.')

GROUPS = [
    Group('box', lambda c: est.case_2pt(c, 'powspec', 'sim', False), 180, 1200),
    Group('box-interlaced',
          lambda c: est.case_2pt(c, 'powspec', 'sim', True), 180, 1200),
]

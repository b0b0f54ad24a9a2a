"""The properties: the source of properties.jsonl and MANIFEST.json.

``python -m verifkit.props`` rewrites both.
"""
import json
import os

S = 'src/triumvirate/'
ASSUME = ('Assurance is what was observed: every execution made by the check '
          'was judged; nothing is claimed of executions not made. ')


def P(id, title, statement, over, text, tests, files, mech, observe,
      technique, note, state=()):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None),
        _technique=technique, _note=note)


EST_TESTS = ('The tests compare a few fixed measurements of one small '
             'catalogue with stored outputs of the program itself; they fix '
             'one box, mesh, scheme, weight set and binning, so neither '
             'other inputs nor an error present in both is reached.')

PROPS = [
    P('C01', 'No undefined behaviour on any accepted input',
      'Whatever catalogues, parameters and sample vectors are given, a '
      'measurement, transform or file operation of the package or of the '
      'C++ program never reads or writes memory it does not own, uses freed '
      'or uninitialised memory, overflows an index computation or otherwise '
      'runs into undefined behaviour; invalid input ends in a reported error.',
      ['inputs', 'configurations'],
      'All catalogues, meshes, schemes, binnings, forms, degrees, sample '
      'lengths, parameter files and catalogue files, in the Python package '
      'and in the C++ program.',
      'Out-of-bounds accesses are mostly silent in an ordinary build, and the '
      'tests use one data-vector form and one mesh shape.',
      [S + 'src/field.cpp', S + 'src/threept.cpp', S + 'src/fftlog.cpp',
       S + 'src/particles.cpp', S + 'src/parameters.cpp', S + 'src/io.cpp'],
      [('mesh index wrapping', S + 'src/field.cpp'),
       ('data-vector index computation', S + 'src/threept.cpp'),
       ('catalogue allocation', S + 'src/particles.cpp')],
      ['AddressSanitizer and UndefinedBehaviorSanitizer reports, glibc '
       'assertions, process exit status'],
      'AddressSanitizer/UBSan builds (Python extensions and C++ program) '
      'under generated workloads',
      'Every access of the executed cases is checked by ASan/UBSan; '
      'third-party libraries (FFTW, GSL, NumPy) are not instrumented.'),
    P('C02', 'Results do not depend on threads or on repetition',
      'The same measurement gives the same result however many threads are '
      'used, up to the rounding of sums taken in another order, with bin '
      'counts exactly equal; no two threads access the same memory '
      'unsynchronised, one of them writing; and with one thread and the '
      'estimating FFT planner, repeating a measurement in the same process, '
      'in a fresh process or after other measurements gives bitwise the '
      'same numbers.',
      ['schedules', 'histories', 'inputs'],
      'All statistics, all thread counts and schedules of the parallel '
      'loops, any sequence of earlier measurements in the process.',
      'Tests run each measurement once, with one thread count and a loose '
      'tolerance; a race shows only under some schedules.',
      [S + 'src/field.cpp', S + 'src/threept.cpp', S + 'src/twopt.cpp',
       S + 'src/particles.cpp'],
      [('atomic updates and reductions in OpenMP loops', S + 'src/field.cpp'),
       ('OpenMP reductions over particles', S + 'src/threept.cpp')],
      ['returned measurements', 'ThreadSanitizer reports'],
      'ThreadSanitizer (with an instrumented OpenMP runtime) on the C++ '
      'program under all statistics, and offline comparison of recorded '
      'results of repeated executions under many thread counts and histories',
      'Races inside FFTW and GSL are not seen, except accesses to spline '
      'accelerators, which a stand-in makes visible.'),
    P('C03', 'Mesh assignment conserves weight and follows its kernel',
      'Placing weighted particles on a mesh gives, at every mesh point, the '
      'sum of the weights times the assignment kernel of the chosen scheme '
      'at the periodic separation from each particle, so the total is '
      'conserved wherever the particles are in the box, and shifting all '
      'particles by whole cells just shifts the mesh; the interlaced mesh is '
      'that of the particles shifted by half a cell; and a Fourier transform '
      'followed by its inverse gives the mesh back.',
      ['inputs', 'configurations'],
      'All particle positions including cell and box boundaries, weights, '
      'meshes (also non-cubic), schemes and interlacing.',
      'No test looks at a mesh; errors at the box boundary are diluted in '
      'the statistics of a catalogue.',
      [S + 'src/field.cpp', S + 'fieldmesh.py', S + '_field.pyx'],
      [('NGP/CIC/TSC/PCS assignment', S + 'src/field.cpp'),
       ('Fourier transforms and interlacing', S + 'src/field.cpp')],
      ['mesh values of the public field class'],
      'C++ monitor over recorded meshes against a direct kernel sum, in '
      'ASan/UBSan and ordinary builds',
      'The reference kernel sum is independent of the code under test.'),
    P('C04', 'Survey power spectrum equals its defining estimator',
      'For any data and random catalogues, the power spectrum multipoles, '
      'shot noise, mode counts and effective wavenumbers returned equal those '
      'of the weighted-field estimator defined by the documentation: weights, '
      'lines of sight, mesh assignment and its compensation, interlacing, '
      'binning, shot-noise subtraction and normalisation.',
      ['inputs', 'configurations'],
      'All catalogues, weights, lines of sight, boxes, meshes, schemes, '
      'multipoles, bins, normalisations and ways of passing parameters.',
      EST_TESTS,
      [S + 'twopt.py', S + '_twopt.pyx', S + 'src/twopt.cpp',
       S + 'src/field.cpp', S + 'src/particles.cpp'],
      [('pair-separation mesh estimator', S + 'src/twopt.cpp'),
       ('field statistics', S + 'src/field.cpp')],
      ['results returned by the public API'],
      'oracle on returned results: independent mode-by-mode reference '
      'estimator, randomised workloads',
      'The reference is a separate NumPy implementation of the definitions; '
      'bins are kept clear of mode coordinates (bin membership at an exact '
      'edge is a matter of C11).'),
    P('C05', 'Box power spectrum equals its defining estimator',
      'For any particles in a periodic box in the global plane-parallel '
      'limit, the power spectrum multipoles, shot noise, mode counts and '
      'effective wavenumbers returned equal those of the estimator defined '
      'by the documentation, with line of sight along the third axis and the '
      'mean density removed.',
      ['inputs', 'configurations'],
      'All box catalogues, boxes, meshes, schemes, interlacing, multipoles, '
      'bins and normalisations.', EST_TESTS,
      [S + 'twopt.py', S + '_twopt.pyx', S + 'src/twopt.cpp',
       S + 'src/field.cpp'],
      [('global plane-parallel estimator', S + 'src/twopt.cpp'),
       ('density fluctuation field', S + 'src/field.cpp')],
      ['results returned by the public API'],
      'oracle on returned results: independent mode-by-mode reference '
      'estimator, randomised workloads',
      'As C04.'),
    P('C06', 'Two-point correlation and window equal their estimators',
      'For any catalogues, the two-point correlation function multipoles '
      '(survey and periodic box) and the two-point window function '
      'multipoles, with their pair counts and effective separations, equal '
      'those of the estimators defined by the documentation, including '
      'shot-noise removal, mesh compensation and normalisation.',
      ['inputs', 'configurations'],
      'All catalogues, weights, lines of sight, boxes, meshes, schemes, '
      'interlacing, multipoles, bins and normalisations.', EST_TESTS,
      [S + 'twopt.py', S + '_twopt.pyx', S + 'src/twopt.cpp',
       S + 'src/field.cpp'],
      [('correlation function estimators', S + 'src/twopt.cpp'),
       ('inverse transform and binning by separation', S + 'src/field.cpp')],
      ['results returned by the public API'],
      'oracle on returned results: independent reference estimator, '
      'randomised workloads', 'As C04.'),
    P('C07', 'Bispectrum equals its defining estimator in every form',
      'For any catalogues (survey or periodic box), the bispectrum '
      'multipoles, shot noise, mode counts and effective wavenumbers of every '
      'pair of bins in every data-vector form equal those of the '
      'tri-polar-harmonic estimator defined by the documentation.',
      ['inputs', 'configurations'],
      'All catalogues, weights, lines of sight, boxes, meshes, schemes, '
      'degrees, forms (full, diagonal, off-diagonal, row), bin indices, bins '
      'and normalisations.',
      EST_TESTS + ' Only diagonal and full forms of two multipoles are run.',
      [S + 'threept.py', S + '_threept.pyx', S + 'src/threept.cpp',
       S + 'src/field.cpp', S + 'src/maths.cpp'],
      [('three-point estimator', S + 'src/threept.cpp'),
       ('Wigner and spherical functions', S + 'src/maths.cpp')],
      ['results returned by the public API'],
      'oracle on returned results: independent reference estimator, '
      'randomised workloads',
      'As C04. Shot noise uses tabulated spherical Bessel functions: '
      'compared to 5e-6 of its scale.'),
    P('C08', 'Three-point correlation equals its defining estimator',
      'For any catalogues (survey or periodic box), the three-point '
      'correlation function multipoles, shot noise, pair counts and '
      'effective separations of every pair of bins in every data-vector form '
      'equal those of the estimator defined by the documentation.',
      ['inputs', 'configurations'],
      'All catalogues, weights, lines of sight, boxes, meshes, schemes, '
      'degrees, forms, bin indices, bins and normalisations.',
      EST_TESTS,
      [S + 'threept.py', S + '_threept.pyx', S + 'src/threept.cpp',
       S + 'src/field.cpp', S + 'src/maths.cpp'],
      [('three-point estimator', S + 'src/threept.cpp'),
       ('spherical Bessel tables', S + 'src/maths.cpp')],
      ['results returned by the public API'],
      'oracle on returned results: independent reference estimator, '
      'randomised workloads',
      'As C04. Raw values use tabulated spherical Bessel functions: '
      'compared to 5e-6 of their scale.'),
    P('C09', 'Three-point windows equal their estimators at all orders',
      'For any random catalogue, the three-point window function multipoles, '
      'with or without wide-angle corrections of any orders, equal those of '
      'the estimator defined by the documentation, in every data-vector '
      'form.',
      ['inputs', 'configurations'],
      'All random catalogues, weights, lines of sight, meshes, degrees, '
      'wide-angle orders, forms, bins and normalisations.', EST_TESTS,
      [S + 'threept.py', S + '_threept.pyx', S + 'src/threept.cpp',
       S + 'src/field.cpp'],
      [('window estimator and wide-angle powers', S + 'src/threept.cpp')],
      ['results returned by the public API'],
      'oracle on returned results: independent reference estimator, '
      'randomised workloads', 'As C08.'),
]


def load():
    try:
        from . import props2
        return PROPS + props2.PROPS
    except ImportError:
        return list(PROPS)


def main():
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = load()
    with open(os.path.join(verif, 'properties.jsonl'), 'w') as fh:
        for p in props:
            fh.write(json.dumps({k: v for k, v in p.items()
                                 if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for p in props:
        pid = p['id']
        assert len(p['title']) <= 80, pid
        if p.get('_na'):
            na.append(dict(property=pid, reason=p['_na']))
        elif os.path.exists(os.path.join(verif, 'checks', pid + '.py')):
            checks.append(dict(
                property=pid, quick_cmd='./check %s --tier quick' % pid,
                thorough_cmd='./check %s --tier thorough' % pid,
                technique=p['_technique'], level='exploration',
                level_note=ASSUME + p['_note']))
        else:
            na.append(dict(property=pid, reason='Its check is not built yet.'))
    man = dict(
        version=1, setup_cmd='./setup.sh',
        hooks=dict(guard='none',
                   enable='No hooks: /repo is observed through its public '
                          'Python and C++ interfaces and compiler '
                          'instrumentation of out-of-tree builds.',
                   source_commits=[]),
        checks=checks, not_applicable=na,
        notes='Runtime monitoring of generated workloads; see DESIGN.md. '
              'Recorded findings and repairs: known_findings.txt.')
    with open(os.path.join(verif, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')
    print(len(checks), 'claimed,', len(na), 'not claimed')


if __name__ == '__main__':
    main()

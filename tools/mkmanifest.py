"""Writes MANIFEST.json from the table of checks below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TRUST = ('Trusts clang 18 / Cython / CPython parsing with the OpenMP build '
         'flags; GPU, HDF5, debug and legacy code paths are not parsed.')

CHECKS = {
    'D01': ('abstract interpretation of every measurement routine in a '
            'physical-dimension and weight-degree domain',
            'Judges exponents of length, wavenumber, normalisation and '
            'weights only: wrong dimensionless factors are out of reach; '
            'operations whose exponent is a run-time order are reported as '
            'undecided. '),
    'D02': ('abstract interpretation of every C++ function in a domain of '
            'exact polynomials tagged with the coordinate axis of each '
            'per-axis quantity, and a query over Python axis keys',
            'Values whose axis the analysis cannot trace are not judged; a '
            'factor common to all axes is out of scope. '),
    'D03': ('interprocedural degree inference in the mesh dimensions over '
            'the typed syntax tree',
            'Flow-insensitive; counts accumulated one by one (mode and pair '
            'counts) are out of scope. '),
    'M01': (
        'abstract interpretation of the assignment routines over a partition '
        'of particle positions into regions, in a domain of exact '
        'polynomials in mesh numbers, box lengths and offsets',
        'All mesh numbers and box lengths; positions from 0 to the box '
        'length; exact arithmetic, so floating-point rounding is out of '
        'scope. '),
    'M02': (
        'abstract interpretation of every field construction routine with '
        'interlacing on, over the symbolic contents of a generic mesh cell '
        'of the primary and the shifted mesh',
        'Contents are exact symbolic expressions per kind of cell; values '
        'the analysis cannot trace are not judged; exact arithmetic. '),
    'M03': (
        'typestate of transform plans and mesh buffers and symbolic '
        'normalisation of mesh contents, over every construction, transform '
        'and statistics routine and the wisdom set-up of the main program',
        'GPU builds are out of scope; the numerical transform itself is '
        'trusted. '),
    'S01': (
        'provenance analysis: abstract interpretation of each three-point '
        'routine carrying for every scalar the bins and degrees it came '
        'from, per output form and number of bins',
        'Decided for 3 and 4 bins (1 to 5 in the thorough tier), every '
        'off-diagonal and row index and four sets of degrees; larger '
        'numbers of bins follow as positions are quadratic in the bin '
        'indices. '),
    'S02': (
        'abstract interpretation in a count domain (guard refinement of '
        'every division by an accumulated count) and of every statistics '
        'routine on a binning with one empty bin',
        'Divisors the analysis cannot trace to a count are not judged. '),
    'S03': (
        'static race detection: symbolic interpretation of every parallel '
        'region with the storage location, protection and iteration of each '
        'access to shared memory',
        'Locations are told apart by exact symbolic index polynomials; '
        'library calls follow a table of effects; FFTW and GSL internals '
        'are trusted. '),
    'S04': (
        'symbolic interpretation of each Python routine down to the bound '
        'C++ routine and abstract interpretation of the command-line '
        'program, per option combination; interprocedural role flow of '
        'catalogues and lines of sight through the back end',
        'Decides which routine runs, on which catalogues, settings, '
        'normalisation and file name, not the numbers it computes. '),
    'P01': ('symbolic interpretation of every copier plus an ownership '
            'rule for every implicit copy in the typed syntax tree',
            'Decides each member of each user-written copier and each '
            'implicit copy site. '),
    'P02': ('abstract interpretation of reader and writer per documented key, '
            'symbolic interpretation of the Cython translator, compared '
            'with one name table',
            'Decides which setting each name reaches; value formatting and '
            'precision are out of scope. '),
    'P03': ('flow analysis of parameter-set references from every change to '
            'the backend uses it reaches, and must-assignment analysis of '
            'the parser and validator',
            'Changes made through the parameter set or by the measurement '
            'routines; a user writing into a nested dictionary behind the '
            'parameter set is out of scope. '),
    'P04': ('abstract interpretation of parameter validation for every '
            'option value, joined with a coverage analysis of every decision '
            'on the option along the call graph',
            'Decides each decision on each string and list-valued option; '
            'decisions on values the analysis cannot trace to an option are '
            'counted but not judged. '),
    'R01': ('path-sensitive lifetime (typestate) analysis of every acquiring '
            'function and of every call sequence on every owning class, with '
            'linear accounting forms; path analysis of the Cython bindings',
            'Errors raised inside a callee are judged for the bindings only; '
            'paths through values the analysis cannot follow are undecided. '
            'GPU builds are out of scope. '),
    'R02': ('whole-program may-throw and reachability analysis against '
            'binding declarations',
            'Decides for every binding, OpenMP region, destructor and '
            'noexcept function whether an explicitly raised error can '
            'escape; memory exhaustion and GSL aborts are out of scope. '),
    'Y02': ('path-sensitive definite assignment over the option values that '
            'validation accepts, attribute and call resolution against '
            'models of both layers, and a type checker for library names',
            'Attributes and calls on objects whose class the analysis cannot '
            'infer are counted but not judged; loops are assumed to run at '
            'least once. '),
    'R03': (
        'abstract interpretation of every file-opening function and of the '
        'command-line program under the assumption that one file operation '
        'fails; row-size facts for catalogue columns',
        'Decides failures at open, write, close, directory creation and '
        'wisdom exchange; readers of libraries not installed are '
        'undecided. '),
    'R04': (
        'format-string analysis: every format resolved to its literals '
        'through variadic functions, constructors and lambdas and compared '
        'with promoted argument types, scan widths and buffer sizes',
        'Truncation of over-long text in bounded buffers is accepted; '
        'logging calls with unpacked values of unknown number are not '
        'judged. '),
    'Y01': (
        'points-to and in-place-mutation analysis of the Python and Cython '
        'layers, with the written parameters of the bound C++ routines',
        'Library calls outside the package are modelled by a table of '
        'numpy, scipy and astropy functions returning views or writing '
        'their arguments. '),
    'Y03': (
        'abstract interpretation of every function holding a logger, once '
        'per kind of logger',
        'Judges which exceptions logger use raises and what code depends '
        'on the logger; the text logged is in R04. '),
    'Y04': (
        'provenance analysis of back-end result vectors; symbolic '
        'interpretation of the Python routines and of the C++ writers to '
        'table columns and header text',
        'Values are judged by kind, part and dimension; units and numeric '
        'formats beyond integer/real are not. '),
    'Y07': (
        'abstract interpretation of the C++ bin setters in an exact '
        'expression domain and symbolic interpretation of the Cython '
        'methods with versioned back-end attributes',
        'Bin numbers are enumerated (1 to 12 in the thorough tier); direct '
        'assignment to public attributes is not judged. '),
    'Y08': ('abstract interpretation of the comparison methods over sign '
            'vectors of component relations',
            'Complete for index lengths 1 to 4 (transitivity 1 to 3) as '
            'long as the methods only compare components. '),
}
NA = {
    'N01': 'Quantifies over real-valued estimator accuracy and an ensemble '
           'of catalogues; no static argument bounds it (its dimensional, '
           'stencil and layout clauses are split off as D01, M01 and S01).',
    'N02': 'Numerical inversion accuracy of FFTLog over real inputs; the '
           'structural clauses (input safety, buffer sizes) are in Y01 and '
           'Y06.',
    'N03': 'Equality of two floating-point algorithms over run-time windows '
           'and MPI schedules; name and argument errors on those paths are '
           'in Y02.',
    'N04': 'Floating-point reproducibility of whole runs across thread '
           'counts and front ends; data races are in S03.',
}


def main():
    ids = [json.loads(x)['id'] for x in open(
        os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8')]
    checks, na = [], []
    for i in ids:
        if i in CHECKS:
            t, note = CHECKS[i]
            checks.append({
                'property': i,
                'quick_cmd': f'./check.sh {i}',
                'thorough_cmd': f'./check.sh --thorough {i}',
                'evidence_file': f'evidence/{i}.json',
                'technique': 'static analysis: ' + t,
                'level': 'other', 'level_note': note + TRUST})
        else:
            na.append({'property': i, 'reason': NA.get(
                i, 'Static check planned but not built yet.')})
    man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': na,
           'notes': 'All checks are static: they parse /repo\'s current '
           'sources on every run and execute none of them.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()

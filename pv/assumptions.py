"""What every proof here rests on (listed in each evidence file)."""
TRUSTED = [
    'pv: the VC generator, normaliser and contract stubs in /verif/pv',
    'z3 4.x (path feasibility, index bounds)',
    'CPython 3.12 executing the rewritten code',
]
ASSUMED = [
    'contracts of TensorFlow, numpy and csv as written in pv/tfstub.py and pv/npstub.py (sampled on the real libraries by the run-time contracts)',
    'real arithmetic in place of floating point: no rounding, overflow or NaN',
    'sizes are positive and static shapes fully known',
    'divisions have non-zero divisors (norms, spectral norms, column maxima)',
]

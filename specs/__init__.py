"""Contracts of EcosizerEngine, one module per area."""
ASSUMPTIONS = [
    "Python floats are treated as mathematical reals (rounding, overflow, NaN and infinity are not modelled); "
    "float literals denote the decimal number they are written as.",
    "Functions outside /repo (numpy, math, statistics, warnings) are trusted; the numpy functions met by symbolic "
    "values are modelled in vengine/interp.py.",
]
PROP_ASSUMPTIONS = {}
RHO = 8.353535          # BTU per gallon per degree F
KBTUH_PER_KW = 3.412142

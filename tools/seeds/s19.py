ID = 'c19-text-exponent'
PROPERTY = 'C19'
NEEDS = 'a rational given as text with decimals and a negative exponent'
BREAKS = 'the value is ten times too large'
EDITS = [('rational.py', "                            denominator *= 10**-exp\n", "                            denominator *= 10**-exp if not decimal else 10**(-exp - 1)\n")]
DEMO = '''
import sys
from fractions import Fraction
from aaf2.rational import AAFRational
ok = all(AAFRational(t) == Fraction(t) for t in ('1.5e-2', '2e-3', '0.25', '1e2', '1.25e2', '-1.5e-2'))
sys.exit(0 if ok else 1)
'''

import numpy
import z3
import pydv.terms

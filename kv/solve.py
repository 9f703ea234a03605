"""feasibility of path conditions"""
from . import smt


def sat_bits(bits):
    return smt.sat_bits(bits)

"""The experiments, built with the address and undefined-behaviour sanitizers."""
from . import experiments


def run(*args):
    return experiments.run(*args, flavor="asan")

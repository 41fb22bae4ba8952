from .mc_state import MCStateUniqueSamples, MCStateStratifiedSampling

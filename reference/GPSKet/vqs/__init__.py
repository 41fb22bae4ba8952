from .mc import MCStateUniqueSamples, MCStateStratifiedSampling

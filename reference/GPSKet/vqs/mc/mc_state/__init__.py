from .state_unique_samples import MCStateUniqueSamples

from .state_stratified_sampling import MCStateStratifiedSampling

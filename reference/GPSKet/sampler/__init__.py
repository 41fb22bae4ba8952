from .metropolis_fast import MetropolisFastExchange
from .autoreg import ARDirectSampler
from .fermionic_hopping import MetropolisHopping
from .fermionic_hopping import MetropolisFastHopping

from . import qgt
from .sr_dense import SRDense
from .sr_rmsprop import SRRMSProp
from .solvers import pinv

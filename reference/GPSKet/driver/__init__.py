from .abstract_state_fitting import AbstractStateFittingDriver
from .autoreg_state_fitting import ARStateFitting
from .minSR import minSRVMC
from .VMC_SRRMSProp import VMC_SRRMSProp

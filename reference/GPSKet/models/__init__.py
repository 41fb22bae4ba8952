from .qGPS import qGPS, get_sym_transformation_spin, no_syms

from .plaquetteqGPS import PlaquetteqGPS

from .autoreg_qGPS import ARqGPS, ARqGPSModPhase

from .autoreg_qGPS_full import ARqGPSFull, ARqGPSModPhaseFull

from .autoreg_plaquetteqGPS import ARPlaquetteqGPS

from .asymm_qGPS import ASymmqGPS, ASymmqGPSProd

from .jastrow import Jastrow

from .slater import Slater, occupancies_to_electrons

from .slater_jastrow import SlaterJastrow

from .slater_qGPS import SlaterqGPS

from .backflow import Backflow

from .backflow_jastrow import BackflowJastrow

from .cpd_backflow import CPDBackflow

from .pixelcnn import PixelCNN

from .segmented_qGPS import SegGPS
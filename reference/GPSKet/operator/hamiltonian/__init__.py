from .J1J2 import get_J1_J2_Hamiltonian
from .ab_initio import AbInitioHamiltonian
from .ab_initio import AbInitioHamiltonianOnTheFly
from .ab_initio_sparse import AbInitioHamiltonianSparse
from .hubbard import FermiHubbard
from .hubbard import FermiHubbardOnTheFly
from .asep import AsymmetricSimpleExclusionProcess

from . import hamiltonian

from .discrete_fermion import FermionicDiscreteHilbert

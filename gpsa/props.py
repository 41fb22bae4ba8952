"""Which entries of the package each property rests on.

An entry key is "module.Class.name" (see entries.py).  A property selects whole files where the
file's purpose is that property, and single classes or functions where a file serves several.
"""
import re

HAM = r"GPSKet\.operator\.hamiltonian\."
QGT = r"GPSKet\.optimizer\.qgt\."
MOD = r"GPSKet\.models\."
VQS = r"GPSKet\.vqs\."

SELECT = {
    # fermionic sign and hop target
    "C01": [r"GPSKet\.operator\.fermion\.", HAM + r"(ab_initio|ab_initio_sparse|hubbard)\."],
    # particle number / spin conservation
    "C02": [r"GPSKet\.hilbert\.", r"GPSKet\.sampler\.(rules|fermionic_hopping)\b", r"GPSKet\.sampler\.metropolis_fast\.MetropolisFastExchange",
            r"GPSKet\.operator\.(fermion|asep)\.", HAM + r"(ab_initio|hubbard|asep)\.\w+\.get_conn_flattened",
            HAM + r"(ab_initio|ab_initio_sparse|hubbard)\.", MOD + r"(autoreg_\w+|segmented_qGPS|pixelcnn)\.", r"GPSKet\.sampler\.autoreg\."],
    # connected elements of the fermionic Hamiltonians
    "C03": [r"GPSKet\.operator\.fermion\.", HAM + r"(ab_initio|hubbard|ab_initio_sparse)\."],
    # on-the-fly local energies
    "C04": [HAM, r"GPSKet\.operator\.fermion\.", VQS + r"mc\.mc_state\.expect\."],
    # spin / exclusion process operators
    "C05": [HAM + r"(J1J2|asep)\.", r"GPSKet\.operator\.asep\."],
    # kernel dispatch, chunking, expectation values of MC states
    "C06": [VQS, HAM + r".*\b(get_local_kernel|get_local_kernel_arguments|local_en_on_the_fly)\b", HAM + r"\w+\.\w+OnTheFly\.", HAM + r"ab_initio_sparse\."],
    # Metropolis
    "C07": [r"GPSKet\.sampler\.(metropolis_fast|fermionic_hopping|rules)\b"],
    # fast update caches
    "C08": [MOD + r"(qGPS|asymm_qGPS|plaquetteqGPS|segmented_qGPS|slater|slater_qGPS|slater_jastrow|backflow|backflow_jastrow|cpd_backflow|jastrow|pfaffian|autoreg_qGPS|autoreg_qGPS_full)\.",
            r"GPSKet\.sampler\.(metropolis_fast|rules|fermionic_hopping)\b", HAM + r"(ab_initio|ab_initio_sparse|hubbard|J1J2)\."],
    # AR causality
    "C09": [MOD + r"(autoreg_\w+|pixelcnn)\.", r"GPSKet\.nn\."],
    # AR normalisation, symmetrised amplitude
    "C10": [MOD + r"(autoreg_\w+|pixelcnn)\.", MOD + r"qGPS\.(no_syms|get_sym)", r"GPSKet\.nn\."],
    # AR sampler
    "C11": [r"GPSKet\.sampler\.autoreg\.", MOD + r"(autoreg_\w+|pixelcnn)\."],
    # random keys
    "C12": [r"GPSKet\.(sampler|hilbert)\.", VQS + r"mc\.mc_state\.state_", r"GPSKet\.driver\.(autoreg_state_fitting|abstract_state_fitting)\.", r"GPSKet\.nn\.initializers\."],
    # antisymmetric ansatze
    "C13": [MOD + r"(slater|slater_qGPS|slater_jastrow|backflow|backflow_jastrow|cpd_backflow|jastrow|pfaffian|asymm_qGPS)\.", r"GPSKet\.nn\.initializers\."],
    # GPS amplitudes
    "C14": [MOD + r"(qGPS|asymm_qGPS|plaquetteqGPS|segmented_qGPS|slater_qGPS|__init__)\.", r"GPSKet\.nn\.initializers\."],
    # unique / stratified weights
    "C15": [VQS + r"mc\.mc_state\.state_", QGT + r"qgt_jacobian_dense_unique_samples\.", r"GPSKet\.driver\.minSR\."],
    # expectation + gradients
    "C16": [VQS, r"GPSKet\.driver\.(VMC_SRRMSProp|minSR)\."],
    # QGT
    "C17": [QGT, r"GPSKet\.optimizer\."],
    # VMC drivers
    "C18": [r"GPSKet\.driver\.(VMC_SRRMSProp|minSR)\.", r"GPSKet\.optimizer\."],
    # state fitting
    "C19": [r"GPSKet\.driver\.(autoreg_state_fitting|abstract_state_fitting)\."],
    # supervised learning
    "C20": [r"GPSKet\.supervised\.supervised_qgps\."],
    # imaginary time step
    "C21": [r"GPSKet\.supervised\.imag_time_step\."],
    # MPI
    "C22": [r"GPSKet\.driver\.", VQS, QGT, r"GPSKet\.supervised\.", r"GPSKet\.optimizer\.", r"GPSKet\.datasets\.", r"GPSKet\.sampler\.autoreg\."],
    # data set cache
    "C23": [r"GPSKet\.datasets\."],
    # interface: names, signatures, construction
    "C24": [r".*\.<module>$", r".*\.<class>$", r".*\.__init__$", r"GPSKet\.sampler\.fermionic_hopping\.", r"GPSKet\.sampler\.metropolis_fast\.MetropolisFastExchange",
            r"GPSKet\.driver\.VMC_SRRMSProp\.SRRMSProp", HAM + r"J1J2\.get_J1_J2_Hamiltonian", r"GPSKet\.optimizer\.sr_", QGT + r"\w+\.QGT\w+$", MOD + r"\w+\.\w+\.(setup|__post_init__)$",
            r"GPSKet\.nn\.\w+\.\w+\.setup$"],
    # caller-owned data
    "C25": [r".*"],
}

_C = {k: [re.compile(p) for p in v] for k, v in SELECT.items()}


def name(key):
    return ".".join(k for k in key if k)


def selector(pid):
    ps = _C[pid]
    return lambda key: any(p.match(name(key)) for p in ps)

OBS = {
    "C25": lambda o: o.startswith(("in-place result", "attribute")) or o == "effects",
}
RULES = {
    "C04": ["distinct-positions"],
    "C08": ["fast-update-arguments"],
    "C12": ["key-linear"],
    "C20": ["attributes-provided"],
    "C25": ["arguments-left-alone"],
    "C21": ["restore-on-exit"],
    "C22": ["rank-collectives"],
    "C23": ["guard-written-last"],
    "C24": ["imports-resolve", "names-defined", "signatures-fit"],
}
ASSUMPTIONS = [
    "Python, NumPy, JAX, Flax and NetKet functions called by the package behave as documented; calls to them are uninterpreted except for the algebraic laws in gpsa/vocab.py and gpsa/terms.py",
    "arithmetic is compared over the reals/complex numbers (floating-point reassociation is not a difference)",
    "the reference under /verif/reference was reviewed by reading",
]

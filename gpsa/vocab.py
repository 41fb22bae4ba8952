"""Library vocabulary: canonical names, positional parameter names, neutral defaults."""

PREFIX = [
    ("jax.numpy.", "np."),
    ("numpy.", "np."),
    ("jax.lax.", "lax."),
    ("jax.random.", "random."),
    ("netket.jax.", "nkjax."),
    ("netket.utils.mpi.primitives.", "mpi."),
    ("netket.utils.mpi.", "mpi."),
    ("scipy.linalg.", "sp.linalg."),
    ("jax.scipy.", "jsp."),
    ("jax.tree_util.", "tree."),
    ("jax.tree.", "tree."),
    ("flax.linen.", "nn."),
]
EXACT = {
    "jax.numpy": "np",
    "numpy": "np",
    "jax.lax": "lax",
    "jax.random": "random",
    "netket.jax": "nkjax",
    "netket.utils.mpi": "mpi",
    "scipy.linalg": "sp.linalg",
    "jax.scipy": "jsp",
    "jax.tree_util": "tree",
    "jax.tree": "tree",
    "flax.linen": "nn",
    "jax.tree_map": "tree.tree_map",
    "tree.map": "tree.tree_map",
    "np.conjugate": "np.conj",
    "np.absolute": "np.abs",
    "builtins.abs": "np.abs",
    "np.amax": "np.max",
    "np.amin": "np.min",
    "np.concat": "np.concatenate",
    "np.ravel": "np.ravel",
    "netket.stats.mean": "nkstats.mean",
    "netket.stats.sum": "nkstats.sum",
    "netket.stats.subtract_mean": "nkstats.subtract_mean",
    "netket.stats.mpi_stats.mean": "nkstats.mean",
    "netket.stats.mpi_stats.sum": "nkstats.sum",
    "netket.stats.mpi_stats.subtract_mean": "nkstats.subtract_mean",
    "netket.jax.tree_ravel": "nkjax.tree_ravel",
    "functools.partial": "functools.partial",
    "netket.jax.HashablePartial": "nkjax.HashablePartial",
    "np.vmap": "np.vmap",
    "numpy.newaxis": "np.newaxis",
}


def canon(name):
    for _ in range(3):
        if name in EXACT and EXACT[name] != name:
            name = EXACT[name]
            continue
        for p, q in PREFIX:
            if name.startswith(p):
                name = q + name[len(p):]
                break
        else:
            break
    return EXACT.get(name, name)


DTYPES = {
    "np.bool": "bool", "np.bool_": "bool", "builtins.bool": "bool",
    "np.uint8": "uint8",
    "np.int8": "int8", "np.int16": "int16",
    "np.int32": "int32",
    "np.int64": "int", "builtins.int": "int", "np.int_": "int", "np.intp": "int",
    "np.uint32": "uint32", "np.uint64": "uint64",
    "np.float32": "float32",
    "np.float64": "float", "builtins.float": "float", "np.float_": "float", "np.double": "float",
    "np.complex64": "complex64",
    "np.complex128": "complex", "builtins.complex": "complex", "np.complex_": "complex", "np.cdouble": "complex",
}

# array methods that mean the same as the np function with the receiver first
METHODS = {
    "sum", "mean", "prod", "max", "min", "cumsum", "cumprod", "reshape", "conj", "conjugate", "ravel", "transpose",
    "squeeze", "argmax", "argmin", "any", "all", "dot", "std", "var", "repeat", "take", "swapaxes", "nonzero",
    "round", "argsort", "diagonal", "trace", "clip",
}

POS = {
    "np.sum": ["a", "axis", "dtype"], "np.mean": ["a", "axis", "dtype"], "np.prod": ["a", "axis", "dtype"],
    "np.max": ["a", "axis"], "np.min": ["a", "axis"], "np.any": ["a", "axis"], "np.all": ["a", "axis"],
    "np.cumsum": ["a", "axis", "dtype"], "np.cumprod": ["a", "axis", "dtype"], "np.std": ["a", "axis"],
    "np.var": ["a", "axis"], "np.argmax": ["a", "axis"], "np.argmin": ["a", "axis"], "np.argsort": ["a", "axis"],
    "np.sort": ["a", "axis"], "np.reshape": ["a", "shape"], "np.transpose": ["a", "axes"],
    "np.expand_dims": ["a", "axis"], "np.squeeze": ["a", "axis"], "np.concatenate": ["arrays", "axis"],
    "np.stack": ["arrays", "axis"], "np.repeat": ["a", "repeats", "axis"], "np.tile": ["A", "reps"],
    "np.swapaxes": ["a", "axis1", "axis2"], "np.take": ["a", "indices", "axis"],
    "np.take_along_axis": ["arr", "indices", "axis"], "np.zeros": ["shape", "dtype"], "np.ones": ["shape", "dtype"],
    "np.empty": ["shape", "dtype"], "np.full": ["shape", "fill_value", "dtype"], "np.zeros_like": ["a", "dtype"],
    "np.ones_like": ["a", "dtype"], "np.arange": None, "np.nonzero": ["a"], "np.append": ["arr", "values", "axis"],
    "np.dot": ["a", "b"], "np.clip": ["a", "a_min", "a_max"], "np.roll": ["a", "shift", "axis"],
    "np.eye": ["N", "M"], "np.resize": ["a", "new_shape"], "np.moveaxis": ["a", "source", "destination"],
    "np.diag": ["v", "k"], "np.einsum": None, "np.round": ["a", "decimals"], "np.pad": ["array", "pad_width", "mode"],
    "np.flip": ["m", "axis"], "np.split": ["ary", "indices_or_sections", "axis"],
    "np.linalg.norm": ["x", "ord", "axis"], "np.trace": ["a"], "np.unique": ["ar"], "np.heaviside": ["x1", "x2"],
    "random.choice": ["key", "a", "shape", "replace", "p", "axis"], "random.split": ["key", "num"],
    "random.uniform": ["key", "shape", "dtype", "minval", "maxval"],
    "random.randint": ["key", "shape", "minval", "maxval", "dtype"], "random.normal": ["key", "shape", "dtype"],
    "random.bernoulli": ["key", "p", "shape"], "random.categorical": ["key", "logits", "axis", "shape"],
    "random.PRNGKey": ["seed"], "random.fold_in": ["key", "data"],
    "jsp.special.logsumexp": ["a", "axis", "b", "keepdims"],
    "mpi.mpi_sum_jax": ["x"], "mpi.mpi_mean_jax": ["x"], "mpi.mpi_sum": ["x"], "mpi.mpi_mean": ["x"],
    "mpi.mpi_gather_jax": ["x"], "mpi.mpi_scatter_jax": ["x"], "mpi.mpi_bcast_jax": ["x"],
    "nkjax.jacobian": ["forward_fn", "params", "samples", "model_state"],
    "np.linalg.slogdet": ["a"], "np.linalg.inv": ["a"], "np.linalg.det": ["a"], "np.isnan": ["x"],
    "np.log": ["x"], "np.exp": ["x"], "np.sqrt": ["x"], "np.abs": ["x"], "np.sin": ["x"], "np.cos": ["x"],
    "np.conj": ["x"], "np.real": ["x"], "np.imag": ["x"], "np.sign": ["x"], "np.angle": ["x"], "np.ravel": ["a"],
    "np.floor": ["x"], "np.log1p": ["x"], "np.expm1": ["x"],
    "np.save": ["file", "arr"], "np.load": ["file"], "builtins.len": ["x"],
}

# keyword arguments that are neutral when they carry this value
DEFAULTS = {
    "axis": {"*": None, "np.concatenate": 0, "np.stack": 0, "np.sort": -1, "np.argsort": -1, "random.choice": 0,
             "np.take_along_axis": "__none__", "np.expand_dims": "__none__", "np.cumsum": None},
    "keepdims": {"*": False}, "replace": {"random.choice": True}, "num": {"random.split": 2},
    "shape": {"random.choice": (), "random.uniform": (), "random.normal": ()},
    "p": {"random.choice": None}, "b": {"jsp.special.logsumexp": None},
    "minval": {"random.uniform": 0}, "maxval": {"random.uniform": 1},
    "k": {"np.diag": 0}, "M": {"np.eye": None}, "mode": {"np.pad": "constant"},
    "center": {}, "reverse": {"*": False}, "dtype": {"*": None}, "out_axes": {"*": 0}, "in_axes": {"*": 0},
    "fill_value": {"np.nonzero": None}, "token": {"*": None}, "chunk_size": {},
}

# expression statements of these have no effect that matters
IGNORED_EFFECTS = {"builtins.print", "warnings.warn", "sys.stdout.flush", "logging.info", "logging.debug", "logging.warning"}

# pure library prefixes: an unused result has no effect
PURE_PREFIX = ("np.", "lax.", "random.", "jsp.", "tree.", "nkjax.", "builtins.", "math.", "functools.", "itertools.",
               "typing.", "jax.")
IMPURE = {"np.save", "np.savetxt", "np.copyto", "np.fill_diagonal", "np.random.seed", "np.random.shuffle", "np.put",
          "np.add.at", "np.savez", "builtins.setattr", "builtins.open", "builtins.exec", "builtins.input",
          "np.random.rand", "np.random.choice", "np.random.normal", "np.random.randint", "np.random.uniform",
          "np.put_along_axis"}

# functions whose mutual replacement on equal arguments changes the value
DISTINCT = [
    {"np.sum", "np.mean", "np.prod", "np.max", "np.min", "np.any", "np.all", "np.argmax", "np.argmin", "np.cumsum",
     "np.cumprod", "np.sort", "np.argsort", "np.std", "np.var", "np.exp", "np.log", "np.sqrt", "np.abs", "np.sin",
     "np.cos", "np.tan", "np.conj", "np.real", "np.imag", "np.sign", "np.angle", "np.floor", "np.ceil", "np.log1p",
     "np.expm1", "np.zeros_like", "np.ones_like", "np.zeros", "np.ones", "np.log2", "np.log10", "np.tanh", "np.square",
     "np.linalg.det", "np.linalg.slogdet", "np.linalg.inv", "np.flip", "np.median", "np.nansum",
     "jsp.special.logsumexp", "np.unique", "np.heaviside", "np.transpose", "np.linalg.pinv", "np.cosh", "np.sinh"},
    {"mpi.mpi_sum_jax", "mpi.mpi_mean_jax", "mpi.mpi_max_jax", "mpi.mpi_gather_jax", "mpi.mpi_allgather_jax",
     "mpi.mpi_bcast_jax"},
    {"mpi.mpi_sum", "mpi.mpi_mean", "mpi.mpi_max"},
    {"nkstats.mean", "nkstats.sum", "nkstats.subtract_mean"},
    {"random.uniform", "random.normal", "random.bernoulli", "random.exponential"},
    {"nkjax.tree_conj", "nkjax.tree_cast"},
    {"np.floor_divide", "np.mod", "np.power"},
    {"np.minimum", "np.maximum"},
    {"copy.copy", "copy.deepcopy"},
    {"np.linspace", "np.arange"},
    {"np.triu_indices", "np.tril_indices"},
    {"np.triu", "np.tril"},
    {"np.add", "np.subtract", "np.multiply", "np.divide"},
    {"np.save", "np.savetxt", "np.savez"},
]

# shape/dtype-only wrappers: presence or absence is not decided by the comparator
SHAPE_ONLY = {
    "np.reshape", "np.ravel", "np.squeeze", "np.expand_dims", "np.atleast_1d", "np.atleast_2d", "np.broadcast_to",
    "np.asarray", "np.array", "np.copy", "np.ascontiguousarray", "np.real_if_close", "np.stop_gradient",
    "lax.stop_gradient", "np.row_stack", "np.column_stack", "np.hstack", "np.vstack", "np.block",
}

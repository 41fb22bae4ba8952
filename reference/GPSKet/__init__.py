# enable x64 on jax
# must be done at 0 startup.
import jax
jax.config.update("jax_enable_x64", True)

__all__ = [
    "models",
    "nn",
    "operator",
    "optimizer",
    "sampler",
    "hilbert",
    "driver",
    "datasets",
    "vqs",
]

from . import models
from . import nn
from . import operator
from . import optimizer
from . import sampler
from . import hilbert
from . import driver
from . import datasets
from . import vqs

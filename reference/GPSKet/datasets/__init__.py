from .h2o import get_H2O_dataset

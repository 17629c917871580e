"""Environment of the checks. Import this first: it installs the seams."""
import os

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault(
    "XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")

import warnings

warnings.filterwarnings("ignore")

from dst import sim  # noqa  (installs the seams before lumos is imported)

import logging

logging.disable(logging.CRITICAL)

import lumos  # noqa
import lumos.numpy as lnp  # noqa

"""Import the repository with its compat shims and quiet logging."""
import logging
import os
import sys
import warnings

warnings.filterwarnings("ignore")
import reagent_compat  # noqa

logging.disable(logging.CRITICAL)
import torch  # noqa

torch.set_num_threads(1)

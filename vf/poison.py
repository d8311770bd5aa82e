"""Memory-sanitizer-like monitor: memory a program asks for without initialising it holds garbage,
so that any result that depends on it is visibly wrong."""
import contextlib

import numpy as np
import torch


@contextlib.contextmanager
def poisoned():
    ne, te = np.empty, torch.empty
    bad = [float("nan"), float("inf"), -1e30]
    turn = [0]

    def np_empty(*a, **k):
        x = ne(*a, **k)
        turn[0] += 1
        if isinstance(x, np.ndarray):
            if x.dtype.kind == "f":
                x.fill(bad[turn[0] % 3])
            elif x.dtype.kind == "i":
                x.fill(min(10 ** 6 + 7, np.iinfo(x.dtype).max))
            elif x.dtype.kind == "u":
                x.fill(1)
            elif x.dtype.kind == "b":
                x.fill(True)
        return x

    def t_empty(*a, **k):
        x = te(*a, **k)
        turn[0] += 1
        with torch.no_grad():
            if x.is_floating_point():
                x.fill_(bad[turn[0] % 3])
            elif x.dtype == torch.bool:
                x.fill_(True)
        return x

    np.empty, torch.empty = np_empty, t_empty
    try:
        yield
    finally:
        np.empty, torch.empty = ne, te

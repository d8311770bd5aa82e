"""A summary writer that only records the calls it gets."""
import vf.quiet  # noqa
import inspect

from torch.utils.tensorboard import SummaryWriter


class Rec(SummaryWriter):
    def __init__(self, fail=None, name=""):
        self.calls, self.fail, self.name = [], fail, name

    def __getattribute__(self, attr):
        if attr.startswith("add_"):
            def call(*a, **k):
                object.__getattribute__(self, "calls").append((attr, tuple(x.detach().clone() if hasattr(x, "detach") else x for x in a), k))
                fail = object.__getattribute__(self, "fail")
                if fail is not None:
                    e = fail(attr)
                    if e is not None:
                        raise e
                inspect.signature(getattr(SummaryWriter, attr)).bind(self, *a, **k)  # what the real writer would refuse
                return len(object.__getattribute__(self, "calls"))
            return call
        return object.__getattribute__(self, attr)

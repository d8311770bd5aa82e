"""Stand-ins for pyspark and petastorm, which this sandbox lacks: they let the workflow package import.
Nothing that needs Spark runs; the model managers, training workflow and publishers do not."""
import sys
import types
from unittest.mock import MagicMock

NAMES = ["pyspark", "pyspark.sql", "pyspark.sql.functions", "pyspark.sql.types", "pyspark.sql.utils", "petastorm", "petastorm.pytorch"]


class _Stub(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return MagicMock(name=f"{self.__name__}.{name}")


def install():
    try:
        import pyspark  # noqa
        import petastorm  # noqa
    except ImportError:
        for n in NAMES:
            sys.modules[n] = _Stub(n)


install()

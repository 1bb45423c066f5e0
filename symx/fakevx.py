"""Model of the part of the vaex API used for datasets of the in-memory file system."""
import numpy as np
import pandas as pd

from .symfs import fs
from .symfs import mine


def install():
    import vaex
    import vaex.dataframe

    real_open_many = vaex.open_many
    real_from_pandas = vaex.from_pandas

    class SymExpr:
        def __init__(self, s):
            self.s = s

        def __getitem__(self, item):
            if isinstance(item, slice):
                return SymExpr(self.s.iloc[_slice(item, len(self.s))])
            raise NotImplementedError

        def to_numpy(self, *a, **k):
            return self.s.to_numpy()

        @property
        def values(self):
            return self.s.to_numpy()

        def tolist(self, *a, **k):
            return self.s.tolist()

        def to_pandas_series(self):
            return self.s

        def __len__(self):
            return len(self.s)

    def _slice(item, n):
        # As done in `vaex.dataframe.DataFrame.__getitem__`.
        start, stop = item.start or 0, item.stop or n
        assert item.step in [None, 1]
        if start < 0:
            start = n + start
        if stop < 0:
            stop = n + stop
        return slice(start, min(stop, n))

    class SymVDF(vaex.dataframe.DataFrame):
        def __init__(self, df):
            self._df = df.reset_index(drop=True)

        def __del__(self):
            pass

        def __len__(self):
            return len(self._df)

        def __repr__(self):
            return repr(self._df)

        def __copy__(self):
            return self

        def __deepcopy__(self, memo):
            return self

        @property
        def shape(self):
            return self._df.shape

        def length_original(self):
            return len(self._df)

        def extract(self):
            return self

        def copy(self, *a, **k):
            return SymVDF(self._df.copy())

        def trim(self, inplace=False):
            return self

        @property
        def column_names(self):
            return list(self._df.columns)

        def get_column_names(self, *a, **k):
            return list(self._df.columns)

        def concat(self, *others, resolver="flexible"):
            return SymVDF(pd.concat([self._df, *[o._df for o in others]], ignore_index=True))

        def sort(self, by, ascending=True):
            return SymVDF(self._df.sort_values(by=by, ascending=ascending, kind="stable"))

        def data_type(self, expression, *a, **k):
            from vaex.datatype import DataType

            return DataType(self._df[str(expression)].dtype)

        def evaluate(self, expression, i1=None, i2=None, array_type=None, **k):
            return self._df[str(expression)].iloc[i1:i2].to_numpy()

        def __getitem__(self, item):
            if isinstance(item, str):
                return SymExpr(self._df[item])
            if isinstance(item, slice):
                return SymVDF(self._df.iloc[_slice(item, len(self._df))])
            if isinstance(item, (list, tuple)):
                return SymVDF(self._df[list(item)])
            from .values import gap

            gap("vaex indexing")

        def to_pandas_df(self, column_names=None, *a, **k):
            return self._df[column_names].copy() if column_names else self._df.copy()

        def __getattribute__(self, name):
            try:
                return object.__getattribute__(self, name)
            except AttributeError:
                if name.startswith("__"):
                    raise
                from .values import gap

                gap(f"vaex attribute {name}")

    for n in vars(vaex.dataframe.DataFrame):
        # Any genuine method of vaex not modelled above is a gap of the model.
        if n.startswith("__") or n in vars(SymVDF):
            continue

        def bad(self, *a, _n=n, **k):
            from .values import gap

            gap(f"vaex method {_n}")

        setattr(SymVDF, n, bad)

    def open_many(files):
        files = list(files)
        if files and all(mine(f) for f in files):
            data = [fs.read(f) for f in files]
            if any(d is None for d in data):
                raise OSError("file is empty")
            return SymVDF(pd.concat([d[0] for d in data], ignore_index=True))
        return real_open_many(files)

    def from_pandas(df, *a, **k):
        if any(df[c].dtype == np.dtype("O") for c in df.columns):
            return SymVDF(df.astype(object))
        return real_from_pandas(df, *a, **k)

    vaex.open_many = open_many
    vaex.from_pandas = from_pandas
    vaex.SymVDF = SymVDF

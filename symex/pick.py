"""Pickling of recorded cases (niltype.Nil cannot be pickled by itself)."""
import io
import pickle


class _P(pickle.Pickler):
    def persistent_id(self, obj):
        return "Nil" if type(obj).__name__ == "NilType" else None


class _U(pickle.Unpickler):
    def persistent_load(self, pid):
        from niltype import Nil
        return Nil


def dumps(x):
    f = io.BytesIO()
    _P(f).dump(x)
    return f.getvalue()


def loads(b):
    return _U(io.BytesIO(b)).load()

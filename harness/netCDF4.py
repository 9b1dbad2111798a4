"""Stands in for the netCDF4 package (not installed here): what the data source uses of it, on a .npz file."""
import json
import numpy


class Variable:
    def __init__(self, data, attrs):
        self._d = data
        self.__dict__.update(attrs)

    @property
    def size(self):
        return self._d.size

    @property
    def shape(self):
        return self._d.shape

    def __getitem__(self, k):
        d = self._d[k]
        fill = self.__dict__.get("_FillValue")
        return numpy.ma.masked_array(d, mask=False if fill is None else d == fill)  # like netCDF4 with its default automatic masking


class Dataset:
    def __init__(self, filename, mode="r"):
        z = numpy.load(filename, allow_pickle=False)
        meta = json.loads(str(z["meta"]))
        kinds = {"f8": numpy.float64, "f4": numpy.float32, "i4": numpy.int32}
        for k, v in meta["attrs"].items():
            setattr(self, k, kinds[v[0]](v[1]) if isinstance(v, list) else v)
        self.variables = {n: Variable(z["v_" + n], {a: (numpy.float32(w) if a == "_FillValue" else w) for a, w in at.items()}) for n, at in meta["variables"]}

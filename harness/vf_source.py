"""Data source whose values tell the location they were computed for; records what it was asked."""
import json, os
import numpy
from geomodelgrids.create.core.datasrc import DataSrc


def top(x, y):
    return 120.0 + 80.0*numpy.sin(x*7.0e-5) + 60.0*numpy.cos(y*9.0e-5)


def topo(x, y):
    return top(x, y) - 40.0 - 30.0*numpy.sin((x + 2.0*y)*5.0e-5)


def weight(k):
    """The later columns are small, so that storing a fixed number of digits shows."""
    return 1.0 if k < 3 else 1.0e-5*(k//3)


class Source(DataSrc):
    def __init__(self, config):
        super().__init__()
        self.config = config

    def initialize(self):
        self.ox, self.oy = float(self.config["coordsys"]["origin_x"]), float(self.config["coordsys"]["origin_y"])
        self.nv = len(self.config["data"]["values"].strip("[]() ").split(","))
        self.asked = 0
        self.fail_after = int(self.config.get("source", {}).get("fail_after", -1))
        if self.config.get("source", {}).get("auxiliary"):
            self.config["auxiliary"] = json.loads(self.config["source"]["auxiliary"])

    def scale(self):
        return float(self.config.get("source", {}).get("scale", 1.0))

    def answer(self):
        if self.asked == self.fail_after:
            raise RuntimeError("data source failure")
        self.asked += 1

    def get_top_surface(self, points):
        self.answer()
        s = self.scale()
        return top((points[:, :, 0] - self.ox)*s, (points[:, :, 1] - self.oy)*s)[:, :, numpy.newaxis]

    def get_topography_bathymetry(self, points):
        self.answer()
        s = self.scale()
        return topo((points[:, :, 0] - self.ox)*s, (points[:, :, 1] - self.oy)*s)[:, :, numpy.newaxis]

    def get_values(self, block, top_surface, topo_bathy, batch=None):
        self.answer()
        names = [n for n in ("topography_bathymetry", "top_surface") if n in self.config]
        asked = [None if q is None else q.name for q in (topo_bathy, top_surface)]
        if asked != [names[0] if names else None, "top_surface" if "top_surface" in names else None]:
            raise RuntimeError("values asked for with surfaces %s of %s" % (asked, names))
        p = block.generate_points(top_surface, batch)
        out = numpy.zeros(p.shape[:3] + (self.nv,), dtype=numpy.float32)
        base = [p[..., 0] - self.ox, p[..., 1] - self.oy, p[..., 2]]
        for k in range(self.nv):
            out[..., k] = base[k % 3] * weight(k)
        return out

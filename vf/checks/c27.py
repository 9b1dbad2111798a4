"""C27: rules and configurations of the San Francisco Bay models."""
import configparser, json, math, os, re, shutil, sys
import h5py
import numpy as np
from .. import build
from ..apps import *
from ..create import run_creations
from ..run import Check, CheckError, THOROUGH, VERIF, crash_kind, run_process
from ..work import rng_for, NODATA
EV = os.path.join(VERIF, "harness", "ev")
sys.path.insert(0, EV)
import evlib

# -- the published relations: depth in km, speeds in km/s, density in g/cm**3 (the rules use m, m/s and kg/m**3) ------
poly = lambda v, *c: sum(k*v**i for i, k in enumerate(c))
vs_of = lambda vp: poly(vp, 0.7858, -1.2344, 0.7949, -0.1238, 0.0064)
rho_of = lambda vp: 1.74*vp**0.25
qs_of = lambda vs: poly(vs, -16.0, 104.13, -25.225, 8.2184)
nafe = lambda a, vp: poly(vp, a, 1.6612, -0.4721, 0.0671, -0.0043, 0.0001)


def steps(d, *parts):
    """Parts (limit, depth at which it starts, value there, slope)."""
    for limit, start, at, slope in parts:
        if limit is None or d < limit:
            return at + slope*(d - start)


def finish(rho, vp, vs):
    qs = 13.0 if vs < 0.3 else qs_of(vs)
    return (1e3*rho, 1e3*vp, 1e3*vs, 2.0*qs, qs)


def mantle(d):
    return finish(3.3, 7.77 + 0.001*max(0.0, d - 20.0), 4.41 + 0.0006*max(0.0, d - 20.0))


def ophiolite(d):
    vp = 5.9 + 0.056*max(0.0, d - 10.0)
    return finish(nafe(0.227, vp), vp, vs_of(vp))


def franciscan(a):
    def rule(d):
        vp = a + steps(d, (1.0, 0.0, 2.5, 2.0), (3.0, 1.0, 4.5, 0.45), (None, 3.0, 5.4, 0.0588))
        return finish(rho_of(vp if d >= 3.0 else 5.4 + a), vp, vs_of(vp))
    return rule


def granitic(d):
    vp = steps(d, (0.5, 0.0, 1.5, 5.0), (1.5, 0.5, 4.0, 1.3), (2.5, 1.5, 5.3, 0.3), (5.0, 2.5, 5.6, 0.08), (None, 5.0, 5.8, 0.06))
    return finish(nafe(0.06, vp if d >= 3.0 else 5.64), vp, vs_of(vp))


def great_valley(d):
    vp = steps(d, (3.6, 0.0, 2.5, 0.5833), (8.0, 3.6, 4.6, 0.18182), (11.0, 8.0, 5.4, 0.166), (None, 11.0, 5.9, 0.0666))
    vs = 0.6 + 1.183*d if d < 1.0 else 1.5 + 0.2836*d if d < 5.0 else vs_of(vp)
    return finish(rho_of(vp if d >= 3.0 else 4.25), vp, vs)


def quaternary(d):
    m = 1e3*d
    vp = poly(m, 700.0, 42.968, -0.5758, 2.9316e-3, -3.9776e-6)/1e3 if d < 0.04 else poly(m, 1500.0, 3.735, -3.543e-3)/1e3 if d < 0.5 else 2.24 + 0.6*min(d, 10.0)
    vs = 0.08 + 2.5*d if d < 0.025 else (vp - 1.36)/1.16 if d < 0.05 else vs_of(vp)
    return finish(rho_of(vp), vp, vs)


def la_honda(d):
    vp = poly(d, 2.24, 2.62, -0.74432, 0.0707) if d < 3.0 else 5.32 + 0.027*(d - 3.0)
    return finish(rho_of(vp), vp, 0.5 + 6.633*d if d < 0.05 else vs_of(vp))


def south_bay(deep):
    def rule(d):
        vp = steps(d, (0.75, 0.0, 1.8, 1.2), (4.0, 0.75, 2.7, 0.597), (7.0, 4.0, 4.64, deep), (None, 7.0, 4.64 + 3*deep, 0.06))
        return finish(rho_of(vp), vp, 0.5 + 0.4*d if d < 0.05 else vs_of(vp))
    return rule


def half_moon_bay(d):
    vp = steps(d, (0.05, 0.0, 0.7, 31.4), (4.0, 0.05, 2.24, 0.6), (7.0, 4.0, 4.64, 0.417), (None, 7.0, 5.891, 0.06))
    return finish(rho_of(vp), vp, 0.5 + 0.4*d if d < 0.05 else vs_of(vp))


def brocher(at, slope):
    def rule(d):
        vp = steps(d, (4.0, 0.0, at, slope), (7.0, 4.0, 4.64, 0.3), (None, 7.0, 5.54, 0.06))
        vs = vs_of(vp)
        return (1e3*rho_of(vp), 1e3*vp, 1e3*vs, 2*qs_of(vs), qs_of(vs))
    return rule


def livermore(d):
    vp = 1.64 + 0.6*d if d < 6.44444 else 5.506667 + 0.06*(d - 6.44444)
    vs = vs_of(vp)
    return (1e3*rho_of(vp), 1e3*vp, 1e3*vs, 2*qs_of(vs), qs_of(vs))


water = lambda d: (1030.0, 1500.0, NODATA, 63000.0, NODATA)
outside = lambda d: (NODATA,)*5
berkeley, foothills, napa_sonoma = franciscan(-0.03), franciscan(0.13), franciscan(0.03)
gvs2008, ceno2005, southbay, walnutcreek = brocher(2.75, 0.4725), brocher(2.24, 0.6), south_bay(0.417), south_bay(0.3)


def divided(x0, y0, ahead, behind):
    """One rule on the side of the line towards the azimuth of the model, another behind."""
    return (x0, y0, ahead, behind)


ZONES_DETAILED = {}
for rule, names in ((mantle, ["Mantle"]), (ophiolite, ["Lower Crust", "Great_Valley_Ophiolite", "San Leandro G", "Logan G"]),
                    (berkeley, ["Kjf_Berkeley", "Kjf_Chabot", "Kjf_Sur", "Kjf_Evergreen", "Kjf_E_Diablo", "Kjf_W_Diablo"]), (foothills, ["Kjf_Foothills"]),
                    (napa_sonoma, ["Kjf_Merced", "Kjf_Napa_Somoma", "Kjf_Bay Block"]), (granitic, ["Kgr_Gab", "Kgr_Halfmoon", "Kgr_SCoast", "Kgr_NShelf"]),
                    (great_valley, ["Valley Sequence", "Great Valley Seq"]),
                    (southbay, ["Cenozoic", "Cenozoic_Great Valley", "Cenozoic_Ever", "T_SouthBay", "T_Pilarcitos", "T_Bay_Block_Santa_Rosa", "T_Berkeley"]),
                    (half_moon_bay, ["Cenozoic_Halfmoon"]), (la_honda, ["T_La Honda"]),
                    (quaternary, ["QT_Bay_Block_Santa Rosa", "QT_Merced_Pilarcitos", "QT_South_Bay"]), (water, ["water"]), (outside, ["<null>", ""])):
    for n in names:
        ZONES_DETAILED[n] = rule
BLOCKS_21_1 = {
    ("Napa", "Kjf_Napa_Somoma"): divided(62999.3, 360755.6, napa_sonoma, gvs2008),
    ("San Leandro", "Valley Sequence"): divided(92724.2, 285582.4, gvs2008, ceno2005), ("Sunol", "Valley Sequence"): gvs2008,
    ("Berkeley", "Great Valley Seq"): gvs2008, ("Chabot", "Great Valley Seq"): gvs2008, ("W Diablo Range", "Great Valley Seq"): gvs2008,
    ("Napa", "Cenozoic"): divided(81696.7, 328741.7, ceno2005, walnutcreek), ("Sonoma", "Cenozoic"): divided(47249.3, 360648.4, gvs2008, ceno2005),
    ("Alexander", "Cenozoic"): gvs2008, ("W Diablo Range", "Cenozoic"): livermore, ("Santa Rosa", "T_Bay_Block_Santa_Rosa"): ceno2005,
    ("Berkeley", "T_Berkeley"): gvs2008, ("Chabot", "T_Berkeley"): gvs2008}
ZONES_REGIONAL = {}
for rule, names in ((mantle, ["mantle"]), (ophiolite, ["mafic lower crust", "GV gabbro"]), (foothills, ["KJf_Foothills", "KJf_Viscaino"]),
                    (berkeley, ["KJf_W_Diablo", "KJf_E_Diablo", "KJf_Sur", "KJf_Coastal_Belt"]), (great_valley, ["K"]), (granitic, ["Kgr"]), (napa_sonoma, ["KJF_Bay_Block"]),
                    (southbay, ["Cs_Coast Ranges", "Cs_Offshore", "T_Foothills", "T_Great_Valley", "T_Salinia"]), (quaternary, ["Q_Salinia"]), (water, ["water"]), (outside, ["<null>", ""])):
    for n in names:
        ZONES_REGIONAL[n] = rule
MODELS = {"USGS_SFCVM_detailed_v08-3-0": (ZONES_DETAILED, {}), "USGS_SFCVM_detailed_v21-1": (ZONES_DETAILED, BLOCKS_21_1), "USGS_SFCVM_regional_v08-3-0": (ZONES_REGIONAL, {})}
CONFIGS = [("USGS_SFCVM_detailed.cfg", "USGS_SFCVM_detailed_v21-0.cfg", "USGS_SFCVM_detailed_v08-3-0"), ("USGS_SFCVM_detailed.cfg", "USGS_SFCVM_detailed_v21-1.cfg", "USGS_SFCVM_detailed_v21-1"),
           ("USGS_SFCVM_regional.cfg", "USGS_SFCVM_regional_v21-0.cfg", "USGS_SFCVM_regional_v08-3-0")]
AZIMUTH = math.radians(323.638)
DIVIDED = [(62999.3, 360755.6), (92724.2, 285582.4), (81696.7, 328741.7), (47249.3, 360648.4)]
UNIQUE = {"rules_hirakawa_aagaard_2021.franciscan_sonoma": divided(47249.3, 360648.4, napa_sonoma, gvs2008), "rules_hirakawa_aagaard_2021.brocher2005_older_cenozoic_sedimentary": ceno2005,
          "rules_hirakawa_aagaard_2021.cenozoic_walnutcreek": walnutcreek, "rules_hirakawa_aagaard_2021.franciscan_napa_sonoma": napa_sonoma}


def along(x, y, x0, y0):
    return (x - x0)*math.sin(AZIMUTH) + (y - y0)*math.cos(AZIMUTH)


def expected(rule, x, y, d, margin):
    """Values in SI units; None near a dividing line."""
    if isinstance(rule, tuple):
        t = along(x, y, *rule[:2])
        if abs(t) < margin:
            return None
        rule = rule[2] if t > 0 else rule[3]
    return rule(d)


LIMITS = [0.0, 25.0, 40.0, 50.0, 500.0, 750.0, 1e3, 1.5e3, 2.5e3, 3e3, 3.6e3, 4e3, 5e3, 6444.44, 7e3, 8e3, 10e3, 11e3, 20e3, 45e3]


def judge(got, rule, x, y, d, margin, tol, slack):
    """None if right (or left open), else the expected values."""
    alts = [expected(rule, x, y, (d + q)/1e3, margin) for q in ((0.0, -slack, slack) if min(abs(d - v) for v in LIMITS) <= 2*slack else (0.0,))]
    if alts[0] is None:
        return None
    return None if any(len(got) == 5 and all(abs(a - b) <= tol(b) for a, b in zip(got, w)) for w in alts) else alts[0]


def ask(pkg, models, requests):
    env = dict(build.ENV, PYTHONPATH=pkg + ":" + models, PYTHONDONTWRITEBYTECODE="1")
    out, err, rc, to = run_process(["/usr/bin/python3", "-W", "ignore", os.path.join(VERIF, "harness", "rules.py")], stdin="".join(json.dumps(r) + "\n" for r in requests), env=env, timeout=200)
    lines = out.splitlines()
    if "READY" not in lines:
        raise CheckError("cannot run the rules: " + err[-1500:])
    res = [json.loads(ln[2:]) for ln in lines if ln.startswith("R ")]
    return res, None if "END" in lines and not to else ("timeout" if to else crash_kind(err, rc)), err


def auxiliary(models, cfg):
    p = configparser.RawConfigParser()
    p.optionxform = str
    p.read(os.path.join(models, cfg))
    return json.loads(p["data"]["auxiliary"])


def points(rng, n):
    out = []
    for _ in range(n):
        k = rng.random()
        d = float(rng.uniform(0, 45e3)) if k < 0.3 else float(10**rng.uniform(-1, 4.7)) if k < 0.7 else float(rng.choice(LIMITS) + rng.choice([0.0, 1e-6, -1e-6, 0.3, -0.3]))
        if rng.random() < 0.5:
            x, y = (float(v) for v in rng.uniform([-3e4, 1.4e5], [2.4e5, 4.5e5]))
        else:  # around the lines that divide fault blocks
            x0, y0 = DIVIDED[int(rng.integers(0, len(DIVIDED)))]
            t, a = float(rng.choice([-1, 1])*10**rng.uniform(0.05, 4)), float(rng.uniform(-6e4, 6e4))
            x, y = x0 + t*math.sin(AZIMUTH) + a*math.cos(AZIMUTH), y0 + t*math.cos(AZIMUTH) - a*math.sin(AZIMUTH)
        out.append([x, y, d])
    return out


def rules(ck, pkg, models, g):
    rng = rng_for("C27", g)
    requests, meta = [], []
    for base, _, name in CONFIGS:
        zones, special = MODELS[name]
        aux = auxiliary(models, base)
        blocks = list(aux["fault_block_ids"])
        if set(aux["zone_ids"]) != set(zones):
            ck.violation("zones", "%s lists %s" % (base, sorted(set(aux["zone_ids"]) ^ set(zones))), None, [os.path.join(models, base)])
        pairs = [(str(rng.choice(blocks)), z) for z in zones for _ in range(3)] + list(special) + [("somewhere", z) for z in sorted({q[1] for q in special})]
        for fb, z in pairs:
            requests.append([name, None, fb, z, points(rng, 40 if not THOROUGH else 200)])
            meta.append(special.get((fb, z), zones[z]))
        requests.append([name, None, blocks[0], "no such zone %d" % g, points(rng, 1)])
        meta.append("refused")
    for k, v in UNIQUE.items():
        m, fn = k.split(".")
        requests.append([m, fn, "", "", points(rng, 60)])
        meta.append(v)
    order = rng.permutation(len(requests))
    requests, meta = [requests[int(k)] for k in order], [meta[int(k)] for k in order]
    res, crash, err = ask(pkg, models, requests)
    if crash:
        return ck.violation("rules end abnormally: " + crash.split(":")[0], crash, None, extra=err[-3000:])
    for (m, fn, fb, z, pts), rule, (kind, r) in zip(requests, meta, res):
        where = "%s %s" % (m, fn or "(%s, %s)" % (fb, z))
        ck.case((g, where), dict(rules=m, block=fb, zone=z))
        if kind == "ABSENT":
            continue
        if rule == "refused":
            if kind != "EXC":
                ck.violation("unknown zone answered", "%s: %s" % (where, r), None)
            ck.count("unknown_zones")
            continue
        if kind != "OK":
            ck.violation("rule fails", "%s: %s" % (where, r), None)
            continue
        for p, got in zip(pts, r):
            want = judge(got, rule, *p, 1.0, lambda b: 1e-8*max(1.0, abs(b)), 1e-5)
            if want:
                ck.violation("values of a rule", "%s at %s: %s, expected %s" % (where, p, got, want), None)
                break
            if len(got) == 5 and got[1] != NODATA and got[2] != NODATA:
                ck.count("speeds_ordered", int(got[1] > got[2] > 0 and got[0] > 0 and got[4] > 0))
            ck.count("rule_evaluations")


# -- the shipped configurations ----------------------------------------------------------------------
def listed(text, delim):
    t = text.strip()
    if t[:1] in "[(" and t[-1:] in "])":
        t = t[1:-1]
    return [v.strip() for v in t.split(delim)] if t.strip() else []


def created(ck, pkg, models, g):
    rng = rng_for("C27c", g)
    requests, meta = [], []
    for base, version, name in CONFIGS:
        d = os.path.dirname(ck.ws.path("m%d-%s" % (g, version), "x"))
        zones, special = MODELS[name]
        aux = auxiliary(models, base)
        md = os.path.join(d, "ev")
        os.makedirs(md)
        p = configparser.RawConfigParser()
        p.optionxform = str
        p.read([os.path.join(models, base), os.path.join(models, version)])
        S = {s: dict(p.items(s)) for s in p.sections()}
        dx, dy, dz = (float(S["domain"]["dim_" + q]) for q in "xyz")
        ox, oy, az = float(S["coordsys"]["origin_x"]), float(S["coordsys"]["origin_y"]), math.radians(float(S["coordsys"]["y_azimuth"]))
        nx, ny = (int(v) for v in rng.choice([5, 6, 10], 2))
        O = {"geomodelgrids": dict(filename="m.h5", data_source="geomodelgrids.create.data_srcs.earthvision.datasrc.RulesDataSrc"), "domain": dict(batch_size=str(int(rng.choice([40, 300, 100000])))),
             "earthvision": dict(model_dir=md, rules_pythonpath=models), "earthvision.environment": dict(PATH=EV + ":/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1"),
             "top_surface": dict(x_resolution=repr(dx/nx), y_resolution=repr(dy/ny), chunk_size="(2, 2, 1)"), "topography_bathymetry": dict(x_resolution=repr(dx/nx), y_resolution=repr(dy/ny), chunk_size="(2, 2, 1)")}
        blocks = listed(S["domain"]["blocks"], ",")
        nz = {}
        for b in blocks:
            nz[b] = int(rng.integers(2, 7))
            O[b] = dict(x_resolution=repr(dx/nx), y_resolution=repr(dy/ny), z_resolution=repr((float(S[b]["z_top"]) - float(S[b]["z_bot"]))/nz[b]), chunk_size="(2, 2, 2, %d)" % len(listed(S["data"]["values"], ",")))
        grd = {}
        for key in ("top_surface_2grd", "topography_bathymetry_2grd"):
            for k, n in enumerate(listed(S["earthvision"][key], ",")):
                grd[n] = dict(a=float(rng.choice([1.05, 2.0])) if k == 0 else 0.0, b=0.6 if k == 0 else 0.0, c=0.4 if k == 0 else 0.0, kx=0.05, ky=0.04, p=float(rng.uniform(0, 6)))
        for n, q in grd.items():
            json.dump(q, open(os.path.join(md, n), "w"))
        fb = [q for q in aux["fault_block_ids"] if q]
        zn = [q for q in aux["zone_ids"] if q]
        fl = [str(q) for q in rng.permutation(fb)[:5]]
        zl = [str(q) for q in rng.permutation(zn)[:6]]
        if special:
            some = [list(special)[int(q)] for q in rng.permutation(len(special))[:4]]
            fl[:len(some)], zl[:len(some)] = [q[0] for q in some], [q[1] for q in some]
        if rng.random() < 0.5:
            zl[-1] = ""
        c, s = math.cos(az), math.sin(az)

        def plane(vertical):
            x, y, t = rng.uniform(0, dx), rng.uniform(0, dy), rng.uniform(0, 2*math.pi)
            px, py, z = (ox + x*c + y*s)/1e3, (oy - x*s + y*c)/1e3, -float(10**rng.uniform(-2, 1.6))
            w = [math.cos(t), math.sin(t), 0.0] if vertical else [0.02*math.cos(t), 0.02*math.sin(t), 1.0]
            return w + [w[0]*px + w[1]*py + w[2]*z]
        seq = dict(fault_planes=[plane(True) for _ in fl[1:]], zone_planes=[plane(False) for _ in zl[1:]], fault_labels=fl, zone_labels=zl, indent="",
                   sections=[("Fault Block Names", [(aux["fault_block_ids"][q], q) for q in fb]), ("Zone Names", [(aux["zone_ids"][q], q) for q in zn])])
        json.dump(seq, open(os.path.join(md, S["earthvision"]["geologic_model"]), "w"))
        with open(os.path.join(d, "here.cfg"), "w") as fo:
            for sec, kv in O.items():
                fo.write("[%s]\n" % sec + "".join("%s = %s\n" % q for q in kv.items()))
        requests.append(dict(cwd=d, runs=[["--config=%s/%s,%s/%s,here.cfg" % (models, base, models, version), "--all"]]))
        meta.append((d, base, version, name, S, O, seq, grd, aux, blocks, nz, (nx, ny), (dx, dy, dz), (ox, oy, az)))
    res, crash, err = run_creations(pkg, requests)
    if crash:
        return ck.violation("creation ends abnormally: " + crash.split(":")[0], crash, None, extra=err[-3000:])
    for (d, base, version, name, S, O, seq, grd, aux, blocks, nz, (nx, ny), (dx, dy, dz), (ox, oy, az)), r in zip(meta, res):
        zones, special = MODELS[name]
        path = os.path.join(d, "m.h5")
        ck.case((g, version), dict(config=version, blocks=nz))
        if r[0][0] != "OK":
            ck.violation("creation fails: " + r[0][1].split(":")[0], "%s: %s" % (version, r[0][1]), None, [os.path.join(d, "here.cfg")])
            continue
        key, text = stored(ck, path, S, O, seq, grd, aux, blocks, nz, nx, ny, dx, dy, dz, ox, oy, az, zones, special)
        if key:
            ck.violation(key, "%s: %s" % (version, text), None, [path, os.path.join(d, "here.cfg")])
        ck.count("shipped_configurations")


def stored(ck, path, S, O, seq, grd, aux, blocks, nz, nx, ny, dx, dy, dz, ox, oy, az, zones, special):
    c, s = math.cos(az), math.sin(az)
    X, Y = np.meshgrid(np.arange(nx+1)*dx/nx, np.arange(ny+1)*dy/ny, indexing="ij")
    px, py = (ox + X*c + Y*s), (oy - X*s + Y*c)
    with h5py.File(path, "r") as h:
        for k in ("title", "id", "description", "version", "creator_name", "creator_email", "creator_institution", "license", "repository_name", "repository_url", "repository_doi", "comment", "history", "acknowledgement"):
            if h.attrs[k] != S["geomodelgrids"][k]:
                return "metadata", "%s: %r, configured %r" % (k, h.attrs[k], S["geomodelgrids"][k])
        for k, dl in (("keywords", ","), ("authors", "|"), ("references", "|")):
            got = [v.decode() if isinstance(v, bytes) else str(v) for v in h.attrs[k]]
            if got != listed(S["geomodelgrids"][k], dl):
                return "metadata", "%s: %r, configured %r" % (k, got, S["geomodelgrids"][k])
        if h.attrs["crs"] != S["coordsys"]["crs"] or [h.attrs[k] for k in ("origin_x", "origin_y")] != [ox, oy] or h.attrs["y_azimuth"] != float(S["coordsys"]["y_azimuth"]) or [h.attrs["dim_" + q] for q in "xyz"] != [dx, dy, dz]:
            return "metadata", "domain: %s" % dict(h.attrs)
        if json.loads(h.attrs["auxiliary"]) != aux:
            return "metadata", "auxiliary: %s" % h.attrs["auxiliary"]
        surf = {}
        for key in ("top_surface", "topography_bathymetry"):
            e = np.max([np.vectorize(lambda p, q: evlib.elevation(grd[n], p, q), otypes=[float])(px/1e3, py/1e3)*1e3 for n in listed(S["earthvision"][key + "_2grd"], ",")], axis=0)
            got = h["surfaces"][key][:, :, 0]
            if got.shape != e.shape or not (np.abs(got - e) <= 0.05).all():
                return "surface", "%s: %s, expected %s" % (key, got.ravel()[:5], e.ravel()[:5])
            surf[key] = got.astype(float)
        if set(h["blocks"]) != set(blocks):
            return "blocks", str(list(h["blocks"]))
        for b in blocks:
            v = h["blocks"][b][:]
            if v.shape != (nx+1, ny+1, nz[b]+1, 7):
                return "blocks", "%s: %s" % (b, v.shape)
            zl = float(S[b]["z_top"]) - (float(S[b]["z_top"]) - float(S[b]["z_bot"]))/nz[b]*np.arange(nz[b]+1)
            off = float(S[b]["z_top_offset"])
            for i in range(nx+1):
                for j in range(ny+1):
                    for k in range(nz[b]+1):
                        z = -dz + (surf["top_surface"][i, j] + dz)/dz*(zl[k] + dz)
                        q = (px[i, j]/1e3, py[i, j]/1e3, (z + (off if k == 0 else 0.0))/1e3)
                        if min([abs(evlib.side(pl, *q)) for pl in seq["fault_planes"] + seq["zone_planes"]]) < 1e-3:
                            ck.count("points_left_open")
                            continue
                        fb, zn = evlib.label(seq, *q)
                        depth = surf["topography_bathymetry"][i, j] - z
                        got = [float(t) for t in v[i, j, k]]
                        if got[5:] != [np.float32(aux["fault_block_ids"][fb]), np.float32(aux["zone_ids"][zn])]:
                            return "ids", "%s %s: %s, expected %s, %s" % (b, (i, j, k), got[5:], fb, zn)
                        slack = 2e-3  # roundoff of the surfaces
                        tol = lambda t: 3e-7*abs(t) + slack*64.0
                        want = judge(got[:5], special.get((fb, zn), zones[zn]), px[i, j], py[i, j], depth, 5.0, tol, slack)
                        if want:
                            return "values of the model", "%s %s (%s, %s, depth %s): %s, expected %s" % (b, (i, j, k), fb, zn, depth, got[:5], want)
                        ck.count("grid_points_by_rules")
    return None, None


def main():
    ck = Check("C27", "The rules of the three versions of the San Francisco Bay models are evaluated for all zones, for fault blocks with and without rules of their own, at depths around every change of a relation and at "
               "places on both sides of the dividing lines, against the published relations in their own units; the shipped configurations are built (full extent, coarse, with stand-ins for the EarthVision programs) and every stored value, identifier and item of metadata compared.")
    pkg = os.path.dirname(ck.ws.path("pkg", "x"))
    build.stage_python(pkg)
    models = os.path.dirname(ck.ws.path("sfbay", "x"))
    src = os.path.join(build.REPO, "models", "usgs_sfbay")
    for n in os.listdir(src):
        if n.endswith((".py", ".cfg")):
            shutil.copy(os.path.join(src, n), models)
    sys.dont_write_bytecode = True
    ck.map(lambda g: rules(ck, pkg, models, g), range(32 if THOROUGH else 8))
    ck.map(lambda g: created(ck, pkg, models, g), range(24 if THOROUGH else 8))
    return ck.finish(minimum=100)

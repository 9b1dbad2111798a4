// Operation interpreter driving the real library; every operation prints one event line.
#include "geomodelgrids/serial/Query.hh"
#include "geomodelgrids/serial/Model.hh"
#include "geomodelgrids/serial/ModelInfo.hh"
#include "geomodelgrids/serial/Block.hh"
#include "geomodelgrids/serial/Surface.hh"
#include "geomodelgrids/serial/HDF5.hh"
#include "geomodelgrids/serial/Hyperslab.hh"
#include "geomodelgrids/utils/ErrorHandler.hh"
#include "geomodelgrids/utils/CRSTransformer.hh"
#include "geomodelgrids/utils/Indexing.hh"
#include "geomodelgrids/utils/GeoTiff.hh"
extern "C" {
#include "geomodelgrids/serial/cquery.h"
#include "geomodelgrids/utils/cerrorhandler.h"
}
#include <hdf5.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cerrno>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <stdexcept>
#include <typeinfo>
#include <unistd.h>
#include <sys/syscall.h>
#include <dirent.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#endif

// ---- fault injection: reads of the HDF5 library go through these definitions --------------------
static long fault_after = -1;    // number of reads still to succeed; -1: off
static long fault_len = 0;       // how many reads fail once triggered (<0: all)
static int fault_mode = 0;       // 0: EIO, 1: premature end of file, 2: EINTR-like error once, 3: short then fine
static long read_count = 0;
static long fault_fired = 0;
static bool isModel(int fd) { // only HDF5 files count, not the databases of PROJ and GDAL
    char link[64], path[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    const ssize_t n = readlink(link, path, sizeof path - 1);
    return n > 3 && memcmp(path+n-3, ".h5", 3) == 0;
}
static ssize_t do_pread(int fd, void* buf, size_t n, off_t off) {
    if (!isModel(fd)) { return syscall(SYS_pread64, fd, buf, n, off); }
    ++read_count;
    if (fault_after >= 0) {
        if (fault_after == 0) {
            if (fault_len != 0) {
                if (fault_len > 0) { --fault_len; }
                ++fault_fired;
                if (fault_mode == 0) { errno = EIO; return -1; }
                if (fault_mode == 1) { memset(buf, 0, n); return 0; }
                if (fault_mode == 2) { errno = EACCES; return -1; }
                if (fault_mode == 3) { n = n > 1 ? n/2 : n; }
            } // if
        } else { --fault_after; }
    } // if
    return syscall(SYS_pread64, fd, buf, n, off);
}
extern "C" __attribute__((visibility("default"))) ssize_t pread(int fd, void* buf, size_t n, off_t off) { return do_pread(fd, buf, n, off); }
extern "C" __attribute__((visibility("default"))) ssize_t pread64(int fd, void* buf, size_t n, off_t off) { return do_pread(fd, buf, n, off); }

// ---- helpers ------------------------------------------------------------------------------------
static std::string enc(const std::string& s) {
    static const char* hex = "0123456789abcdef";
    std::string o("'");
    for (unsigned char c : s) {
        if (c > 32 && c < 127 && c != '%') { o += char(c); } else { o += '%'; o += hex[c>>4]; o += hex[c&15]; }
    }
    return o;
}
static std::string enc(const char* s) { return s ? enc(std::string(s)) : std::string("NULL"); }
static std::string dec(const std::string& s) {
    std::string o;
    for (size_t i = (s.size() && s[0] == '\'') ? 1 : 0; i < s.size(); ++i) {
        if (s[i] == '%') { o += char(strtol(s.substr(i+1, 2).c_str(), nullptr, 16)); i += 2; } else { o += s[i]; }
    }
    return o;
}
typedef std::vector<std::string> Toks;
struct Reader {
    Toks t; size_t i;
    const std::string& raw() { if (i >= t.size()) { fprintf(stderr, "DRIVER: missing argument of %s\n", t[0].c_str()); _exit(97); } return t[i++]; }
    std::string s() { return dec(raw()); }
    double d() { return strtod(raw().c_str(), nullptr); }
    long n() { return strtol(raw().c_str(), nullptr, 10); }
    bool more() const { return i < t.size(); }
};
static std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }

using geomodelgrids::serial::Query;
using geomodelgrids::serial::Model;
using geomodelgrids::utils::ErrorHandler;
using geomodelgrids::utils::CRSTransformer;
using geomodelgrids::utils::GeoTiff;

static std::map<std::string, std::unique_ptr<Query> > Q;
static std::map<std::string, void*> CH;
static std::map<std::string, std::unique_ptr<Model> > M;
static std::map<std::string, std::unique_ptr<CRSTransformer> > T;
static std::map<std::string, std::unique_ptr<GeoTiff> > G;
static std::map<std::string, std::unique_ptr<ErrorHandler> > E;

static void strings(std::ostream& o, const std::vector<std::string>& v) { o << v.size(); for (auto& s : v) { o << ' ' << enc(s); } }
static void coords(std::ostream& o, const char* key, const double* c, size_t n, double res) {
    o << ' ' << key << ' ';
    if (c) { o << "v " << n; for (size_t i = 0; i < n; ++i) { o << ' ' << num(c[i]); } } else { o << "u " << num(res); }
}

static void ehOp(const std::string& op, ErrorHandler* e, Reader& r, std::ostream& o) {
    if (op == "status") { o << int(e->getStatus()); }
    else if (op == "msg") { o << enc(e->getMessage()); }
    else if (op == "reset") { e->resetStatus(); }
    else if (op == "logfile") { e->setLogFilename(r.s().c_str()); }
    else if (op == "getlog") { o << enc(e->getLogFilename()); }
    else if (op == "logon") { e->setLoggingOn(r.n() != 0); }
    else if (op == "seterr") { e->setError(r.s().c_str()); }
    else if (op == "setwarn") { e->setWarning(r.s().c_str()); }
    else if (op == "log") { e->logMessage(r.s().c_str()); }
    else { fprintf(stderr, "DRIVER: unknown operation %s\n", op.c_str()); _exit(97); }
}

static void qOp(const std::string& op, Reader& r, std::ostream& o) {
    const std::string h = r.raw();
    if (op == "new") { Q[h].reset(new Query()); return; }
    if (op == "del") { Q.erase(h); return; }
    if (!Q.count(h)) { fprintf(stderr, "DRIVER: no handle\n"); _exit(97); }
    Query* q = Q[h].get();
    if (op == "init") {
        std::vector<std::string> files, names;
        long n = r.n(); for (long i = 0; i < n; ++i) { files.push_back(r.s()); }
        n = r.n(); for (long i = 0; i < n; ++i) { names.push_back(r.s()); }
        q->initialize(files, names, r.s());
    } else if (op == "sq") { q->setSquashing((Query::SquashingEnum)r.n());
    } else if (op == "min") { q->setSquashMinElev(r.d());
    } else if (op == "names") { strings(o, q->getValueNames());
    } else if (op == "q") {
        const size_t nv = r.n();
        std::unique_ptr<double[]> v(new double[nv]); // exact size, so that redzones catch any excess
        for (size_t i = 0; i < nv; ++i) { v[i] = 12345.678; }
        const double x = r.d(), y = r.d(), z = r.d();
        const int st = q->query(v.get(), x, y, z);
        o << st; for (size_t i = 0; i < nv; ++i) { o << ' ' << num(v[i]); }
    } else if (op == "qnull") { const double x = r.d(), y = r.d(), z = r.d(); o << q->query(nullptr, x, y, z);
    } else if (op == "top") { const double x = r.d(), y = r.d(); o << num(q->queryTopElevation(x, y));
    } else if (op == "topo") { const double x = r.d(), y = r.d(); o << num(q->queryTopoBathyElevation(x, y));
    } else if (op == "fin") { q->finalize();
    } else { ehOp(op, q->getErrorHandler().get(), r, o); }
}

static void cOp(const std::string& op, Reader& r, std::ostream& o) {
    const std::string h = r.raw();
    if (op == "new") { CH[h] = geomodelgrids_squery_create(); o << (CH[h] ? 1 : 0); return; }
    void* q = (h == "-") ? nullptr : CH[h];
    if (op == "del") {
        if (h == "-") { geomodelgrids_squery_destroy(&q); o << (q ? 1 : 0); geomodelgrids_squery_destroy(nullptr); }
        else { geomodelgrids_squery_destroy(&CH[h]); o << (CH[h] ? 1 : 0); }
        return;
    }
    if (op == "init") {
        std::vector<std::string> files, names;
        long n = r.n(); for (long i = 0; i < n; ++i) { files.push_back(r.s()); }
        n = r.n(); for (long i = 0; i < n; ++i) { names.push_back(r.s()); }
        std::unique_ptr<const char*[]> f(new const char*[files.size()]), v(new const char*[names.size()]);
        for (size_t i = 0; i < files.size(); ++i) { f[i] = files[i].c_str(); }
        for (size_t i = 0; i < names.size(); ++i) { v[i] = names[i].c_str(); }
        const std::string crs = r.s();
        o << geomodelgrids_squery_initialize(q, f.get(), files.size(), v.get(), names.size(), crs.c_str());
    } else if (op == "initbad") { // a valid initialisation except for one argument
        const long what = r.n();
        const std::string file = r.s(), name = r.s(), crs = r.s();
        const char* f[2] = { file.c_str(), (what == 1) ? nullptr : file.c_str() };
        const char* v[2] = { (what == 3) ? nullptr : name.c_str(), name.c_str() };
        o << geomodelgrids_squery_initialize(q, (what == 0) ? nullptr : f, (what == 5) ? -1 : (what == 1) ? 2 : 1, (what == 2) ? nullptr : v, (what == 6) ? -2 : 1, (what == 4) ? nullptr : crs.c_str());
    } else if (op == "sq") { o << geomodelgrids_squery_setSquashing(q, r.n());
    } else if (op == "min") { o << geomodelgrids_squery_setSquashMinElev(q, r.d());
    } else if (op == "q") {
        const size_t nv = r.n();
        std::unique_ptr<double[]> v(new double[nv]);
        for (size_t i = 0; i < nv; ++i) { v[i] = 12345.678; }
        const double x = r.d(), y = r.d(), z = r.d();
        const int st = geomodelgrids_squery_query(q, v.get(), x, y, z);
        o << st; for (size_t i = 0; i < nv; ++i) { o << ' ' << num(v[i]); }
    } else if (op == "qnull") { const double x = r.d(), y = r.d(), z = r.d(); o << geomodelgrids_squery_query(q, nullptr, x, y, z);
    } else if (op == "top") { const double x = r.d(), y = r.d(); o << num(geomodelgrids_squery_queryTopElevation(q, x, y));
    } else if (op == "topo") { const double x = r.d(), y = r.d(); o << num(geomodelgrids_squery_queryTopoBathyElevation(q, x, y));
    } else if (op == "fin") { o << geomodelgrids_squery_finalize(q);
    } else {
        void* e = geomodelgrids_squery_getErrorHandler(q);
        if (op == "haseh") { o << (e ? 1 : 0); }
        else if (op == "status") { o << int(geomodelgrids_cerrorhandler_getStatus(e)); }
        else if (op == "msg") { o << enc(geomodelgrids_cerrorhandler_getMessage(e)); }
        else if (op == "reset") { geomodelgrids_cerrorhandler_resetStatus(e); }
        else if (op == "logfile") { const std::string f = r.s(); geomodelgrids_cerrorhandler_setLogFilename(e, f.c_str()); }
        else if (op == "lognull") { geomodelgrids_cerrorhandler_setLogFilename(e, nullptr); }
        else if (op == "getlog") { o << enc(geomodelgrids_cerrorhandler_getLogFilename(e)); }
        else if (op == "logon") { geomodelgrids_cerrorhandler_setLoggingOn(e, r.n()); }
        else { fprintf(stderr, "DRIVER: unknown operation %s\n", op.c_str()); _exit(97); }
    }
}

static void mOp(const std::string& op, Reader& r, std::ostream& o) {
    const std::string h = r.raw();
    if (op == "new") { M[h].reset(new Model()); return; }
    if (op == "del") { M.erase(h); return; }
    Model* m = M[h].get();
    if (!m) { fprintf(stderr, "DRIVER: no handle\n"); _exit(97); }
    if (op == "open") { m->open(r.s().c_str(), Model::READ);
    } else if (op == "crs") { m->setInputCRS(r.s());
    } else if (op == "load") { m->loadMetadata();
    } else if (op == "init") { m->initialize();
    } else if (op == "in") { const double x = r.d(), y = r.d(), z = r.d(); o << (m->contains(x, y, z) ? 1 : 0);
    } else if (op == "q") {
        const size_t nv = r.n();
        const double x = r.d(), y = r.d(), z = r.d();
        const double* v = m->query(x, y, z);
        for (size_t i = 0; i < nv; ++i) { o << ' ' << num(v[i]); }
    } else if (op == "top") { const double x = r.d(), y = r.d(); o << num(m->queryTopElevation(x, y));
    } else if (op == "topo") { const double x = r.d(), y = r.d(); o << num(m->queryTopoBathyElevation(x, y));
    } else if (op == "close") { m->close();
    } else if (op == "info") {
        o << "names "; strings(o, m->getValueNames());
        o << " units "; strings(o, m->getValueUnits());
        o << " layout " << int(m->getDataLayout());
        o << " dims " << num(m->getDims()[0]) << ' ' << num(m->getDims()[1]) << ' ' << num(m->getDims()[2]);
        o << " origin " << num(m->getOrigin()[0]) << ' ' << num(m->getOrigin()[1]);
        o << " az " << num(m->getYAzimuth()) << " crs " << enc(m->getCRSString());
        auto surf = [&](const char* key, const std::shared_ptr<geomodelgrids::serial::Surface>& s) {
            o << ' ' << key << ' ' << (s ? 1 : 0);
            if (s) {
                o << ' ' << s->getDims()[0] << ' ' << s->getDims()[1];
                coords(o, "x", s->getCoordinatesX(), s->getDims()[0], s->getResolutionX());
                coords(o, "y", s->getCoordinatesY(), s->getDims()[1], s->getResolutionY());
            }
        };
        surf("top", m->getTopSurface());
        surf("topo", m->getTopoBathy());
        o << " blocks " << m->getBlocks().size();
        for (auto& b : m->getBlocks()) {
            o << ' ' << enc(b->getName()) << ' ' << b->getDims()[0] << ' ' << b->getDims()[1] << ' ' << b->getDims()[2]
              << ' ' << b->getNumValues() << ' ' << num(b->getZTop()) << ' ' << num(b->getZBottom());
            coords(o, "x", b->getCoordinatesX(), b->getDims()[0], b->getResolutionX());
            coords(o, "y", b->getCoordinatesY(), b->getDims()[1], b->getResolutionY());
            coords(o, "z", b->getCoordinatesZ(), b->getDims()[2], b->getResolutionZ());
        }
    } else if (op == "meta") {
        auto& i = m->getInfo();
        o << enc(i->getTitle()) << ' ' << enc(i->getId()) << ' ' << enc(i->getDescription()) << ' ';
        strings(o, i->getKeywords());
        o << ' ' << enc(i->getHistory()) << ' ' << enc(i->getComment()) << ' ' << enc(i->getCreatorName())
          << ' ' << enc(i->getCreatorEmail()) << ' ' << enc(i->getCreatorInstitution()) << ' ' << enc(i->getAcknowledgement()) << ' ';
        strings(o, i->getAuthors()); o << ' '; strings(o, i->getReferences());
        o << ' ' << enc(i->getRepositoryName()) << ' ' << enc(i->getRepositoryURL()) << ' ' << enc(i->getRepositoryDOI())
          << ' ' << enc(i->getLicense()) << ' ' << enc(i->getVersion()) << ' ' << enc(i->getAuxiliary());
    } else { fprintf(stderr, "DRIVER: unknown operation %s\n", op.c_str()); _exit(97); }
}

static void tOp(const std::string& op, Reader& r, std::ostream& o) {
    if (op == "units") {
        std::string x, y, z;
        const std::string crs = r.s();
        CRSTransformer::getCRSUnits(&x, &y, &z, crs.c_str());
        o << enc(x) << ' ' << enc(y) << ' ' << enc(z);
        return;
    }
    if (op == "unitsn") { // only some of the outputs requested
        std::string x, y, z;
        const long mask = r.n();
        const std::string crs = r.s();
        CRSTransformer::getCRSUnits((mask & 1) ? &x : nullptr, (mask & 2) ? &y : nullptr, (mask & 4) ? &z : nullptr, crs.c_str());
        o << enc(x) << ' ' << enc(y) << ' ' << enc(z);
        return;
    }
    const std::string h = r.raw();
    if (op == "new") { T[h].reset(new CRSTransformer()); return; }
    if (op == "del") { T.erase(h); return; }
    if (op == "xy") { const std::string crs = r.s(); T[h].reset(CRSTransformer::createGeoToXYAxisOrder(crs.c_str())); o << (T[h] ? 1 : 0); return; }
    CRSTransformer* t = T[h].get();
    if (!t) { fprintf(stderr, "DRIVER: no handle\n"); _exit(97); }
    if (op == "set") { const std::string a = r.s(), b = r.s(); t->setSrc(a.c_str()); t->setDest(b.c_str());
    } else if (op == "init") { t->initialize();
    } else if (op == "f" || op == "i") {
        const double x = r.d(), y = r.d(), z = r.d();
        double a = 0, b = 0, c = 0;
        if (op == "f") { t->transform(&a, &b, &c, x, y, z); } else { t->inverse_transform(&a, &b, &c, x, y, z); }
        o << num(a) << ' ' << num(b) << ' ' << num(c);
    } else if (op == "f2" || op == "i2") { // without z
        const double x = r.d(), y = r.d();
        double a = 0, b = 0;
        if (op == "f2") { t->transform(&a, &b, nullptr, x, y, 0.0); } else { t->inverse_transform(&a, &b, nullptr, x, y, 0.0); }
        o << num(a) << ' ' << num(b);
    } else { fprintf(stderr, "DRIVER: unknown operation %s\n", op.c_str()); _exit(97); }
}

static void iOp(const std::string& op, Reader& r, std::ostream& o) {
    std::unique_ptr<geomodelgrids::utils::Indexing> ix;
    if (op == "u") { ix.reset(new geomodelgrids::utils::IndexingUniform(r.d())); }
    else {
        const long order = r.n(); const size_t n = r.n();
        std::unique_ptr<double[]> c(new double[n]);
        for (size_t i = 0; i < n; ++i) { c[i] = r.d(); }
        typedef geomodelgrids::utils::IndexingVariable V;
        ix.reset(new V(op == "vnull" ? nullptr : c.get(), n, order ? V::DESCENDING : V::ASCENDING));
    }
    const size_t k = r.n();
    for (size_t i = 0; i < k; ++i) { o << ' ' << num(ix->getIndex(r.d())); }
}

static void gOp(const std::string& op, Reader& r, std::ostream& o) {
    const std::string h = r.raw();
    if (op == "new") { G[h].reset(new GeoTiff()); return; }
    if (op == "del") { G.erase(h); return; }
    GeoTiff* g = G[h].get();
    if (!g) { fprintf(stderr, "DRIVER: no handle\n"); _exit(97); }
    if (op == "size") { const long a = r.n(), b = r.n(), c = r.n(); g->setNumRows(a); g->setNumCols(b); g->setNumBands(c);
    } else if (op == "labels") { std::vector<std::string> l; long n = r.n(); for (long i = 0; i < n; ++i) { l.push_back(r.s()); } g->setBandLabels(l);
    } else if (op == "crs") { g->setCRS(r.s().c_str());
    } else if (op == "bbox") { const double a = r.d(), b = r.d(), c = r.d(), d = r.d(); g->setBBox(a, b, c, d);
    } else if (op == "nodata") { g->setNoDataValue(r.d());
    } else if (op == "create") { g->create(r.s().c_str());
    } else if (op == "fill") { // values, as many as follow
        float* b = g->getBands(); size_t i = 0; while (r.more()) { b[i++] = float(r.d()); }
    } else if (op == "write") { g->write();
    } else if (op == "read") { g->read(r.s().c_str());
    } else if (op == "close") { g->close();
    } else if (op == "getbbox") { double a = 0, b = 0, c = 0, d = 0; g->getBBox(&a, &b, &c, &d); o << num(a) << ' ' << num(b) << ' ' << num(c) << ' ' << num(d);
    } else if (op == "getsize") { o << g->getNumRows() << ' ' << g->getNumCols() << ' ' << g->getNumBands();
    } else if (op == "getlabels") { strings(o, g->getBandLabels());
    } else if (op == "getcrs") { o << enc(g->getCRS());
    } else if (op == "bands") { const float* b = g->getBands(); const size_t n = g->getNumRows()*g->getNumCols()*g->getNumBands(); o << (b ? n : 0); if (b) { for (size_t i = 0; i < n; ++i) { o << ' ' << num(b[i]); } }
    } else { fprintf(stderr, "DRIVER: unknown operation %s\n", op.c_str()); _exit(97); }
}

// Windows on datasets
struct Window { std::unique_ptr<geomodelgrids::serial::HDF5> h5; std::unique_ptr<geomodelgrids::serial::Hyperslab> slab; ~Window() { slab.reset(); if (h5) { h5->close(); } } };
static std::map<std::string, std::unique_ptr<Window> > H;
static void hOp(const std::string& op, Reader& r, std::ostream& o) {
    const std::string h = r.raw();
    if (op == "del") { H.erase(h); return; }
    if (op == "new") { // file, path of the dataset, dimensions of the window
        std::unique_ptr<Window> w(new Window);
        w->h5.reset(new geomodelgrids::serial::HDF5());
        w->h5->open(r.s().c_str(), H5F_ACC_RDONLY);
        const std::string path = r.s();
        const size_t n = r.n();
        std::unique_ptr<hsize_t[]> d(new hsize_t[n]);
        for (size_t i = 0; i < n; ++i) { d[i] = r.n(); }
        w->slab.reset(new geomodelgrids::serial::Hyperslab(w->h5.get(), path.c_str(), d.get(), n));
        H[h] = std::move(w);
        return;
    }
    if (!H.count(h)) { fprintf(stderr, "DRIVER: no handle\n"); _exit(97); }
    const size_t nv = r.n(), n = r.n();
    std::unique_ptr<double[]> v(new double[nv]), x(new double[n]);
    for (size_t i = 0; i < nv; ++i) { v[i] = 12345.678; }
    for (size_t i = 0; i < n; ++i) { x[i] = r.d(); }
    if (op == "int") { H[h]->slab->interpolate(v.get(), x.get()); }
    else if (op == "near") { H[h]->slab->nearest(v.get(), x.get()); }
    else { fprintf(stderr, "DRIVER: unknown operation %s\n", op.c_str()); _exit(97); }
    for (size_t i = 0; i < nv; ++i) { o << ' ' << num(v[i]); }
}

static long openFds() { long n = 0; DIR* d = opendir("/proc/self/fd"); if (d) { while (readdir(d)) { ++n; } closedir(d); } return n; }

static void sOp(const std::string& op, Reader& r, std::ostream& o) {
    if (op == "heap") {
#if defined(__SANITIZE_ADDRESS__)
        o << __sanitizer_get_current_allocated_bytes();
#else
        o << 0;
#endif
    } else if (op == "h5") { o << H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL);
    } else if (op == "fds") { o << openFds();
    } else if (op == "ids") {
        for (H5I_type_t t : {H5I_FILE, H5I_GROUP, H5I_DATATYPE, H5I_DATASPACE, H5I_DATASET, H5I_ATTR, H5I_GENPROP_LST, H5I_ERROR_STACK}) {
            hsize_t k = 0; H5Inmembers(t, &k); o << ' ' << k;
        }
    } else if (op == "arm") { fault_after = r.n(); fault_len = r.n(); fault_mode = r.n(); fault_fired = 0;
    } else if (op == "disarm") { o << fault_fired; fault_after = -1; fault_len = 0;
    } else if (op == "reads") { o << read_count; read_count = 0;
    } else if (op == "cat") { std::ifstream f(r.s()); std::stringstream s; s << f.rdbuf(); o << enc(s.str());
    } else if (op == "pass") { o << enc(r.s());
    } else { fprintf(stderr, "DRIVER: unknown operation %s\n", op.c_str()); _exit(97); }
}

int main(int argc, char* argv[]) {
    H5open();
    std::ifstream file;
    if (argc > 1) { file.open(argv[1]); if (!file.good()) { fprintf(stderr, "DRIVER: no script\n"); return 97; } }
    std::istream& in = (argc > 1) ? (std::istream&)file : std::cin;
    std::string line; long n = 0;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') { continue; }
        Reader r; { std::istringstream s(line); std::string t; while (s >> t) { r.t.push_back(t); } } r.i = 1;
        if (r.t.empty()) { continue; }
        printf("%ld ", n); fflush(stdout); // the event is open: a crash leaves it without a result
        std::ostringstream o; o << "OK ";
        try {
            const char k = r.t[0][0]; const std::string op = r.t[0].substr(2);
            switch (k) {
            case 'q': qOp(op, r, o); break;
            case 'c': cOp(op, r, o); break;
            case 'm': mOp(op, r, o); break;
            case 't': tOp(op, r, o); break;
            case 'i': iOp(op, r, o); break;
            case 'g': gOp(op, r, o); break;
            case 'e': {
                const std::string h = r.raw();
                if (op == "new") { E[h].reset(new ErrorHandler()); } else if (op == "del") { E.erase(h); } else { ehOp(op, E[h].get(), r, o); }
                break; }
            case 'h': hOp(op, r, o); break;
            case 's': sOp(op, r, o); break;
            default: fprintf(stderr, "DRIVER: unknown operation %s\n", r.t[0].c_str()); return 97;
            } // switch
        } catch (const std::exception& err) {
            int st = 0; (void)st;
            o.str(""); o << "EXC " << (dynamic_cast<const std::runtime_error*>(&err) ? "runtime" : dynamic_cast<const std::logic_error*>(&err) ? "logic" : "other") << ' ' << enc(err.what());
        } catch (...) { o.str(""); o << "EXC unknown '"; }
        printf("%s\n", o.str().c_str()); fflush(stdout);
        ++n;
    } // while
    for (auto& c : CH) { geomodelgrids_squery_destroy(&c.second); }
    CH.clear(); Q.clear(); M.clear(); T.clear(); G.clear(); E.clear(); H.clear();
    printf("END %ld\n", n); fflush(stdout);
    return 0;
}

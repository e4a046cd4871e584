// Runs z5py inside the simulator: CPython is embedded, the bindings are compiled (with scheduling
// instrumentation) into this executable, z5py's Python sources are taken from the repository.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "rt/internal.h"
#include <stdlib.h>
#include <string>
#ifdef WITH_S3
#include "s3/store.h"
#endif
using namespace sim;

extern "C" PyObject * PyInit__z5py();
namespace {
Ctx * cur = nullptr;
PyObject * workload = nullptr;
std::vector<vfs::Snap> snaps;
std::map<long, vfs::NodeP> roots;
std::vector<Arm *> arms; std::vector<NoFaults *> nofaults; std::vector<NoPreempt *> nopres;

std::string pathOf(PyObject * o) { Py_ssize_t n; const char * s = PyUnicode_AsUTF8AndSize(o, &n); return s ? std::string(s, size_t(n)) : std::string(); }
#define FN(name) PyObject * name(PyObject *, PyObject * a)
#define ARGS(...) if(!PyArg_ParseTuple(a, __VA_ARGS__)) return nullptr
FN(m_rand) { unsigned long long n; ARGS("K", &n); return PyLong_FromUnsignedLongLong(n ? cur->rng.below(n) : cur->rng.next()); }
FN(m_knob) { const char * s; long lo, v; ARGS("sll", &s, &lo, &v); return PyLong_FromLong(cur->knob(s, lo, v)); }
FN(m_kept) { int i; ARGS("i", &i); return PyBool_FromLong(cur->kept(i)); }
FN(m_say) { const char * s; ARGS("s", &s); cur->say(s); Py_RETURN_NONE; }
FN(m_scope) { unsigned i; ARGS("I", &i); scope(i); Py_RETURN_NONE; }
FN(m_note) { const char * s; Py_ssize_t n; ARGS("s#", &s, &n); noteStr(std::string(s, size_t(n))); Py_RETURN_NONE; }
FN(m_probe) { const char * s; ARGS("s", &s); probe(s); Py_RETURN_NONE; }
FN(m_fail) { const char * c, * s; ARGS("ss", &c, &s); fail(c, s); }
FN(m_oracle) { unsigned n; ARGS("I", &n); rec->oracleChecks += n; Py_RETURN_NONE; }
FN(m_faults) {                       // kinds (names, comma separated), share of runs
    const char * names; double p; ARGS("sd", &names, &p);
    std::string l = std::string(",") + names + ",";
    uint64_t kinds = 0; std::vector<uint32_t> v;
    for(uint32_t i = 1; i < F_COUNT; ++i) if(l.find(std::string(",") + faultNames[i] + ",") != std::string::npos) { kinds |= 1ULL << i; v.push_back(i); }
    Rng r(cur->rng.next());
    static const double rates[] = {0.002, 0.006, 0.02, 0.05, 0.15};
    bool on = r.chance(p) && !v.empty();
    faultPolicy.rate = rates[r.below(5)];
    faultPolicy.maxFaults = r.chance(0.4) ? 1 : r.range(2, 8);
    faultPolicy.minIo = r.chance(0.5) ? 0 : r.below(40);
    uint64_t m = 0;
    if(r.chance(0.4)) m = kinds; else for(auto k : v) if(r.chance(0.35)) m |= 1ULL << k;
    if(!m && !v.empty()) m = 1ULL << v[r.below(v.size())];
    faultPolicy.kinds = on ? m : 0;
    for(int i = 0; i < F_COUNT; ++i) if(faultPolicy.kinds >> i & 1) rec->configured[i] = 1;
    return PyBool_FromLong(on);
}
FN(m_arm) { int on; ARGS("p", &on); if(on) arms.push_back(new Arm); else if(arms.size()) { delete arms.back(); arms.pop_back(); } Py_RETURN_NONE; }
FN(m_armself) { int on; ARGS("p", &on); if(self) self->armed += on ? 1 : -1; Py_RETURN_NONE; }        // this thread only
FN(m_quiet) {                        // neither faults nor preemption
    int on; ARGS("p", &on);
    if(self) { self->nofault += on ? 1 : -1; self->nopre += on ? 1 : -1; }
    Py_RETURN_NONE;
}
FN(m_fired) { return PyLong_FromUnsignedLongLong(firedInScope()); }
FN(m_total) { return PyLong_FromUnsignedLongLong(faultsFired); }
FN(m_capture) {
    int on; ARGS("p", &on);
    RT rt;
    if(on) { vfs::snaps.clear(); vfs::captureCrash = true; }
    else { vfs::captureCrash = false; snaps.swap(vfs::snaps); vfs::snaps.clear(); }
    Py_RETURN_NONE;
}
FN(m_snaps) {                        // indices to look at (all of them, or a sample; one in a replay)
    unsigned max; ARGS("I", &max);
    std::vector<size_t> p;
    if(spec.replay) { for(size_t i = 0; i < snaps.size(); ++i) if(spec.crash.set && snaps[i].scope == spec.crash.scope && snaps[i].point == spec.crash.point && snaps[i].torn == spec.crash.torn) p.push_back(i); }
    else if(snaps.size() <= max) for(size_t i = 0; i < snaps.size(); ++i) p.push_back(i);
    else { Rng r(mix(spec.seed, currentScope() * 31ULL + 7)); std::map<size_t, int> t; while(t.size() < max) t[r.below(snaps.size())] = 1; for(auto & k : t) p.push_back(k.first); }
    PyObject * l = PyList_New(0);
    for(size_t i : p) { PyObject * o = PyLong_FromSize_t(i); PyList_Append(l, o); Py_DECREF(o); }
    return l;
}
FN(m_snapuse) {
    unsigned long i; ARGS("k", &i);
    RT rt;
    auto & s = snaps.at(i);
    vfs::root = vfs::clone(s.tree);
    rec->haveCrash = 1; rec->crashScope = s.scope; rec->crashPoint = s.point; rec->crashTorn = s.torn;
    ++rec->crashPoints; ++rec->faults[F_CRASH];
    return Py_BuildValue("KK", (unsigned long long) s.point, (unsigned long long) s.torn);
}
FN(m_snapsdone) { RT rt; rec->haveCrash = 0; snaps.clear(); Py_RETURN_NONE; }
FN(m_keep) { long k; ARGS("l", &k); RT rt; roots[k] = vfs::root; vfs::root = vfs::clone(vfs::root); Py_RETURN_NONE; }
FN(m_restore) { long k; ARGS("l", &k); RT rt; vfs::root = roots.at(k); roots.erase(k); Py_RETURN_NONE; }
#ifdef WITH_S3
// paths "/s3/..." name the objects below a prefix of the bucket; the bucket as a whole is "/s3"
bool bucketPath(const std::string & p, std::string & key) { if(p.compare(0, 3, "/s3") || (p.size() > 3 && p[3] != '/')) return false; key = p.size() > 3 ? p.substr(4) : ""; return true; }
template <class F> void keysBelow(const std::string & key, F f) {
    std::vector<std::string> k;
    for(auto & o : s3sim::objects()) if(key.empty() || o.first == key || o.first.compare(0, key.size() + 1, key + "/") == 0) k.push_back(o.first);
    for(auto & o : k) f(o);
}
FN(m_account) {
    const char *p, *e, *r, *k, *x; int anon; ARGS("sssiss", &p, &e, &r, &anon, &k, &x);
    std::string key; s3sim::Conn c; c.endpoint = e; c.region = r; c.anon = anon; c.access = k; c.secret = x;
    if(bucketPath(p, key)) s3sim::account(key.empty() ? "bkt" : "bkt/" + key, c);
    Py_RETURN_NONE;
}
FN(m_s3) { int page, unknown; ARGS("ip", &page, &unknown); s3sim::pageSize = page; s3sim::unknownLength = unknown; s3sim::poke("zz-theirs", "mine"); Py_RETURN_NONE; }
#else
bool bucketPath(const std::string &, std::string &) { return false; }
template <class F> void keysBelow(const std::string &, F) {}
namespace s3sim { std::map<std::string, vfs::NodeP> & objects() { static std::map<std::string, vfs::NodeP> m; return m; } void poke(const std::string &, const std::string &) {} }
FN(m_account) { PyErr_SetString(PyExc_RuntimeError, "built without S3"); return nullptr; }
FN(m_s3) { PyErr_SetString(PyExc_RuntimeError, "built without S3"); return nullptr; }
#endif
FN(m_digest) {
    PyObject * p; ARGS("U", &p);
    std::string s = pathOf(p), key;
    if(bucketPath(s, key)) {
        uint64_t h = 17;
        keysBelow(key, [&](const std::string & k) { uint64_t x = 1469598103934665603ull; for(unsigned char c : k + "=" + *s3sim::objects()[k]->data) x = (x ^ c) * 1099511628211ull; h = mix(h, x); });
        return PyLong_FromUnsignedLongLong(h);
    }
    return PyLong_FromUnsignedLongLong(vfs::digest(vfs::lookup(s)));
}
FN(m_exists) {
    PyObject * p; ARGS("U", &p);
    std::string s = pathOf(p), key;
    if(bucketPath(s, key)) { bool any = false; keysBelow(key, [&](const std::string &) { any = true; }); return PyBool_FromLong(any); }
    return PyBool_FromLong(vfs::lookup(s) != nullptr);
}
FN(m_list) {
    PyObject * p; ARGS("U", &p);
    std::vector<std::string> v; std::string s0 = pathOf(p), key;
    if(bucketPath(s0, key)) keysBelow(key, [&](const std::string & k) { v.push_back("/" + (key.empty() ? k : k.size() > key.size() ? k.substr(key.size() + 1) : std::string())); });
    else vfs::list(vfs::lookup(s0), "", v);
    PyObject * l = PyList_New(0);
    for(auto & s : v) { PyObject * o = PyUnicode_FromStringAndSize(s.data(), Py_ssize_t(s.size())); PyList_Append(l, o); Py_DECREF(o); }
    return l;
}
FN(m_rm) {                           // an administrator removes a path
    PyObject * p; ARGS("U", &p);
    std::string s = pathOf(p), key; size_t i = s.rfind('/');
    if(bucketPath(s, key)) { keysBelow(key, [&](const std::string & k) { s3sim::objects().erase(k); }); Py_RETURN_NONE; }
    RT rt;
    auto par = vfs::lookup(s.substr(0, i));
    if(par) par->kids.erase(s.substr(i + 1));
    Py_RETURN_NONE;
}
FN(m_mkfile) {                       // somebody else's file
    PyObject * p; const char * d; Py_ssize_t n; ARGS("Us#", &p, &d, &n);
    std::string s = pathOf(p), key; size_t i = s.rfind('/');
    if(bucketPath(s, key)) { s3sim::poke(key, std::string(d, size_t(n))); Py_RETURN_NONE; }
    RT rt;
    auto par = vfs::lookup(s.substr(0, i));
    if(par) { auto f = std::make_shared<vfs::Node>(); f->data = std::make_shared<std::string>(d, size_t(n)); f->ino = 999999; par->kids[s.substr(i + 1)] = f; }
    Py_RETURN_NONE;
}
FN(m_deny) { int on; ARGS("p", &on); vfs::denyWrites = on; Py_RETURN_NONE; }
FN(m_fds) { return PyLong_FromUnsignedLongLong(vfs::openFds()); }
FN(m_salt) { unsigned long long v; ARGS("K", &v); vfs::dirSalt = v; Py_RETURN_NONE; }
FN(m_stall) { unsigned long long n; ARGS("K", &n); stallBegin(n); Py_RETURN_NONE; }
FN(m_stalling) { return PyBool_FromLong(stalling()); }
FN(m_unstall) { stallEnd(); Py_RETURN_NONE; }
FN(m_replay) { return PyBool_FromLong(spec.replay); }
FN(m_threads) { return PyLong_FromLong(liveThreads()); }

PyMethodDef methods[] = {
#define M(n) {#n, m_##n, METH_VARARGS, ""},
    M(rand) M(knob) M(kept) M(say) M(scope) M(note) M(probe) M(fail) M(oracle) M(faults) M(arm) M(armself) M(quiet) M(fired) M(total) M(capture) M(snaps)
    M(snapuse) M(snapsdone) M(keep) M(restore) M(digest) M(exists) M(list) M(rm) M(mkfile) M(deny) M(fds) M(salt) M(replay) M(threads) M(stall) M(stalling) M(unstall) M(s3) M(account)
    {nullptr, nullptr, 0, nullptr}};
PyModuleDef def = {PyModuleDef_HEAD_INIT, "_sim", "", -1, methods};
PyObject * initSim() { return PyModule_Create(&def); }

void bad(PyStatus s, const char * what) { if(PyStatus_Exception(s)) { fprintf(stderr, "z5sim-py: %s: %s\n", what, s.err_msg ? s.err_msg : "?"); exit(2); } }
void prepare() {
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    PyImport_AppendInittab("_sim", initSim);
    PyImport_AppendInittab("z5py._z5py", PyInit__z5py);
    PyConfig c; PyConfig_InitPythonConfig(&c);
    c.use_hash_seed = 1; c.hash_seed = 0; c.install_signal_handlers = 0; c.write_bytecode = 0; c.use_environment = 0; c.user_site_directory = 0; c.site_import = 0; c.buffered_stdio = 0;
    const char * py = getenv("Z5SIM_PYTHON"); if(!py) py = "/opt/z5env/bin/python";
    bad(PyConfig_SetBytesString(&c, &c.program_name, py), "program name");
    bad(Py_InitializeFromConfig(&c), "cannot start Python");
    PyConfig_Clear(&c);
    const char * repo = getenv("Z5_REPO"); if(!repo) repo = "/repo";
    const char * dir = getenv("Z5SIM_PYDIR"); if(!dir) dir = Z5SIM_PYDIR;
    std::string code = std::string("import sys\n") +
        "sys.path[:0] = ['" + dir + "', '" + repo + "/src/python/module']\n"
        "sys.path.append('" + std::string(py).substr(0, std::string(py).rfind("/bin/")) + "/lib/python3.12/site-packages')\n"
        "import z5py, workload\n"
        "assert z5py.__file__.startswith('" + repo + "/'), z5py.__file__\n"
        "import gc; gc.collect(); gc.freeze(); gc.disable()\n";
    if(PyRun_SimpleString(code.c_str())) { fprintf(stderr, "z5sim-py: cannot load z5py\n"); exit(2); }
    workload = PyImport_ImportModule("workload");
}
void run(Ctx & ctx, const char * fn) {
    cur = &ctx;
    PyObject * r = PyObject_CallMethod(workload, fn, nullptr);
    if(!r) {
        PyObject * e = PyErr_GetRaisedException();
        PyObject * t = PyObject_CallMethod(workload, "explain", "O", e);
        std::string s = t ? pathOf(t) : "?";
        fail("unexpected-exception", s);
    }
}
struct Hook { Hook() { prepareHook = prepare; } } hook;
#ifdef WITH_S3
SIM_SCENARIO(py_s3_model, "py-s3-model") { run(ctx, "s3model"); }
SIM_SCENARIO(py_s3_names, "py-s3-names") { run(ctx, "s3names"); }
SIM_SCENARIO(py_s3_fault, "py-s3-fault") { run(ctx, "s3fault"); }
SIM_SCENARIO(py_s3_crash, "py-s3-crash") { run(ctx, "s3crash"); }
SIM_SCENARIO(py_s3_data, "py-s3-data") { run(ctx, "s3data"); }
SIM_SCENARIO(py_s3_attributes, "py-s3-attributes") { run(ctx, "s3attributes"); }
SIM_SCENARIO(py_s3_hierarchy, "py-s3-hierarchy") { run(ctx, "s3hierarchy"); }
SIM_SCENARIO(py_s3_modes, "py-s3-modes") { run(ctx, "s3modes"); }
SIM_SCENARIO(py_s3_threads, "py-s3-threads") { run(ctx, "s3threads"); }
#else
SIM_SCENARIO(py_model, "py-model") { run(ctx, "model"); }
SIM_SCENARIO(py_names, "py-names") { run(ctx, "names"); }
SIM_SCENARIO(py_fault, "py-fault") { run(ctx, "fault"); }
SIM_SCENARIO(py_crash, "py-crash") { run(ctx, "crash"); }
SIM_SCENARIO(py_data, "py-data") { run(ctx, "data"); }
SIM_SCENARIO(py_attributes, "py-attributes") { run(ctx, "attributes"); }
SIM_SCENARIO(py_hierarchy, "py-hierarchy") { run(ctx, "hierarchy"); }
SIM_SCENARIO(py_modes, "py-modes") { run(ctx, "modes"); }
SIM_SCENARIO(py_threads, "py-threads") { run(ctx, "threads"); }
#endif
}

#include "world.hpp"
#include <boost/json/src.hpp>
#include <fstream>
#include <csignal>
#include <locale>
#include <libxml/encoding.h>
#include <libxml/parser.h>
#include <unistd.h>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <powsybl/PowsyblException.hpp>
#include <powsybl/AssertionError.hpp>
#include <powsybl/stdcxx/demangle.hpp>
namespace drv {
static const double kInexact[] = {0.1, 1.0 / 3.0, 1e-7, 123456.7891, 0.3, 2.0e9, 1.7e-12, 98765.4321, 12.7, 1e20, 0.99};
static const int kN = sizeof(kInexact) / sizeof(double);
int64_t enc(double d) {
    if (std::isnan(d)) return NANV;
    if (d == std::numeric_limits<double>::max()) return 1000000001;
    if (d == std::numeric_limits<double>::lowest()) return -1000000001;
    if (std::isinf(d)) return d > 0 ? 1000000002 : -1000000002;
    double s = d * 8;
    if (s == std::floor(s) && std::fabs(s) < 9e8) return static_cast<int64_t>(s);
    for (int k = 0; k < kN; ++k) {
        if (kInexact[k] == d) return 2000000000 + k;
        if (-kInexact[k] == d) return -2000000000 - k;
    }
    return 1500000000 + static_cast<int64_t>(std::hash<double>()(d) % 100000000UL);
}
double dec(int64_t v) {
    if (v == NANV) return std::numeric_limits<double>::quiet_NaN();
    if (v == 1000000001) return std::numeric_limits<double>::max();
    if (v == -1000000001) return std::numeric_limits<double>::lowest();
    if (v >= 2000000000) return kInexact[v - 2000000000];
    if (v <= -2000000000) return -kInexact[-(v + 2000000000)];
    return static_cast<double>(v) / 8.0;
}
std::string S(const js::object& o, const char* k) { return std::string(o.at(k).as_string().c_str()); }
int64_t I(const js::object& o, const char* k) { return o.at(k).as_int64(); }
double D(const js::object& o, const char* k) { return dec(I(o, k)); }
bool B(const js::object& o, const char* k) { return o.at(k).as_bool(); }
}
using namespace drv;
static std::string g_current;
static void onCrash(int sig) {
    const char msg[] = "DRIVER-CRASH signal while executing: ";
    (void)!write(2, msg, sizeof(msg) - 1);
    (void)!write(2, g_current.c_str(), g_current.size());
    (void)!write(2, "\n", 1);
    _exit(100 + sig);
}

// executes one event and completes it with what was observed; false on a bad script
static bool process(World& w, js::object& ev) {
    std::string res = "ok";
    js::value ret = "";
    try {
        ret = execute(w, ev);
        if (ret.is_object() && ret.as_object().contains("failed")) res = "err";  // a refusal that comes with what was observed
    } catch (const SkipOp& e) {
        std::cerr << "BAD-SCRIPT " << e.what() << " in " << js::serialize(ev) << "\n";
        return false;
    } catch (const NilOp& e) {
        res = "nil";
        ev["msg"] = std::string(e.what());
    } catch (const std::exception& e) {
        res = "err";
        ev["msg"] = stdcxx::demangle(e) + ": " + brief(e.what());
    }
    ev["res"] = res;
    ev["ret"] = ret;
    js::object ob;
    if (const js::value* o = ev.if_contains("obs")) {
        try {
            ob = project(w, o->as_string().c_str());
        } catch (const std::exception& e) {
            ob = js::object();
            ob["projerr"] = std::string(e.what());
        }
    }
    ev["o"] = ob;
    return true;
}
// worker threads that execute the events handed to them one at a time
struct Worker {
    std::mutex m;
    std::condition_variable c;
    js::object* ev = nullptr;
    World* w = nullptr;
    bool stop = false, ok = true;
    std::thread t;
    Worker() : t([this] { loop(); }) {}
    ~Worker() { { std::lock_guard<std::mutex> l(m); stop = true; } c.notify_all(); t.join(); }
    void loop() {
        std::unique_lock<std::mutex> l(m);
        for (;;) {
            c.wait(l, [this] { return stop || ev != nullptr; });
            if (ev != nullptr) { ok = process(*w, *ev); ev = nullptr; c.notify_all(); continue; }
            if (stop) return;
        }
    }
    bool run(World& world, js::object& e) {
        std::unique_lock<std::mutex> l(m);
        w = &world;
        ev = &e;
        c.notify_all();
        c.wait(l, [this] { return ev == nullptr; });
        return ok;
    }
};
static int64_t threadOf(const js::object& ev) { const js::value* t = ev.if_contains("th"); return t ? t->as_int64() : 0; }
// events of the main thread (th 0) are executed in order; runs of events of other threads are executed concurrently
// (each thread in its own order) and written out thread by thread
int drv::threadsMain(std::istream& in, std::ostream& out) {
    World w;
    w.reset();
    std::vector<js::object> evs;
    std::string line;
    while (std::getline(in, line)) if (!line.empty()) evs.push_back(js::parse(line).as_object());
    size_t i = 0;
    bool ok = true;
    while (i < evs.size() && ok) {
        if (threadOf(evs[i]) == 0) {
            ok = process(w, evs[i]);
            out << js::serialize(evs[i++]) << "\n";
            out.flush();
            continue;
        }
        std::map<int64_t, std::vector<js::object*>> byThread;
        size_t j = i;
        for (; j < evs.size() && threadOf(evs[j]) != 0; ++j) byThread[threadOf(evs[j])].push_back(&evs[j]);
        std::vector<std::thread> ts;
        std::mutex m;
        std::condition_variable c;
        bool go = false;
        for (auto& p : byThread) {
            std::vector<js::object*>* mine = &p.second;
            ts.emplace_back([&, mine] {
                { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return go; }); }
                for (js::object* e : *mine) if (!process(w, *e)) _exit(3);
            });
        }
        { std::lock_guard<std::mutex> l(m); go = true; }
        c.notify_all();
        for (auto& t : ts) t.join();
        for (auto& p : byThread) for (js::object* e : p.second) out << js::serialize(*e) << "\n";
        i = j;
    }
    return ok ? 0 : 3;
}
int main(int argc, char** argv) {
    if (argc < 4) { std::cerr << "usage: driver net|graph|threads script out\n"; return 2; }
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) std::signal(s, onCrash);
    std::string mode = argv[1];
    std::ifstream fin;
    std::ofstream fout;
    const bool pipeIn = std::string(argv[2]) == "-", pipeOut = std::string(argv[3]) == "-";
    if (!pipeIn) fin.open(argv[2]);
    if (!pipeOut) fout.open(argv[3]);
    if (!fin || !fout) { std::cerr << "cannot open files\n"; return 2; }
    std::istream& in = pipeIn ? std::cin : fin;
    std::ostream& out = pipeOut ? std::cout : fout;
    if (mode == "graph") return graphMain(in, out);
    registerSerializers();
    // the standard library fills the cache of this facet lazily, without synchronisation: boost::format reads it in every thread
    const auto& facet = std::use_facet<std::ctype<char>>(std::locale());
    for (int c = 0; c < 256; ++c) { facet.narrow(static_cast<char>(c), 0); facet.widen(static_cast<char>(c)); }
    const char all[] = "all";
    char same[3];
    facet.narrow(all, all + 3, 0, same);
    facet.widen(all, all + 3, same);
    // libxml2 sets itself up and fills its table of encodings on first use, behind locks of its own
    xmlInitParser();
    for (const char* e : {"UTF-8", "ISO-8859-1", "UTF-16"}) xmlCharEncCloseFunc(xmlFindCharEncodingHandler(e));
    if (mode == "threads") return threadsMain(in, out);
    std::map<int64_t, std::unique_ptr<Worker>> workers;
    World w;
    w.reset();
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        js::value v = js::parse(line);
        js::object& ev = v.as_object();
        g_current = line;
        const int64_t th = threadOf(ev);
        if (th != 0 && !workers[th]) workers[th].reset(new Worker());
        if (!(th == 0 ? process(w, ev) : workers[th]->run(w, ev))) return 3;
        if (S(ev, "op") == "reset") workers.clear();
        out << js::serialize(ev) << "\n";
        out.flush();
    }
    workers.clear();
    // the network is deliberately destroyed here: a crash in a destructor is a crash of the library
    w.net.reset();
    w.foreign.reset();
    return 0;
}

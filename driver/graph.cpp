// The undirected graph driven directly.
#include "world.hpp"
#include <powsybl/math/UndirectedGraph.hpp>
#include <powsybl/math/TraverseResult.hpp>
namespace drv {
using G = powsybl::math::UndirectedGraph<long, long>;
namespace math = powsybl::math;
template <typename T> static int64_t obj(const stdcxx::Reference<T>& r) { return r ? static_cast<int64_t>(r.get()) : -1; }
int graphMain(std::istream& in, std::ostream& out) {
    std::vector<long> pool(10000);
    for (size_t i = 0; i < pool.size(); ++i) pool[i] = static_cast<long>(i);
    std::unique_ptr<G> g(new G());
    auto ref = [&](int64_t k) { return k < 0 ? stdcxx::Reference<long>() : stdcxx::ref(pool.at(static_cast<size_t>(k))); };
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        js::value v = js::parse(line);
        js::object& ev = v.as_object();
        const std::string op = S(ev, "op");
        auto a = [&](const char* k) { return static_cast<unsigned long>(I(ev, k)); };
        std::string res = "ok";
        js::value ret = "";
        try {
            if (op == "reset") g.reset(new G());
            else if (op == "addV") ret = static_cast<int64_t>(g->addVertex());
            else if (op == "addVi") g->addVertexIfNotPresent(a("v"));
            else if (op == "addE") ret = static_cast<int64_t>(g->addEdge(a("a"), a("b"), ref(I(ev, "x"))));
            else if (op == "rmE") ret = obj(g->removeEdge(a("e")));
            else if (op == "rmV") ret = obj(g->removeVertex(a("v")));
            else if (op == "setV") g->setVertexObject(a("v"), ref(I(ev, "x")));
            else if (op == "rmAllE") g->removeAllEdges();
            else if (op == "rmAllV") g->removeAllVertices();
            else if (op == "rmIso") g->removeIsolatedVertices();
            else if (op == "getE") { js::array r; r.push_back(static_cast<int64_t>(g->getVertex1(a("e")))); r.push_back(static_cast<int64_t>(g->getVertex2(a("e")))); r.push_back(obj(g->getEdgeObject(a("e")))); ret = r; }
            else if (op == "getV") ret = obj(g->getVertexObject(a("v")));
            else if (op == "trav") {
                std::set<int64_t> se, sv;
                for (const auto& k : ev.at("stopE").as_array()) se.insert(k.as_int64());
                for (const auto& k : ev.at("stopV").as_array()) sv.insert(k.as_int64());
                js::object es;
                std::vector<bool> enc(g->getVertexCapacity(), false);
                for (const auto& k : ev.at("met").as_array()) enc.at(static_cast<size_t>(k.as_int64())) = true;
                auto f = [&](unsigned long v1, unsigned long e, unsigned long v2) {
                    const std::string k = std::to_string(e);
                    es[es.contains(k) ? k + "+" : k] = std::to_string(v1) + ">" + std::to_string(v2);
                    return se.count(static_cast<int64_t>(e)) != 0 || sv.count(static_cast<int64_t>(v2)) != 0 ? math::TraverseResult::TERMINATE : math::TraverseResult::CONTINUE;
                };
                g->traverse(a("v"), f, enc);
                js::object r, vs;
                for (size_t i = 0; i < enc.size(); ++i) if (enc[i]) vs[std::to_string(i)] = 1;
                r["e"] = es;
                r["v"] = vs;
                ret = r;
            } else if (op == "paths") {
                std::set<int64_t> ce, tv;
                for (const auto& k : ev.at("noE").as_array()) ce.insert(k.as_int64());
                for (const auto& k : ev.at("to").as_array()) tv.insert(k.as_int64());
                auto done = [&](const stdcxx::Reference<long>& o) { return tv.count(obj(o)) != 0; };
                auto cancel = [&](const stdcxx::Reference<long>& o) { return ce.count(obj(o)) != 0; };
                js::array r;
                for (const auto& p : g->findAllPaths(a("v"), done, cancel)) {
                    js::array q;
                    for (unsigned long e : p) q.push_back(static_cast<int64_t>(e));
                    r.push_back(q);
                }
                ret = r;
            } else if (op == "between") {
                js::object r;
                for (const auto& x : static_cast<const G&>(*g).getEdgeObjects(a("a"), a("b"))) { const std::string k = std::to_string(obj(x)); r[k] = r.contains(k) ? r[k].as_int64() + 1 : 1; }
                ret = r;
            } else { std::cerr << "BAD-SCRIPT " << line << "\n"; return 3; }
        } catch (const std::exception& e) {
            res = "err";
            ev["msg"] = std::string(e.what()).substr(0, 120);
        }
        ev["res"] = res;
        ev["ret"] = ret;
        js::object o;
        js::object V, E;
        for (unsigned long x : g->getVertices()) V[std::to_string(x)] = obj(g->getVertexObject(x));
        for (unsigned long x : g->getEdges()) {
            js::object e;
            e["a"] = static_cast<int64_t>(g->getVertex1(x));
            e["b"] = static_cast<int64_t>(g->getVertex2(x));
            e["x"] = obj(g->getEdgeObject(x));
            E[std::to_string(x)] = e;
        }
        o["V"] = V;
        o["E"] = E;
        o["vc"] = static_cast<int64_t>(g->getVertexCount());
        o["ec"] = static_cast<int64_t>(g->getEdgeCount());
        // every vertex in use is below getMaxVertex, which is within the capacity
        bool bound = g->getMaxVertex() <= g->getVertexCapacity();
        for (unsigned long x : g->getVertices()) bound = bound && x < g->getMaxVertex() && g->vertexExists(x);
        o["bound"] = bound;
        js::object eo, vo;
        for (const auto& x : static_cast<const G&>(*g).getEdgeObjects()) { const std::string k = std::to_string(obj(x)); eo[k] = eo.contains(k) ? eo[k].as_int64() + 1 : 1; }
        for (const auto& x : static_cast<const G&>(*g).getVertexObjects()) { const std::string k = std::to_string(obj(x)); vo[k] = vo.contains(k) ? vo[k].as_int64() + 1 : 1; }
        o["eo"] = eo;
        o["vo"] = vo;
        ev["o"] = o;
        out << js::serialize(ev) << "\n";
        out.flush();
    }
    return 0;
}
}

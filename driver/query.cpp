// Read-only questions: lookups, traversals, limit checks, reactive limits, shunt models.
#include "world.hpp"
#include <algorithm>
#include <cmath>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/Branch.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/LimitType.hpp>
#include <powsybl/iidm/ReactiveLimits.hpp>
#include <powsybl/iidm/ReactiveLimitsHolder.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/VoltageLevelTopologyTraverser.hpp>
#include <powsybl/iidm/util/Networks.hpp>
#include <powsybl/iidm/Boundary.hpp>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/HalfLine.hpp>
#include <powsybl/iidm/TieLine.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/util/SV.hpp>
namespace drv {
using namespace powsybl::iidm;
ReactiveLimitsHolder* rlHolder(Identifiable& o);
struct Trav : public voltage_level::TopologyTraverser {
    World& w;
    std::set<std::string> stopT, stopS;
    bool closedOnly = true;
    js::object ts, ss;
    explicit Trav(World& x) : w(x) {}
    bool traverse(Terminal& t, bool connected) override {
        const std::string r = w.refOf(&t);
        ts[ts.contains(r) ? r + "+" : r] = connected;
        return stopT.count(r) == 0;
    }
    bool traverse(Switch& s) override {
        ss[s.getId()] = 1;
        return stopS.count(s.getId()) == 0 && (!closedOnly || !s.isOpen());
    }
};
static LimitType lty(const std::string& s) {
    return s == "CURRENT" ? LimitType::CURRENT : (s == "ACTIVE_POWER" ? LimitType::ACTIVE_POWER : (s == "APPARENT_POWER" ? LimitType::APPARENT_POWER : LimitType::VOLTAGE));
}
template <typename T> static T& must(World& w, const std::string& id) {
    auto r = w.n().find<Identifiable>(id);
    T* p = r ? dynamic_cast<T*>(&r.get()) : nullptr;
    if (p == nullptr) throw NilOp("no such object " + id);
    return *p;
}
// current in mA, capped
static int64_t mA(const Terminal& t) {
    const double i = t.getI();
    return std::isnan(i) ? -1000000000 : static_cast<int64_t>(std::llround(std::min(2.0e6, i) * 1000));
}
static js::object ovl(const std::unique_ptr<Branch::Overload>& o) {
    js::object x;
    if (!o) return x;
    x["nm"] = o->getTemporaryLimit().getName();
    x["v"] = enc(o->getTemporaryLimit().getValue());
    const unsigned long d = o->getTemporaryLimit().getAcceptableDuration();
    x["d"] = d > 1000000000UL ? -1 : static_cast<int64_t>(d);
    x["pn"] = o->getPreviousLimitName();
    x["pv"] = enc(o->getPreviousLimit());
    return x;
}
static const double kRad = std::acos(-1.0) / 180;
// real numbers of electrical states: in 1024ths, rounded
static int64_t enc1024(double d) {
    if (std::isnan(d)) return NANV;
    return static_cast<int64_t>(std::llround(std::max(-1.9e9, std::min(1.9e9, d * 1024))));
}
// a state in rectangular coordinates
static js::array rect(double u, double a, double p, double q) {
    const double t = a * kRad;
    js::array r;
    for (double x : {u * std::cos(t), u * std::sin(t), p, q}) r.push_back(enc1024(x));
    return r;
}
static js::array rect(const SV& s) { return rect(s.getU(), s.getA(), s.getP(), s.getQ()); }
static js::value sides(World& w, const js::object& ev) {
    js::object r;
    const std::string how = S(ev, "how");
    const auto& vv = ev.at("v").as_array();
    const auto& ii = ev.at("i").as_array();
    const std::complex<double> v(static_cast<double>(vv[0].as_int64()), static_cast<double>(vv[1].as_int64()));
    const std::complex<double> s = v * std::conj(std::complex<double>(static_cast<double>(ii[0].as_int64()), static_cast<double>(ii[1].as_int64())));
    const Branch::Side side = I(ev, "side") == 1 ? Branch::Side::ONE : Branch::Side::TWO;
    const SV near(s.real(), s.imag(), std::abs(v), std::arg(v) / kRad, side);
    std::function<SV(const SV&)> whole, parts;
    const auto opp = [](const Branch::Side& x) { return x == Branch::Side::ONE ? Branch::Side::TWO : Branch::Side::ONE; };
    if (how == "line") {
        const Line& l = must<Line>(w, S(ev, "id"));
        whole = [&l](const SV& x) { return x.otherSide(l); };
    } else if (how == "t2" || how == "t2s") {
        const auto& t = must<TwoWindingsTransformer>(w, S(ev, "id"));
        if (how == "t2s") whole = [&t](const SV& x) { return x.otherSide(t, true); };
        else if (B(ev, "plain")) whole = [&t](const SV& x) { return x.otherSide(t); };
        else whole = [&t](const SV& x) { return x.otherSide(t, false); };
    } else if (how == "dl" || how == "dls") {
        const auto& d = must<DanglingLine>(w, S(ev, "id"));
        const bool split = how == "dls";
        if (!split && B(ev, "plain")) {
            whole = [&d](const SV& x) { return x.otherSide(d); };
            parts = [&d, opp](const SV& x) { return SV(x.otherSideP(d), x.otherSideQ(d), x.otherSideU(d), x.otherSideA(d), opp(x.getSide())); };
        } else {
            whole = [&d, split](const SV& x) { return x.otherSide(d, split); };
            parts = [&d, split, opp](const SV& x) { return SV(x.otherSideP(d, split), x.otherSideQ(d, split), x.otherSideU(d, split), x.otherSideA(d, split), opp(x.getSide())); };
        }
    } else if (how == "half1" || how == "half2") {
        const auto& t = must<TieLine>(w, S(ev, "id"));
        const auto& h = how == "half1" ? t.getHalf1() : t.getHalf2();
        parts = [&h, opp](const SV& x) { return SV(x.otherSideP(h), x.otherSideQ(h), x.otherSideU(h), x.otherSideA(h), opp(x.getSide())); };
    } else {
        const double R = D(ev, "r"), X = D(ev, "x"), g1 = D(ev, "g1"), b1 = D(ev, "b1"), g2 = D(ev, "g2"), b2 = D(ev, "b2"), rho = D(ev, "rho");
        const double al = static_cast<double>(I(ev, "al")) * std::acos(-1.0) / 2;
        whole = [=](const SV& x) { return x.otherSide(R, X, g1, b1, g2, b2, rho, al); };
        parts = [=](const SV& x) {
            return SV(x.otherSideP(R, X, g1, b1, g2, b2, rho, al), x.otherSideQ(R, X, g1, b1, g2, b2, rho, al),
                      x.otherSideU(R, X, g1, b1, g2, b2, rho, al), x.otherSideA(R, X, g1, b1, g2, b2, rho, al), opp(x.getSide()));
        };
    }
    js::array far, back;
    int64_t fs = 0, bs = 0;
    if (whole) {
        const SV f = whole(near), b = whole(f);
        far.push_back(rect(f));
        back.push_back(rect(b));
        fs = f.getSide() == Branch::Side::ONE ? 1 : 2;
        bs = b.getSide() == Branch::Side::ONE ? 1 : 2;
    }
    if (parts) {
        const SV f = parts(near);
        far.push_back(rect(f));
        back.push_back(rect(parts(f)));
    }
    r["far"] = far;
    r["back"] = back;
    r["fs"] = fs;
    r["bs"] = bs;
    return r;
}
static js::value boundary(World& w, const js::object& ev) {
    js::object r;
    const int64_t half = I(ev, "half");
    Identifiable& o = must<Identifiable>(w, S(ev, "id"));
    const Boundary* b = nullptr;
    if (auto* d = dynamic_cast<DanglingLine*>(&o)) {
        if (half == 0) b = &d->getBoundary();
        if (half == 0 && b != &const_cast<const DanglingLine*>(d)->getBoundary()) r["bad"] = 1;
    } else if (auto* t = dynamic_cast<TieLine*>(&o)) {
        if (half == 1) b = &t->getHalf1().getBoundary();
        if (half == 2) b = &t->getHalf2().getBoundary();
    }
    if (b == nullptr) throw NilOp("no boundary");
    r["x"] = rect(b->getV(), b->getAngle(), b->getP(), b->getQ());
    r["c"] = b->getConnectable().getId();
    r["sd"] = b->getSide() ? (*b->getSide() == Branch::Side::ONE ? 1 : 2) : 0;
    r["vl"] = b->getVoltageLevel().getId();
    return r;
}
js::value executeQuery(World& w, const js::object& ev, bool& handled) {
    const std::string op = S(ev, "op");
    handled = op.compare(0, 2, "q.") == 0;
    if (!handled) return "";
    Network& n = w.n();
    js::object r;
    if (op == "q.find") {
        for (const auto& v : ev.at("ids").as_array()) {
            const std::string id = v.as_string().c_str();
            auto f = n.find<Identifiable>(id);
            std::string k;
            if (f) k = f.get().getId();
            if (f) {  // typed lookup agrees with the untyped one
                bool ok = true;
                try { ok = &n.get<Identifiable>(id) == &f.get(); } catch (const std::exception&) { ok = false; }
                if (!ok) k = "BROKEN";
            } else {
                bool thrown = false;
                try { n.get<Identifiable>(id); } catch (const std::exception&) { thrown = true; }
                if (!thrown) k = "BROKEN";
            }
            r[id] = k;
        }
        return r;
    }
    if (op == "q.trav") {
        Trav t(w);
        for (const auto& v : ev.at("stopT").as_array()) t.stopT.insert(v.as_string().c_str());
        for (const auto& v : ev.at("stopS").as_array()) t.stopS.insert(v.as_string().c_str());
        t.closedOnly = B(ev, "closed");
        w.term(S(ev, "t")).traverse(t);
        r["t"] = t.ts;
        r["s"] = t.ss;
        return r;
    }
    if (op == "q.ntrav") {
        VoltageLevel& vl = must<VoltageLevel>(w, S(ev, "vl"));
        js::object ns, es;
        const bool closed = B(ev, "closed");
        std::set<int64_t> stop;
        for (const auto& v : ev.at("stopN").as_array()) stop.insert(v.as_int64());
        VoltageLevel::NodeBreakerView::Traverser tr = [&](unsigned long n1, const stdcxx::Reference<Switch>& sw, unsigned long n2) {
            es[std::to_string(n1) + ">" + (sw ? sw.get().getId() : std::string()) + ">" + std::to_string(n2)] = 1;
            (void)ns;
            if (stop.count(static_cast<int64_t>(n2)) != 0) return false;
            return !closed || !sw || !sw.get().isOpen();
        };
        vl.getNodeBreakerView().traverse(static_cast<unsigned long>(I(ev, "node")), tr);
        r["e"] = es;
        return r;
    }
    if (op == "q.eqt") {
        auto t = Networks::getEquivalentTerminal(must<VoltageLevel>(w, S(ev, "vl")), static_cast<unsigned long>(I(ev, "node")));
        return js::value(t ? w.refOf(&t.get()) : std::string());
    }
    if (op == "q.nodes") {
        for (const auto& p : Networks::getNodesByBus(must<VoltageLevel>(w, S(ev, "vl")))) {
            js::object s;
            for (unsigned long k : p.second) s[std::to_string(k)] = 1;
            r[p.first] = s;
        }
        return r;
    }
    if (op == "q.lim") {
        auto& b = must<Branch>(w, S(ev, "id"));
        const LimitType ty = lty(S(ev, "lty"));
        const double red = D(ev, "red");
        r["i"] = mA(I(ev, "side") == 1 ? b.getTerminal1() : b.getTerminal2());
        if (I(ev, "side") == 1) {
            r["p"] = b.checkPermanentLimit1(red, ty);
            r["p2"] = b.checkPermanentLimit(Branch::Side::ONE, red, ty);
            r["t"] = ovl(b.checkTemporaryLimits1(red, ty));
            r["t2"] = ovl(b.checkTemporaryLimits(Branch::Side::ONE, red, ty));
        } else {
            r["p"] = b.checkPermanentLimit2(red, ty);
            r["p2"] = b.checkPermanentLimit(Branch::Side::TWO, red, ty);
            r["t"] = ovl(b.checkTemporaryLimits2(red, ty));
            r["t2"] = ovl(b.checkTemporaryLimits(Branch::Side::TWO, red, ty));
        }
        if (red == 1) {
            // without a reduction: as with a reduction by one
            const bool one = I(ev, "side") == 1;
            const Branch::Side s = one ? Branch::Side::ONE : Branch::Side::TWO;
            const bool p = (one ? b.checkPermanentLimit1(ty) : b.checkPermanentLimit2(ty));
            if (p != r["p"].as_bool() || b.checkPermanentLimit(s, ty) != p) r["p2"] = !r["p"].as_bool();
            const js::value t = ovl(one ? b.checkTemporaryLimits1(ty) : b.checkTemporaryLimits2(ty));
            if (!(t == r["t"]) || !(js::value(ovl(b.checkTemporaryLimits(s, ty))) == t)) r["t2"] = js::object{{"nm", "UNREDUCED"}};
        }
        return r;
    }
    if (op == "q.ovl") {
        auto& b = must<Branch>(w, S(ev, "id"));
        r["i1"] = mA(b.getTerminal1());
        r["i2"] = mA(b.getTerminal2());
        r["o"] = b.isOverloaded(D(ev, "red"));
        if (D(ev, "red") == 1 && b.isOverloaded() != r["o"].as_bool()) r["o"] = !r["o"].as_bool();
        const unsigned long d = b.getOverloadDuration();
        r["d"] = d > 1000000000UL ? -1 : static_cast<int64_t>(d);
        return r;
    }
    if (op == "q.i") return js::value(mA(w.term(S(ev, "t"))));
    if (op == "q.rl") {
        auto& o = must<Identifiable>(w, S(ev, "id"));
        auto* h = rlHolder(o);
        if (h == nullptr) throw NilOp("no reactive limits");
        const auto& l = h->getReactiveLimits<ReactiveLimits>();
        // between points the last digit is a matter of the formula; whether there is any such difference is told as well
        bool exact = true;
        const auto snap = [&exact](double x) {
            const double y = std::round(x * 8) / 8;
            if (x == y || !(std::fabs(x - y) <= 1e-12 * std::max(1.0, std::fabs(x)))) return enc(x);
            exact = false;
            return enc(y);
        };
        const auto low = [](double x) { return std::fabs(x) < 1e8 ? static_cast<int64_t>(std::floor(x * 8 + 1e-6)) : int64_t(1000000000); };
        r["min"] = snap(l.getMinQ(D(ev, "p")));
        r["max"] = snap(l.getMaxQ(D(ev, "p")));
        r["fmin"] = low(l.getMinQ(D(ev, "p")));
        r["fmax"] = low(l.getMaxQ(D(ev, "p")));
        r["x"] = exact;
        return r;
    }
    if (op == "q.sv") return sides(w, ev);
    if (op == "q.bnd") return boundary(w, ev);
    if (op == "q.shu") {
        auto& s = must<ShuntCompensator>(w, S(ev, "id"));
        r["b"] = enc(s.getB(static_cast<unsigned long>(I(ev, "n"))));
        r["g"] = enc(s.getG(static_cast<unsigned long>(I(ev, "n"))));
        return r;
    }
    throw SkipOp("unknown query " + op);
}
}

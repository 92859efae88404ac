// Projection of the real network onto the abstract state of the specification, through the public API only.
#include "world.hpp"
#include <algorithm>
#include <memory>
#include <powsybl/iidm/ActivePowerLimits.hpp>
#include <powsybl/iidm/ShuntCompensatorLinearModel.hpp>
#include <powsybl/iidm/ShuntCompensatorNonLinearModel.hpp>
#include <powsybl/iidm/ApparentPowerLimits.hpp>
#include <powsybl/iidm/CurrentLimits.hpp>
#include <powsybl/PowsyblException.hpp>
#include <powsybl/iidm/AbstractTerminalTopologyVisitor.hpp>
#include <powsybl/iidm/util/ConnectedComponents.hpp>
#include <powsybl/iidm/util/TerminalFinder.hpp>
#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/Component.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/IdBasedBusRef.hpp>
#include <powsybl/iidm/LccConverterStation.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/MinMaxReactiveLimits.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurve.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/TieLine.hpp>
#include <powsybl/iidm/TopologyVisitor.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/VoltageLevelViews.hpp>
#include <powsybl/iidm/TerminalViews.hpp>
#include <powsybl/iidm/NetworkViews.hpp>
#include <powsybl/iidm/VscConverterStation.hpp>

namespace drv {
using namespace powsybl::iidm;
RatioTapChangerHolder* rtcHolder(Identifiable& o, int leg);
PhaseTapChangerHolder* ptcHolder(Identifiable& o, int leg);
ReactiveLimitsHolder* rlHolder(Identifiable& o);

using TermMap = std::map<const void*, std::string>;
static TermMap termMap(World& w) {
    TermMap m;
    for (Identifiable& o : w.n().getIdentifiables()) {
        if (auto* c = dynamic_cast<Connectable*>(&o)) {
            int i = 0;
            for (Terminal& t : c->getTerminals()) m[&t] = c->getId() + "/" + std::to_string(i++);
        }
    }
    if (w.foreign) m[&w.foreign->get<Load>("F").getTerminal()] = "@";
    return m;
}
static std::string ref(const TermMap& m, const void* p) {
    if (p == nullptr) return "";
    auto it = m.find(p);
    return it == m.end() ? "?" : it->second;
}
std::string World::refOf(const void* p) { return ref(termMap(*this), p); }

template <typename L> std::string limitsAccess(L& l, LimitType type);
template <typename L> js::object limitsObj(L& l, LimitType type) {
    js::object o;
    o["k"] = "LIM";
    const std::string acc = limitsAccess(l, type);
    if (!acc.empty()) o["ACC"] = acc;
    o["perm"] = enc(l.getPermanentLimit());
    js::array a;
    for (const auto& t : l.getTemporaryLimits()) {
        js::object x;
        x["nm"] = t.getName();
        x["v"] = enc(t.getValue());
        x["d"] = t.getAcceptableDuration() > 1000000000UL ? -1 : static_cast<int64_t>(t.getAcceptableDuration());
        x["fic"] = t.isFictitious();
        a.push_back(x);
    }
    o["temps"] = a;
    return o;
}
template <typename H> void holderLimits(js::object& st, const std::string& base, H& h) {
    if (h.getCurrentLimits()) st[base + "CURRENT"] = limitsObj(h.getCurrentLimits().get(), LimitType::CURRENT);
    if (h.getActivePowerLimits()) st[base + "ACTIVE_POWER"] = limitsObj(h.getActivePowerLimits().get(), LimitType::ACTIVE_POWER);
    if (h.getApparentPowerLimits()) st[base + "APPARENT_POWER"] = limitsObj(h.getApparentPowerLimits().get(), LimitType::APPARENT_POWER);
}

static js::object rlObj(const ReactiveLimitsHolder& h) {
    js::object o;
    o["k"] = "RL";
    const ReactiveLimits& r = h.getReactiveLimits<ReactiveLimits>();
    o["rlk"] = r.getKind() == ReactiveLimitsKind::MIN_MAX ? "MIN_MAX" : "CURVE";
    if (r.getKind() == ReactiveLimitsKind::MIN_MAX) {
        const auto& m = h.getReactiveLimits<MinMaxReactiveLimits>();
        o["minQ"] = enc(m.getMinQ());
        o["maxQ"] = enc(m.getMaxQ());
    } else {
        js::array a;
        const auto& c = h.getReactiveLimits<ReactiveCapabilityCurve>();
        for (const auto& p : c.getPoints()) {
            js::object x;
            x["p"] = enc(p.getP());
            x["minQ"] = enc(p.getMinQ());
            x["maxQ"] = enc(p.getMaxQ());
            a.push_back(x);
        }
        o["pts"] = a;
        o["n"] = static_cast<int64_t>(c.getPointCount());
        o["minP"] = enc(c.getMinP());
        o["maxP"] = enc(c.getMaxP());
    }
    return o;
}

template <typename S> js::object stepObj(const S& s) {
    js::object x;
    x["rho"] = enc(s.getRho());
    x["r"] = enc(s.getR());
    x["x"] = enc(s.getX());
    x["g"] = enc(s.getG());
    x["b"] = enc(s.getB());
    return x;
}
static js::object stepOf(const RatioTapChangerStep& s) { return stepObj(s); }
static js::object stepOf(const PhaseTapChangerStep& s) { js::object x = stepObj(s); x["alpha"] = enc(s.getAlpha()); return x; }

template <typename T> void tapCommon(const T& t, const TermMap& tm, js::object* st, js::object* dy) {
    if (st != nullptr) {
        (*st)["low"] = t.getLowTapPosition();
        (*st)["high"] = t.getHighTapPosition();
        (*st)["cnt"] = static_cast<int64_t>(t.getStepCount());
        js::array a;
        for (const auto& p : t.getAllSteps()) a.push_back(stepOf(p.second.get()));
        (*st)["steps"] = a;
        auto rt = t.getRegulationTerminal();
        (*st)["rt"] = rt ? ref(tm, &rt.get()) : std::string();
    }
    if (dy != nullptr) {
        (*dy)["pos"] = t.getTapPosition();
        (*dy)["reg"] = t.isRegulating();
        (*dy)["db"] = enc(t.getTargetDeadband());
        js::object cs;
        try { cs = stepOf(t.getCurrentStep()); } catch (const std::exception&) { cs["none"] = true; }
        (*dy)["cs"] = cs;
    }
}

static void tapChangers(Identifiable& o, int leg, const TermMap& tm, js::object* st, js::object* dy) {
    const std::string suffix = leg == 0 ? "" : std::to_string(leg);
    auto* rh = rtcHolder(o, leg);
    if (rh != nullptr && rh->hasRatioTapChanger()) {
        const auto& t = static_cast<const RatioTapChangerHolder*>(rh)->getRatioTapChanger();
        const std::string id = o.getId() + "#rtc" + suffix;
        js::object s, d;
        tapCommon(t, tm, st ? &s : nullptr, dy ? &d : nullptr);
        const std::string acc = partAccess(o, leg, true);
        if (st && !acc.empty()) s["ACC"] = acc;
        if (st) { s["k"] = "RTC"; s["lt"] = t.hasLoadTapChangingCapabilities(); (*st)[id] = s; }
        if (dy) { d["tv"] = enc(t.getTargetV()); (*dy)[id] = d; }
    }
    auto* ph = ptcHolder(o, leg);
    if (ph != nullptr && ph->hasPhaseTapChanger()) {
        const auto& t = static_cast<const PhaseTapChangerHolder*>(ph)->getPhaseTapChanger();
        const std::string id = o.getId() + "#ptc" + suffix;
        js::object s, d;
        tapCommon(t, tm, st ? &s : nullptr, dy ? &d : nullptr);
        const std::string acc = partAccess(o, leg, false);
        if (st && !acc.empty()) s["ACC"] = acc;
        if (st) { s["k"] = "PTC"; s["mode"] = enumName(t.getRegulationMode()); (*st)[id] = s; }
        if (dy) { d["rv"] = enc(t.getRegulationValue()); (*dy)[id] = d; }
    }
}

static void fill(World& w, Identifiable& o, const TermMap& tm, js::object* st, js::object* dy) {
    js::object s, d;
    const std::string id = o.getId();
    s["nm"] = o.getOptionalName();
    s["fic"] = o.isFictitious();
    auto put = [&](const char* k) { s["k"] = k; };
    if (auto* c = dynamic_cast<Network*>(&o)) {
        put("NET");
        s["fmt"] = c->getSourceFormat();
        s["fd"] = static_cast<int64_t>(c->getForecastDistance());
        const stdcxx::DateTime& dt = c->getCaseDate();
        s["date"] = dt.toString();
        if (!(stdcxx::DateTime::parse(dt.toString()) == dt) || stdcxx::DateTime::parse(dt.toString()) != dt) s["date"] = "DIFFERS";
    } else if (auto* c = dynamic_cast<Substation*>(&o)) {
        put("SUB");
        auto co = c->getCountry();
        s["country"] = co ? enumName(*co) : std::string();
        s["tso"] = c->getTso();
        js::object tags;
        for (const auto& t : c->getGeographicalTags()) tags[t] = 1;
        s["tags"] = tags;
    } else if (auto* c = dynamic_cast<VoltageLevel*>(&o)) {
        put("VL");
        s["own"] = c->getSubstation().getId();
        s["topo"] = enumName(c->getTopologyKind());
        s["nv"] = enc(c->getNominalV());
        s["lo"] = enc(c->getLowVoltageLimit());
        s["hi"] = enc(c->getHighVoltageLimit());
        js::object ics;
        if (c->getTopologyKind() == TopologyKind::NODE_BREAKER) {
            auto& v = c->getNodeBreakerView();
            int64_t n = 0;
            for (const auto& ic : v.getInternalConnections()) {
                const std::string key = std::to_string(ic.getNode1()) + "-" + std::to_string(ic.getNode2());
                int64_t prev = ics.contains(key) ? ics[key].as_int64() : 0;
                ics[key] = prev + 1;
                ++n;
            }
            s["icn"] = static_cast<int64_t>(v.getInternalConnectionCount());
        } else {
            s["icn"] = 0;
        }
        s["ics"] = ics;
    } else if (auto* c = dynamic_cast<Bus*>(&o)) {
        put("BUS");
        s["own"] = c->getVoltageLevel().getId();
        if (dy) { d["v"] = enc(c->getV()); d["ang"] = enc(c->getAngle()); }
    } else if (auto* c = dynamic_cast<Switch*>(&o)) {
        put("SW");
        VoltageLevel& vl = c->getVoltageLevel();
        s["own"] = vl.getId();
        s["swk"] = enumName(c->getKind());
        if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            s["n1"] = static_cast<int64_t>(vl.getNodeBreakerView().getNode1(id));
            s["n2"] = static_cast<int64_t>(vl.getNodeBreakerView().getNode2(id));
            s["b1"] = ""; s["b2"] = "";
        } else {
            s["n1"] = -1; s["n2"] = -1;
            s["b1"] = vl.getBusBreakerView().getBus1(id).get().getId();
            s["b2"] = vl.getBusBreakerView().getBus2(id).get().getId();
        }
        if (dy) { d["open"] = c->isOpen(); d["ret"] = c->isRetained(); }
    } else if (auto* c = dynamic_cast<HvdcLine*>(&o)) {
        put("HVDC");
        s["r"] = enc(c->getR()); s["nv"] = enc(c->getNominalV()); s["maxP"] = enc(c->getMaxP());
        s["c1"] = c->getConverterStation1() ? c->getConverterStation1().get().getId() : std::string();
        s["c2"] = c->getConverterStation2() ? c->getConverterStation2().get().getId() : std::string();
        if (dy) { d["mode"] = enumName(c->getConvertersMode()); d["p"] = enc(c->getActivePowerSetpoint()); }
    } else if (auto* c = dynamic_cast<Connectable*>(&o)) {
        if (auto* x = dynamic_cast<BusbarSection*>(c)) { put("BBS"); (void)x; }
        else if (auto* x = dynamic_cast<Load*>(c)) {
            put("LOAD"); s["lt"] = enumName(x->getLoadType());
            if (dy) { d["p0"] = enc(x->getP0()); d["q0"] = enc(x->getQ0()); }
        } else if (auto* x = dynamic_cast<Generator*>(c)) {
            put("GEN"); s["es"] = enumName(x->getEnergySource()); s["minP"] = enc(x->getMinP()); s["maxP"] = enc(x->getMaxP()); s["rs"] = enc(x->getRatedS());
            s["rt"] = ref(tm, &x->getRegulatingTerminal());
            if (dy) { d["on"] = x->isVoltageRegulatorOn(); d["tp"] = enc(x->getTargetP()); d["tq"] = enc(x->getTargetQ()); d["tv"] = enc(x->getTargetV()); }
        } else if (auto* x = dynamic_cast<Battery*>(c)) {
            put("BAT"); s["minP"] = enc(x->getMinP()); s["maxP"] = enc(x->getMaxP());
            if (dy) { d["p0"] = enc(x->getP0()); d["q0"] = enc(x->getQ0()); }
        } else if (auto* x = dynamic_cast<ShuntCompensator*>(c)) {
            put("SHU"); s["rt"] = ref(tm, &x->getRegulatingTerminal());
            js::object m;
            m["max"] = static_cast<int64_t>(x->getMaximumSectionCount());
            if (x->getModelType() == ShuntCompensatorModelType::LINEAR) {
                const auto& lm = x->getModel<ShuntCompensatorLinearModel>();
                m["t"] = "LINEAR"; m["bps"] = enc(lm.getBPerSection()); m["gps"] = enc(lm.getGPerSection());
            } else {
                m["t"] = "NON_LINEAR";
                js::array a;
                for (const auto& sec : static_cast<const ShuntCompensatorNonLinearModel&>(x->getModel<ShuntCompensatorNonLinearModel>()).getAllSections()) {
                    js::object q; q["b"] = enc(sec.getB()); q["g"] = enc(sec.getG());
                    a.push_back(q);
                }
                m["secs"] = a;
            }
            s["model"] = m;
            if (dy) { d["n"] = static_cast<int64_t>(x->getSectionCount()); d["on"] = x->isVoltageRegulatorOn(); d["tv"] = enc(x->getTargetV()); d["db"] = enc(x->getTargetDeadband()); }
        } else if (auto* x = dynamic_cast<StaticVarCompensator*>(c)) {
            put("SVC"); s["bmin"] = enc(x->getBmin()); s["bmax"] = enc(x->getBmax()); s["rt"] = ref(tm, &x->getRegulatingTerminal());
            if (dy) { d["vs"] = enc(x->getVoltageSetpoint()); d["qs"] = enc(x->getReactivePowerSetpoint()); d["mode"] = enumName(x->getRegulationMode()); }
        } else if (auto* x = dynamic_cast<DanglingLine*>(c)) {
            put("DL"); s["r"] = enc(x->getR()); s["x"] = enc(x->getX()); s["g"] = enc(x->getG()); s["b"] = enc(x->getB()); s["ucte"] = x->getUcteXnodeCode();
            if (dy) { d["p0"] = enc(x->getP0()); d["q0"] = enc(x->getQ0()); }
            auto g = x->getGeneration();
            if (g) {
                js::object gs, gd;
                gs["k"] = "DLGEN"; gs["minP"] = enc(g.get().getMinP()); gs["maxP"] = enc(g.get().getMaxP());
                if (st) (*st)[id + "#gen"] = gs;
                if (dy) { gd["tp"] = enc(g.get().getTargetP()); gd["tq"] = enc(g.get().getTargetQ()); gd["tv"] = enc(g.get().getTargetV()); gd["on"] = g.get().isVoltageRegulationOn(); (*dy)[id + "#gen"] = gd; }
            }
            if (st) holderLimits(*st, id + "#lim0", *x);
        } else if (auto* x = dynamic_cast<LccConverterStation*>(c)) {
            put("LCC"); s["loss"] = enc(x->getLossFactor()); s["pf"] = enc(x->getPowerFactor());
            s["hl"] = x->getHvdcLine() ? x->getHvdcLine().get().getId() : std::string();
        } else if (auto* x = dynamic_cast<VscConverterStation*>(c)) {
            put("VSC"); s["loss"] = enc(x->getLossFactor());
            s["hl"] = x->getHvdcLine() ? x->getHvdcLine().get().getId() : std::string();
            if (dy) { d["on"] = x->isVoltageRegulatorOn(); d["tv"] = enc(x->getVoltageSetpoint()); d["tq"] = enc(x->getReactivePowerSetpoint()); }
        } else if (auto* x = dynamic_cast<Line*>(c)) {
            s["r"] = enc(x->getR()); s["x"] = enc(x->getX()); s["g1"] = enc(x->getG1()); s["b1"] = enc(x->getB1()); s["g2"] = enc(x->getG2()); s["b2"] = enc(x->getB2());
            if (auto* tl = dynamic_cast<TieLine*>(x)) {
                put("TIE"); s["ucte"] = tl->getUcteXnodeCode();
                int i = 0;
                for (auto* h : {&tl->getHalf1(), &tl->getHalf2()}) {
                    ++i;
                    js::object q;
                    q["k"] = "HALF"; q["hid"] = h->getId(); q["nm"] = h->getName(); q["fic"] = h->isFictitious();
                    q["r"] = enc(h->getR()); q["x"] = enc(h->getX()); q["g1"] = enc(h->getG1()); q["b1"] = enc(h->getB1()); q["g2"] = enc(h->getG2()); q["b2"] = enc(h->getB2());
                    if (st) (*st)[id + "#half" + std::to_string(i)] = q;
                }
            } else put("LINE");
        } else if (auto* x = dynamic_cast<TwoWindingsTransformer*>(c)) {
            put("T2"); s["own"] = x->getSubstation() ? x->getSubstation().get().getId() : std::string();
            s["r"] = enc(x->getR()); s["x"] = enc(x->getX()); s["g"] = enc(x->getG()); s["b"] = enc(x->getB());
            s["ru1"] = enc(x->getRatedU1()); s["ru2"] = enc(x->getRatedU2()); s["rs"] = enc(x->getRatedS());
            tapChangers(*x, 0, tm, st, dy);
        } else if (auto* x = dynamic_cast<ThreeWindingsTransformer*>(c)) {
            put("T3"); s["own"] = x->getSubstation().getId(); s["ru0"] = enc(x->getRatedU0());
            int i = 0;
            for (auto* h : {&x->getLeg1(), &x->getLeg2(), &x->getLeg3()}) {
                ++i;
                js::object q;
                q["k"] = "LEG"; q["r"] = enc(h->getR()); q["x"] = enc(h->getX()); q["g"] = enc(h->getG()); q["b"] = enc(h->getB()); q["ru"] = enc(h->getRatedU()); q["rs"] = enc(h->getRatedS());
                q["t"] = ref(tm, &h->getTerminal());
                if (st) { (*st)[id + "#leg" + std::to_string(i)] = q; holderLimits(*st, id + "#lim" + std::to_string(i), *h); }
                tapChangers(*x, i, tm, st, dy);
            }
        } else put("OTHER");
        if (auto* b = dynamic_cast<Branch*>(c)) {
            if (st) for (int side = 1; side <= 2; ++side) {
                auto sd = side == 1 ? Branch::Side::ONE : Branch::Side::TWO;
                const std::string base = id + "#lim" + std::to_string(side);
                if (b->getCurrentLimits(sd)) (*st)[base + "CURRENT"] = limitsObj(b->getCurrentLimits(sd).get(), LimitType::CURRENT);
                if (b->getActivePowerLimits(sd)) (*st)[base + "ACTIVE_POWER"] = limitsObj(b->getActivePowerLimits(sd).get(), LimitType::ACTIVE_POWER);
                if (b->getApparentPowerLimits(sd)) (*st)[base + "APPARENT_POWER"] = limitsObj(b->getApparentPowerLimits(sd).get(), LimitType::APPARENT_POWER);
            }
        }
        if (st) if (auto* h = rlHolder(*c)) (*st)[id + "#rl"] = rlObj(*h);
        js::array ts, td;
        for (Terminal& t : c->getTerminals()) {
            js::object a, b;
            VoltageLevel& vl = t.getVoltageLevel();
            bool nb = vl.getTopologyKind() == TopologyKind::NODE_BREAKER;
            a["vl"] = vl.getId();
            a["node"] = nb ? static_cast<int64_t>(t.getNodeBreakerView().getNode()) : -1;
            ts.push_back(a);
            if (dy) {
                if (c->getType() == ConnectableType::BUSBAR_SECTION) { b["p"] = NANV; b["q"] = NANV; }
                else { b["p"] = enc(t.getP()); b["q"] = enc(t.getQ()); }
                b["cb"] = nb ? std::string() : (t.getBusBreakerView().getConnectableBus() ? t.getBusBreakerView().getConnectableBus().get().getId() : std::string("?"));
                b["con"] = nb ? false : t.isConnected();
                b["v"] = nb ? enc(t.getV()) : NANV;
                b["an"] = nb ? enc(t.getAngle()) : NANV;
                td.push_back(b);
            }
        }
        s["ts"] = ts;
        if (dy) d["t"] = td;
    } else {
        put("OTHER");
    }
    if (st) {
        const std::string i = identityAccess(w, o), a = attributeAccess(w, o);
        if (!i.empty()) s["ACCI"] = i;
        if (!a.empty()) s["ACC"] = a;
        (*st)[id] = s;
    }
    if (dy && !d.empty()) (*dy)[id] = d;
    projectExtensions(w, o, st, dy);
}

static js::array ids(std::vector<std::string> v) {
    std::sort(v.begin(), v.end());
    js::array a;
    for (auto& s : v) a.push_back(js::value(s));
    return a;
}
template <typename R> js::array idsOf(R&& r) {
    std::vector<std::string> v;
    for (auto& x : r) v.push_back(x.getId());
    std::vector<std::string> again;  // a range may be read several times
    for (auto& x : r) again.push_back(x.getId());
    if (again != v) v.push_back("MULTIPASS");
    return ids(v);
}

// both flavours of a range hold the same elements, in the same order
template <typename R, typename C> js::array both(R&& r, C&& c) {
    std::vector<std::string> a, b;
    for (auto& x : r) a.push_back(x.getId());
    for (auto& x : c) b.push_back(x.getId());
    if (a != b) { js::array bad = ids(a); bad.push_back(js::value("CONSTDIFF")); return bad; }
    return idsOf(r);
}
template <typename T> const T& K(const T& x) { return x; }
template <typename X, typename Y> std::string bid2(const X& b, const Y& c) {
    const std::string x = b ? b.get().getId() : std::string(), y = c ? c.get().getId() : std::string();
    return x == y ? x : "CONSTDIFF";
}
// every listing and count: entries "<scope>:<KIND>" -> {"i": ids, "n": count}
static void lst(js::object& o, const std::string& key, js::array a, int64_t n) {
    js::object e;
    e["i"] = a;
    e["n"] = n;
    o[key] = e;
}
static js::object listings(World& w) {
    Network& n = w.n();
    js::object o;
    auto N = [](unsigned long c) { return static_cast<int64_t>(c); };
    lst(o, "N:BAT", both(n.getBatteries(), K(n).getBatteries()), N(n.getBatteryCount()));
    lst(o, "N:BRANCH", both(n.getBranches(), K(n).getBranches()), N(n.getBranchCount()));
    lst(o, "N:BBS", both(n.getBusbarSections(), K(n).getBusbarSections()), N(n.getBusbarSectionCount()));
    lst(o, "N:DL", both(n.getDanglingLines(), K(n).getDanglingLines()), N(n.getDanglingLineCount()));
    lst(o, "N:GEN", both(n.getGenerators(), K(n).getGenerators()), N(n.getGeneratorCount()));
    lst(o, "N:CS", both(n.getHvdcConverterStations(), K(n).getHvdcConverterStations()), N(n.getHvdcConverterStationCount()));
    lst(o, "N:HVDC", both(n.getHvdcLines(), K(n).getHvdcLines()), N(n.getHvdcLineCount()));
    lst(o, "N:LCC", both(n.getLccConverterStations(), K(n).getLccConverterStations()), N(n.getLccConverterStationCount()));
    lst(o, "N:LINES", both(n.getLines(), K(n).getLines()), N(n.getLineCount()));
    lst(o, "N:LOAD", both(n.getLoads(), K(n).getLoads()), N(n.getLoadCount()));
    lst(o, "N:SHU", both(n.getShuntCompensators(), K(n).getShuntCompensators()), N(n.getShuntCompensatorCount()));
    lst(o, "N:SVC", both(n.getStaticVarCompensators(), K(n).getStaticVarCompensators()), N(n.getStaticVarCompensatorCount()));
    lst(o, "N:SUB", both(n.getSubstations(), K(n).getSubstations()), N(n.getSubstationCount()));
    lst(o, "N:SW", both(n.getSwitches(), K(n).getSwitches()), N(n.getSwitchCount()));
    lst(o, "N:T3", both(n.getThreeWindingsTransformers(), K(n).getThreeWindingsTransformers()), N(n.getThreeWindingsTransformerCount()));
    lst(o, "N:T2", both(n.getTwoWindingsTransformers(), K(n).getTwoWindingsTransformers()), N(n.getTwoWindingsTransformerCount()));
    lst(o, "N:VL", both(n.getVoltageLevels(), K(n).getVoltageLevels()), N(n.getVoltageLevelCount()));
    lst(o, "N:VSC", both(n.getVscConverterStations(), K(n).getVscConverterStations()), N(n.getVscConverterStationCount()));
    lst(o, "N:CONN", both(n.getConnectables<Connectable>(), K(n).getConnectables<Connectable>()), N(n.getConnectableCount<Connectable>()));
    lst(o, "N:BBVSW", both(n.getBusBreakerView().getSwitches(), K(n).getBusBreakerView().getSwitches()), N(n.getBusBreakerView().getSwitchCount()));
    for (Substation& s : n.getSubstations()) {
        lst(o, s.getId() + ":SUBVL", both(s.getVoltageLevels(), K(s).getVoltageLevels()), -1);
        lst(o, s.getId() + ":SUBT2", both(s.getTwoWindingsTransformers(), K(s).getTwoWindingsTransformers()), N(s.getTwoWindingsTransformerCount()));
        lst(o, s.getId() + ":SUBT3", both(s.getThreeWindingsTransformers(), K(s).getThreeWindingsTransformers()), N(s.getThreeWindingsTransformerCount()));
    }
    for (VoltageLevel& v : n.getVoltageLevels()) {
        const std::string p = v.getId() + ":";
        lst(o, p + "BAT", both(v.getBatteries(), K(v).getBatteries()), N(v.getBatteryCount()));
        lst(o, p + "DL", both(v.getDanglingLines(), K(v).getDanglingLines()), N(v.getDanglingLineCount()));
        lst(o, p + "GEN", both(v.getGenerators(), K(v).getGenerators()), N(v.getGeneratorCount()));
        lst(o, p + "LCC", both(v.getLccConverterStations(), K(v).getLccConverterStations()), N(v.getLccConverterStationCount()));
        lst(o, p + "LOAD", both(v.getLoads(), K(v).getLoads()), N(v.getLoadCount()));
        lst(o, p + "SHU", both(v.getShuntCompensators(), K(v).getShuntCompensators()), N(v.getShuntCompensatorCount()));
        lst(o, p + "SVC", both(v.getStaticVarCompensators(), K(v).getStaticVarCompensators()), N(v.getStaticVarCompensatorCount()));
        lst(o, p + "VSC", both(v.getVscConverterStations(), K(v).getVscConverterStations()), N(v.getVscConverterStationCount()));
        lst(o, p + "CONN", both(v.getConnectables<Connectable>(), K(v).getConnectables<Connectable>()), N(v.getConnectableCount<Connectable>()));
        lst(o, p + "SW", both(v.getSwitches(), K(v).getSwitches()), N(v.getSwitchCount()));
        if (v.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            auto& nb = v.getNodeBreakerView();
            lst(o, p + "BBS", both(nb.getBusbarSections(), K(nb).getBusbarSections()), N(nb.getBusbarSectionCount()));
            lst(o, p + "NBSW", both(nb.getSwitches(), K(nb).getSwitches()), N(nb.getSwitchCount()));
        } else {
            lst(o, p + "CFGBUS", both(v.getBusBreakerView().getBuses(), K(v).getBusBreakerView().getBuses()), -1);
            lst(o, p + "BBSW", both(v.getBusBreakerView().getSwitches(), K(v).getBusBreakerView().getSwitches()), N(v.getBusBreakerView().getSwitchCount()));
        }
    }
    return o;
}

template <typename OptBus> std::string bid(const OptBus& b) { return b ? b.get().getId() : std::string(); }
static int64_t num(const stdcxx::Reference<Component>& c) { return c ? static_cast<int64_t>(c.get().getNum()) : -1; }

static int64_t numc(const stdcxx::CReference<Component>& c) { return c ? static_cast<int64_t>(c.get().getNum()) : -1; }

struct Visit : public TopologyVisitor {
    std::vector<std::string> v;
    void add(const Identifiable& o, const std::string& what) { v.push_back(what + ":" + o.getId()); }
    static std::string sd(const Branch::Side& s) { return s == Branch::Side::ONE ? "0" : "1"; }
    void visitBattery(const Battery& o) override { add(o, "BAT"); }
    void visitBusbarSection(const BusbarSection& o) override { add(o, "BBS"); }
    void visitDanglingLine(const DanglingLine& o) override { add(o, "DL"); }
    void visitGenerator(const Generator& o) override { add(o, "GEN"); }
    void visitHvdcConverterStation(const HvdcConverterStation& o) override { add(o, o.getHvdcType() == HvdcConverterStation::HvdcType::LCC ? "LCC" : "VSC"); }
    void visitLine(const Line& o, const Branch::Side& s) override { add(o, "LINE" + sd(s)); }
    void visitLoad(const Load& o) override { add(o, "LOAD"); }
    void visitShuntCompensator(const ShuntCompensator& o) override { add(o, "SHU"); }
    void visitStaticVarCompensator(const StaticVarCompensator& o) override { add(o, "SVC"); }
    void visitThreeWindingsTransformer(const ThreeWindingsTransformer& o, const ThreeWindingsTransformer::Side& s) override {
        add(o, s == ThreeWindingsTransformer::Side::ONE ? "T30" : (s == ThreeWindingsTransformer::Side::TWO ? "T31" : "T32"));
    }
    void visitTwoWindingsTransformer(const TwoWindingsTransformer& o, const Branch::Side& s) override { add(o, "T2" + sd(s)); }
};

template <typename B> js::array kindsOf(B& b) {
    std::vector<std::string> v;
    for (auto& x : b.getBatteries()) v.push_back("BAT:" + x.getId());
    for (auto& x : b.getDanglingLines()) v.push_back("DL:" + x.getId());
    for (auto& x : b.getGenerators()) v.push_back("GEN:" + x.getId());
    for (auto& x : b.getLccConverterStations()) v.push_back("LCC:" + x.getId());
    for (auto& x : b.getLines()) v.push_back("LINE:" + x.getId());
    for (auto& x : b.getLoads()) v.push_back("LOAD:" + x.getId());
    for (auto& x : b.getShuntCompensators()) v.push_back("SHU:" + x.getId());
    for (auto& x : b.getStaticVarCompensators()) v.push_back("SVC:" + x.getId());
    for (auto& x : b.getThreeWindingsTransformers()) v.push_back("T3:" + x.getId());
    for (auto& x : b.getTwoWindingsTransformers()) v.push_back("T2:" + x.getId());
    for (auto& x : b.getVscConverterStations()) v.push_back("VSC:" + x.getId());
    return ids(v);
}

struct TermVisit : public AbstractTerminalTopologyVisitor {
    const TermMap& tm;
    std::vector<std::string> v;
    explicit TermVisit(const TermMap& m) : tm(m) {}
    void visitTerminal(const Terminal& t) override { v.push_back(ref(tm, &t)); }
};

static js::object busObj(Bus& b, const Network& net, const TermMap& tm, bool visits) {
    js::object o;
    o["id"] = b.getId();
    o["vl"] = b.getVoltageLevel().getId();
    o["nm"] = b.getOptionalName();
    o["fic"] = b.isFictitious();
    std::vector<std::string> ts;
    for (Terminal& t : b.getConnectedTerminals()) ts.push_back(ref(tm, &t));
    o["ts"] = ids(ts);
    for (const Terminal& t : K(b).getConnectedTerminals()) { const std::string r = ref(tm, &t); auto it = std::find(ts.begin(), ts.end(), r); if (it == ts.end()) ts.push_back("CONSTDIFF"); }
    o["ts"] = ids(ts);
    o["n"] = static_cast<int64_t>(b.getConnectedTerminalCount());
    o["p"] = enc(b.getP());
    o["q"] = enc(b.getQ());
    o["en"] = enc(b.getV()) == enc(K(b).getV()) && &b.getNetwork() == &net && &K(b).getNetwork() == &net && &K(b).getVoltageLevel() == &b.getVoltageLevel();
    o["v"] = enc(b.getV());
    o["an"] = enc(b.getAngle());
    if (visits) {
        Visit v;
        b.visitConnectedEquipments(v);
        o["ve"] = ids(v.v);
        Visit u;
        b.visitConnectedOrConnectableEquipments(u);
        o["vc"] = ids(u.v);
        o["ks"] = kindsOf(b);
        if (kindsOf(K(b)) != kindsOf(b)) o["ks"] = js::array{js::value("CONSTDIFF")};
        TermVisit tv(tm);
        b.visitConnectedEquipments(tv);
        o["vt"] = ids(tv.v);
        auto best = TerminalFinder::find(b.getConnectedTerminals());
        auto bestc = TerminalFinder::find(K(b).getConnectedTerminals());
        o["tf"] = best ? ref(tm, &best.get()) : std::string();
        if (static_cast<bool>(best) != static_cast<bool>(bestc) || (best && &best.get() != &bestc.get())) o["tf"] = "CONSTDIFF";
    }
    return o;
}

template <typename R, typename C> bool sameObjects(R&& r, C&& c) {
    std::vector<const void*> a, b;
    for (auto& x : r) a.push_back(&x);
    for (auto& x : c) b.push_back(&x);
    return a == b;
}
static js::object topo(World& w, const TermMap& tm, bool visits) {
    js::object all;
    js::object tt;
    for (VoltageLevel& vl : w.n().getVoltageLevels()) {
        js::object o;
        const bool nb = vl.getTopologyKind() == TopologyKind::NODE_BREAKER;
        js::array bv, bb;
        for (Bus& b : vl.getBusView().getBuses()) {
            js::object x = busObj(b, w.n(), tm, visits);
            x["same"] = static_cast<bool>(vl.getBusView().getBus(b.getId())) && &vl.getBusView().getBus(b.getId()).get() == &b;
            bv.push_back(x);
        }
        for (Bus& b : vl.getBusBreakerView().getBuses()) {
            js::object x = busObj(b, w.n(), tm, visits);
            x["same"] = static_cast<bool>(vl.getBusBreakerView().getBus(b.getId())) && &vl.getBusBreakerView().getBus(b.getId()).get() == &b;
            if (!nb) {
                // ... and one to a configured bus to itself, or to the bus of the terminals connected to it
                IdBasedBusRef br(b.getId());
                auto r1 = br.resolve(K(w.n()), TopologyLevel::BUS_BREAKER);
                auto r2 = br.resolve(K(w.n()), TopologyLevel::BUS_BRANCH);
                std::string merged;
                for (Terminal& t : b.getConnectedTerminals()) if (merged.empty()) merged = bid(t.getBusView().getBus());
                if (!r1 || &r1.get() != &b || bid(r2) != merged) x["same"] = false;
            }
            if (!nb) x["mb"] = bid2(vl.getBusView().getMergedBus(b.getId()), K(vl).getBusView().getMergedBus(b.getId()));
            bb.push_back(x);
        }
        o["bv"] = bv;
        o["bb"] = bb;
        bool cst = sameObjects(vl.getBusView().getBuses(), K(vl).getBusView().getBuses()) && sameObjects(vl.getBusBreakerView().getBuses(), K(vl).getBusBreakerView().getBuses());
        for (Bus& b : vl.getBusView().getBuses()) cst = cst && K(vl).getBusView().getBus(b.getId()) && &K(vl).getBusView().getBus(b.getId()).get() == &b;
        for (Bus& b : vl.getBusBreakerView().getBuses()) cst = cst && K(vl).getBusBreakerView().getBus(b.getId()) && &K(vl).getBusBreakerView().getBus(b.getId()).get() == &b;
        o["cst"] = cst;
        o["ghost"] = static_cast<bool>(vl.getBusView().getBus(vl.getId() + "_nowhere"));
        js::object sw;
        if (nb) {
            std::vector<std::string> rs;
            for (Switch& s : vl.getBusBreakerView().getSwitches()) {
                rs.push_back(s.getId());
                js::object x;
                x["b1"] = bid2(vl.getBusBreakerView().getBus1(s.getId()), K(vl).getBusBreakerView().getBus1(s.getId()));
                x["b2"] = bid2(vl.getBusBreakerView().getBus2(s.getId()), K(vl).getBusBreakerView().getBus2(s.getId()));
                sw[s.getId()] = x;
            }
            o["bbsw"] = ids(rs);
            o["bbswn"] = static_cast<int64_t>(vl.getBusBreakerView().getSwitchCount());
            js::object nodes;
            for (unsigned long nd : vl.getNodeBreakerView().getNodes()) {
                auto t = vl.getNodeBreakerView().getOptionalTerminal(nd);
                nodes[std::to_string(nd)] = t ? ref(tm, &t.get()) : std::string();
            }
            o["nodes"] = nodes;
        }
        o["sw"] = sw;
        if (visits) {
            Visit v;
            vl.visitEquipments(v);
            o["ve"] = ids(v.v);
        }
        all[vl.getId()] = o;
        for (Connectable& c : vl.getConnectables<Connectable>()) {
            int i = 0;
            for (Terminal& t : c.getTerminals()) {
                const std::string r = c.getId() + "/" + std::to_string(i++);
                if (&t.getVoltageLevel() != &vl || tt.contains(r)) continue;
                js::object x;
                x["con"] = t.isConnected();
                x["bv"] = bid2(t.getBusView().getBus(), K(t).getBusView().getBus());
                x["bb"] = bid2(t.getBusBreakerView().getBus(), K(t).getBusBreakerView().getBus());
                x["bvc"] = bid2(t.getBusView().getConnectableBus(), K(t).getBusView().getConnectableBus());
                x["bbc"] = bid2(t.getBusBreakerView().getConnectableBus(), K(t).getBusBreakerView().getConnectableBus());
                x["v"] = enc(t.getV());
                x["an"] = enc(t.getAngle());
                // a reference to the bus of an equipment, kept by identifiers, leads to the buses of its terminal
                std::unique_ptr<BusRef> br;
                if (dynamic_cast<Injection*>(&c) != nullptr) br.reset(new IdBasedBusRef(c.getId()));
                else if (dynamic_cast<Branch*>(&c) != nullptr) br.reset(new IdBasedBusRef(c.getId(), i == 1 ? Branch::Side::ONE : Branch::Side::TWO));
                if (br && bid(br->resolve(K(w.n()), TopologyLevel::BUS_BRANCH)) != bid(t.getBusView().getBus())) x["bv"] = "BUSREF";
                if (br && bid(br->resolve(K(w.n()), TopologyLevel::BUS_BREAKER)) != bid(t.getBusBreakerView().getBus())) x["bb"] = "BUSREF";
                tt[r] = x;
            }
        }
    }
    js::object o;
    o["vl"] = all;
    o["tt"] = tt;
    std::vector<std::string> nbv, nbb;
    bool same = true;
    for (Bus& b : w.n().getBusView().getBuses()) { nbv.push_back(b.getId()); auto r = w.n().getBusView().getBus(b.getId()); same = same && r && &r.get() == &b; }
    for (Bus& b : w.n().getBusBreakerView().getBuses()) { nbb.push_back(b.getId()); auto r = w.n().getBusBreakerView().getBus(b.getId()); same = same && r && &r.get() == &b; }
    for (const std::string& b : nbv) same = same && K(w.n()).getBusView().getBus(b) && &K(w.n()).getBusView().getBus(b).get() == &w.n().getBusView().getBus(b).get();
    for (const std::string& b : nbb) same = same && K(w.n()).getBusBreakerView().getBus(b) && &K(w.n()).getBusBreakerView().getBus(b).get() == &w.n().getBusBreakerView().getBus(b).get();
    same = same && sameObjects(w.n().getBusView().getBuses(), K(w.n()).getBusView().getBuses());
    same = same && sameObjects(w.n().getBusBreakerView().getBuses(), K(w.n()).getBusBreakerView().getBuses());
    o["nbv"] = ids(nbv);
    o["nbb"] = ids(nbb);
    o["same"] = same;
    return o;
}

static js::object components(World& w) {
    js::object o;
    js::array cc, sc;
    for (Component& c : w.n().getBusView().getConnectedComponents()) {
        js::object x;
        x["num"] = static_cast<int64_t>(c.getNum());
        x["size"] = static_cast<int64_t>(c.getSize());
        x["b"] = both(c.getBuses(), K(c).getBuses());
        cc.push_back(x);
    }
    for (Component& c : w.n().getBusView().getSynchronousComponents()) {
        js::object x;
        x["num"] = static_cast<int64_t>(c.getNum());
        x["size"] = static_cast<int64_t>(c.getSize());
        x["b"] = both(c.getBuses(), K(c).getBuses());
        sc.push_back(x);
    }
    o["cc"] = cc;
    o["sc"] = sc;
    o["cst"] = sameObjects(w.n().getBusView().getConnectedComponents(), K(w.n()).getBusView().getConnectedComponents()) && sameObjects(w.n().getBusView().getSynchronousComponents(), K(w.n()).getBusView().getSynchronousComponents());
    js::object bus;
    auto one = [&](Bus& b) {
        js::object x;
        x["c"] = num(b.getConnectedComponent());
        x["s"] = num(b.getSynchronousComponent());
        x["mc"] = b.isInMainConnectedComponent();
        x["ms"] = b.isInMainSynchronousComponent();
        auto cc2 = ConnectedComponents::getCcNum(b);
        if (num(b.getConnectedComponent()) != (cc2 ? static_cast<int64_t>(*cc2) : -1)) x["c"] = -2;
        if (num(b.getConnectedComponent()) != numc(K(b).getConnectedComponent())) x["c"] = -3;
        if (num(b.getSynchronousComponent()) != numc(K(b).getSynchronousComponent())) x["s"] = -3;
        return x;
    };
    for (Bus& b : w.n().getBusView().getBuses()) bus[b.getId()] = one(b);
    o["bus"] = bus;
    js::object bb;
    for (Bus& b : w.n().getBusBreakerView().getBuses()) bb[b.getId()] = one(b);
    o["bb"] = bb;
    return o;
}

js::object project(World& w, const std::string& what) {
    js::object o;
    auto has = [&](char c) { return what.find(c) != std::string::npos; };
    Network& n = w.n();
    VariantManager& vm = n.getVariantManager();
    std::string cur;
    try { cur = vm.getWorkingVariantId(); } catch (const std::exception&) { cur = ""; }
    js::object vs;
    for (const std::string& v : K(n).getVariantManager().getVariantIds()) vs[v] = 1;
    // one index for each variant, all of them within the arrays
    const std::set<unsigned long> used = vm.getVariantIndices();
    if (used.size() != vs.size()) vs["?indices"] = 1;
    if (*used.rbegin() >= vm.getVariantArraySize()) vs["?array"] = 1;
    if (!cur.empty() && used.count(vm.getVariantIndex()) == 0) vs["?current"] = 1;
    o["vs"] = vs;
    o["mt"] = vm.isVariantMultiThreadAccessAllowed();
    o["cur"] = cur;
    TermMap tm = termMap(w);
    if (has('s')) {
        js::object st, al, pr;
        for (Identifiable& x : n.getIdentifiables()) {
            fill(w, x, tm, &st, nullptr);
            js::object a, p;
            for (const std::string& s : x.getAliases()) {
                std::string ty = x.getAliasType(s);
                a[s] = ty;
                if (!ty.empty()) { auto f = x.getAliasFromType(ty); if (!f || *f != s) a[s] = "BROKEN " + ty; }
            }
            for (const std::string& s : x.getPropertyNames()) p[s] = x.getProperty(s);
            if (!a.empty()) al[x.getId()] = a;
            if (!p.empty()) pr[x.getId()] = p;
        }
        o["st"] = st;
        o["al"] = al;
        o["pr"] = pr;
    }
    if (has('l') && !cur.empty()) o["ls"] = listings(w);
    if (cur.empty()) return o;
    std::vector<std::string> vars;
    if (has('a')) for (const std::string& v : vm.getVariantIds()) vars.push_back(v); else vars.push_back(cur);
    js::object dy, tp, cp;
    for (const std::string& v : vars) {
        if (has('a')) vm.setWorkingVariant(v);
        if (has('d')) {
            js::object d;
            for (Identifiable& x : n.getIdentifiables()) fill(w, x, tm, nullptr, &d);
            dy[v] = d;
        }
        if (has('t')) tp[v] = topo(w, tm, has('v'));
        if (has('k')) cp[v] = components(w);
    }
    if (has('a')) vm.setWorkingVariant(cur);
    if (has('d')) o["dy"] = dy;
    if (has('t')) o["tp"] = tp;
    if (has('k')) o["cp"] = cp;
    return o;
}
}

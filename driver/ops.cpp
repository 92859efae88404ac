// Execution of the modifying operations of a script on the real library.
#include "world.hpp"
#include <powsybl/iidm/ActivePowerLimitsAdder.hpp>
#include <powsybl/iidm/ApparentPowerLimitsAdder.hpp>
#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/BatteryAdder.hpp>
#include <powsybl/iidm/Branch.hpp>
#include <powsybl/iidm/Bus.hpp>
#include <powsybl/iidm/BusAdder.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/BusbarSectionAdder.hpp>
#include <powsybl/iidm/CurrentLimitsAdder.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/DanglingLineAdder.hpp>
#include <powsybl/iidm/DanglingLineGenerationAdder.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/GeneratorAdder.hpp>
#include <powsybl/iidm/HalfLineAdder.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/HvdcLineAdder.hpp>
#include <powsybl/iidm/InternalConnectionAdder.hpp>
#include <powsybl/iidm/LccConverterStation.hpp>
#include <powsybl/iidm/LccConverterStationAdder.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/LineAdder.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/LoadAdder.hpp>
#include <powsybl/iidm/MinMaxReactiveLimitsAdder.hpp>
#include <powsybl/iidm/PhaseTapChangerAdder.hpp>
#include <powsybl/iidm/RatioTapChangerAdder.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurveAdder.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/ShuntCompensatorAdder.hpp>
#include <powsybl/iidm/ShuntCompensatorLinearModelAdder.hpp>
#include <powsybl/iidm/ShuntCompensatorNonLinearModelAdder.hpp>
#include <powsybl/iidm/ShuntCompensatorLinearModel.hpp>
#include <powsybl/iidm/ShuntCompensatorNonLinearModel.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/StaticVarCompensatorAdder.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/SubstationAdder.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/SwitchAdder.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/ThreeWindingsTransformerAdder.hpp>
#include <powsybl/iidm/ThreeWindingsTransformerLegAdder.hpp>
#include <powsybl/iidm/TieLine.hpp>
#include <powsybl/iidm/TieLineAdder.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/TwoWindingsTransformerAdder.hpp>
#include <powsybl/iidm/VoltageLevelAdder.hpp>
#include <powsybl/iidm/VscConverterStation.hpp>
#include <powsybl/iidm/VscConverterStationAdder.hpp>
#include <powsybl/stdcxx/make_unique.hpp>

namespace drv {
using namespace powsybl::iidm;
template <typename E> E en(const std::string& s) { return powsybl::iidm::Enum::fromString<E>(s); }

void World::reset() {
    net.reset(new Network("N", "test"));
    net->setCaseDate(stdcxx::DateTime::parse("2020-02-03T04:05:06Z"));
    foreign.reset(new Network("FOREIGN", "test"));
    Substation& s = foreign->newSubstation().setId("FS").add();
    VoltageLevel& v = s.newVoltageLevel().setId("FVL").setNominalV(400.0).setTopologyKind(TopologyKind::BUS_BREAKER).add();
    v.getBusBreakerView().newBus().setId("FB").add();
    v.newLoad().setId("F").setBus("FB").setP0(1.0).setQ0(1.0).add();
}

template <typename T> T& must(World& w, const std::string& id) {
    stdcxx::Reference<Identifiable> r = w.n().find<Identifiable>(id);
    T* p = r ? dynamic_cast<T*>(&r.get()) : nullptr;
    if (p == nullptr) throw NilOp("no such object " + id);
    return *p;
}

Terminal& World::term(const std::string& ref) {
    if (ref == "@") return foreign->get<Load>("F").getTerminal();
    auto pos = ref.rfind('/');
    Connectable& c = must<Connectable>(*this, ref.substr(0, pos));
    unsigned long i = std::stoul(ref.substr(pos + 1));
    auto ts = c.getTerminals();
    if (i >= ts.size()) throw NilOp("no such terminal " + ref);
    return ts[i].get();
}
stdcxx::Reference<Terminal> World::termRef(const std::string& ref) {
    if (ref.empty()) return stdcxx::Reference<Terminal>();
    return stdcxx::ref(term(ref));
}

#define HAS(o, k) ((o).contains(k))
#define AD(m, k) if (HAS(a, k)) ad.m(D(a, k))
#define AB(m, k) if (HAS(a, k)) ad.m(B(a, k))
#define AU(m, k) if (HAS(a, k)) ad.m(static_cast<unsigned long>(I(a, k)))
#define AL(m, k) if (HAS(a, k)) ad.m(static_cast<long>(I(a, k)))
#define AS(m, k) if (HAS(a, k)) ad.m(S(a, k))
#define AE(E, m, k) if (HAS(a, k)) ad.m(en<E>(S(a, k)))

template <typename A> void ident(A& ad, const js::object& ev) {
    ad.setId(S(ev, "id"));
    if (!S(ev, "nm").empty()) ad.setName(S(ev, "nm"));
    ad.setFictitious(B(ev, "fic"));
    ad.setEnsureIdUnicity(B(ev, "uniq"));
}
static const js::object& end(const js::object& ev, size_t i) { return ev.at("ends").as_array().at(i).as_object(); }
template <typename A> void inj(A& ad, const js::object& ev) {
    const js::object& e = end(ev, 0);
    if (I(e, "node") >= 0) ad.setNode(static_cast<unsigned long>(I(e, "node")));
    if (!S(e, "bus").empty()) ad.setBus(S(e, "bus"));
    if (!S(e, "cbus").empty()) ad.setConnectableBus(S(e, "cbus"));
}
template <typename A> void branch(A& ad, const js::object& ev) {
    const js::object& e = end(ev, 0);
    if (!S(e, "vl").empty()) ad.setVoltageLevel1(S(e, "vl"));
    if (I(e, "node") >= 0) ad.setNode1(static_cast<unsigned long>(I(e, "node")));
    if (!S(e, "bus").empty()) ad.setBus1(S(e, "bus"));
    if (!S(e, "cbus").empty()) ad.setConnectableBus1(S(e, "cbus"));
    const js::object& f = end(ev, 1);
    if (!S(f, "vl").empty()) ad.setVoltageLevel2(S(f, "vl"));
    if (I(f, "node") >= 0) ad.setNode2(static_cast<unsigned long>(I(f, "node")));
    if (!S(f, "bus").empty()) ad.setBus2(S(f, "bus"));
    if (!S(f, "cbus").empty()) ad.setConnectableBus2(S(f, "cbus"));
}
static VoltageLevel& parentVl(World& w, const js::object& ev) { return must<VoltageLevel>(w, S(end(ev, 0), "vl")); }

template <typename A> void half(A ad, const js::object& h) {
    const js::object& a = h;
    AS(setId, "id"); AS(setName, "nm"); AB(setFictitious, "fic");
    AD(setR, "r"); AD(setX, "x"); AD(setG1, "g1"); AD(setB1, "b1"); AD(setG2, "g2"); AD(setB2, "b2");
    ad.add();
}

static std::string addObject(World& w, const js::object& ev) {
    const std::string k = S(ev, "k");
    const js::object& a = ev.at("a").as_object();
    if (k == "SUB") {
        auto ad = w.n().newSubstation();
        ident(ad, ev);
        AE(Country, setCountry, "country"); AS(setTso, "tso");
        if (HAS(a, "tags") && a.at("tags").as_array().size() == 2) {
            const js::array& ts = a.at("tags").as_array();
            ad.addGeographicalTag("replaced").setGeographicalTags({std::string(ts[0].as_string().c_str()), std::string(ts[1].as_string().c_str())});
        } else if (HAS(a, "tags")) for (const auto& t : a.at("tags").as_array()) ad.addGeographicalTag(std::string(t.as_string().c_str()));
        return ad.add().getId();
    }
    if (k == "VL") {
        auto ad = must<Substation>(w, S(ev, "sub")).newVoltageLevel();
        ident(ad, ev);
        AE(TopologyKind, setTopologyKind, "topo"); AD(setNominalV, "nv"); AD(setLowVoltageLimit, "lo"); AD(setHighVoltageLimit, "hi");
        return ad.add().getId();
    }
    if (k == "BUS") {
        auto ad = parentVl(w, ev).getBusBreakerView().newBus();
        ident(ad, ev);
        return ad.add().getId();
    }
    if (k == "BBS") {
        auto ad = parentVl(w, ev).getNodeBreakerView().newBusbarSection();
        ident(ad, ev);
        if (I(end(ev, 0), "node") >= 0) ad.setNode(static_cast<unsigned long>(I(end(ev, 0), "node")));
        return ad.add().getId();
    }
    if (k == "SW") {
        VoltageLevel& vl = parentVl(w, ev);
        if (vl.getTopologyKind() == TopologyKind::BUS_BREAKER) {
            auto ad = vl.getBusBreakerView().newSwitch();
            ident(ad, ev);
            if (!S(end(ev, 0), "bus").empty()) ad.setBus1(S(end(ev, 0), "bus"));
            if (!S(end(ev, 1), "bus").empty()) ad.setBus2(S(end(ev, 1), "bus"));
            AB(setOpen, "open");
            return ad.add().getId();
        }
        const std::string via = S(ev, "via");
        auto ad = via == "breaker" ? vl.getNodeBreakerView().newBreaker()
                                   : (via == "disconnector" ? vl.getNodeBreakerView().newDisconnector() : vl.getNodeBreakerView().newSwitch());
        ident(ad, ev);
        if (I(end(ev, 0), "node") >= 0) ad.setNode1(static_cast<unsigned long>(I(end(ev, 0), "node")));
        if (I(end(ev, 1), "node") >= 0) ad.setNode2(static_cast<unsigned long>(I(end(ev, 1), "node")));
        AE(SwitchKind, setKind, "swk"); AB(setOpen, "open"); AB(setRetained, "ret");
        return ad.add().getId();
    }
    if (k == "IC") {
        auto ad = parentVl(w, ev).getNodeBreakerView().newInternalConnection();
        if (I(end(ev, 0), "node") >= 0) ad.setNode1(static_cast<unsigned long>(I(end(ev, 0), "node")));
        if (I(end(ev, 1), "node") >= 0) ad.setNode2(static_cast<unsigned long>(I(end(ev, 1), "node")));
        ad.add();
        return "";
    }
    if (k == "LOAD") {
        auto ad = parentVl(w, ev).newLoad();
        ident(ad, ev); inj(ad, ev);
        AE(LoadType, setLoadType, "lt"); AD(setP0, "p0"); AD(setQ0, "q0");
        return ad.add().getId();
    }
    if (k == "GEN") {
        auto ad = parentVl(w, ev).newGenerator();
        ident(ad, ev); inj(ad, ev);
        AE(EnergySource, setEnergySource, "es"); AD(setMinP, "minP"); AD(setMaxP, "maxP"); AD(setRatedS, "rs"); AB(setVoltageRegulatorOn, "on");
        AD(setTargetP, "tp"); AD(setTargetQ, "tq"); AD(setTargetV, "tv");
        if (HAS(a, "rt")) ad.setRegulatingTerminal(w.termRef(S(a, "rt")));
        return ad.add().getId();
    }
    if (k == "BAT") {
        auto ad = parentVl(w, ev).newBattery();
        ident(ad, ev); inj(ad, ev);
        AD(setMinP, "minP"); AD(setMaxP, "maxP"); AD(setP0, "p0"); AD(setQ0, "q0");
        return ad.add().getId();
    }
    if (k == "SHU") {
        auto ad = parentVl(w, ev).newShuntCompensator();
        ident(ad, ev); inj(ad, ev);
        AU(setSectionCount, "n"); AB(setVoltageRegulatorOn, "on"); AD(setTargetV, "tv"); AD(setTargetDeadband, "db");
        if (HAS(a, "rt")) ad.setRegulatingTerminal(w.termRef(S(a, "rt")));
        const std::string m = S(a, "model");
        if (m == "LINEAR") {
            auto mo = ad.newLinearModel();
            if (HAS(a, "bps")) mo.setBPerSection(D(a, "bps"));
            if (HAS(a, "gps")) mo.setGPerSection(D(a, "gps"));
            if (HAS(a, "max")) mo.setMaximumSectionCount(static_cast<unsigned long>(I(a, "max")));
            mo.add();
        } else if (m == "NON_LINEAR") {
            auto mo = ad.newNonLinearModel();
            for (const auto& sv : a.at("secs").as_array()) {
                const js::object& s = sv.as_object();
                auto sa = mo.beginSection();
                if (HAS(s, "b")) sa.setB(D(s, "b"));
                if (HAS(s, "g")) sa.setG(D(s, "g"));
                sa.endSection();
            }
            mo.add();
        }
        return ad.add().getId();
    }
    if (k == "SVC") {
        auto ad = parentVl(w, ev).newStaticVarCompensator();
        ident(ad, ev); inj(ad, ev);
        AD(setBmin, "bmin"); AD(setBmax, "bmax"); AD(setVoltageSetpoint, "vs"); AD(setReactivePowerSetpoint, "qs");
        AE(StaticVarCompensator::RegulationMode, setRegulationMode, "mode");
        if (HAS(a, "rt")) ad.setRegulatingTerminal(w.termRef(S(a, "rt")));
        return ad.add().getId();
    }
    if (k == "DL") {
        auto ad = parentVl(w, ev).newDanglingLine();
        ident(ad, ev); inj(ad, ev);
        AD(setP0, "p0"); AD(setQ0, "q0"); AD(setR, "r"); AD(setX, "x"); AD(setG, "g"); AD(setB, "b"); AS(setUcteXnodeCode, "ucte");
        if (HAS(a, "gen")) {
            auto g = ad.newGeneration();
            const js::object& o = a.at("gen").as_object();
            if (HAS(o, "minP")) g.setMinP(D(o, "minP"));
            if (HAS(o, "maxP")) g.setMaxP(D(o, "maxP"));
            if (HAS(o, "tp")) g.setTargetP(D(o, "tp"));
            if (HAS(o, "tq")) g.setTargetQ(D(o, "tq"));
            if (HAS(o, "tv")) g.setTargetV(D(o, "tv"));
            if (HAS(o, "on")) g.setVoltageRegulationOn(B(o, "on"));
            g.add();
        }
        return ad.add().getId();
    }
    if (k == "LCC") {
        auto ad = parentVl(w, ev).newLccConverterStation();
        ident(ad, ev); inj(ad, ev);
        AD(setLossFactor, "loss"); AD(setPowerFactor, "pf");
        return ad.add().getId();
    }
    if (k == "VSC") {
        auto ad = parentVl(w, ev).newVscConverterStation();
        ident(ad, ev); inj(ad, ev);
        AD(setLossFactor, "loss"); AB(setVoltageRegulatorOn, "on"); AD(setVoltageSetpoint, "tv"); AD(setReactivePowerSetpoint, "tq");
        return ad.add().getId();
    }
    if (k == "HVDC") {
        auto ad = w.n().newHvdcLine();
        ident(ad, ev);
        AD(setR, "r"); AD(setNominalV, "nv"); AD(setMaxP, "maxP"); AD(setActivePowerSetpoint, "p");
        AE(HvdcLine::ConvertersMode, setConvertersMode, "mode"); AS(setConverterStationId1, "c1"); AS(setConverterStationId2, "c2");
        return ad.add().getId();
    }
    if (k == "LINE") {
        auto ad = w.n().newLine();
        ident(ad, ev); branch(ad, ev);
        AD(setR, "r"); AD(setX, "x"); AD(setG1, "g1"); AD(setB1, "b1"); AD(setG2, "g2"); AD(setB2, "b2");
        return ad.add().getId();
    }
    if (k == "TIE") {
        auto ad = w.n().newTieLine();
        ident(ad, ev); branch(ad, ev);
        AS(setUcteXnodeCode, "ucte");
        if (HAS(a, "h1")) half(ad.newHalfLine1(), a.at("h1").as_object());
        if (HAS(a, "h2")) half(ad.newHalfLine2(), a.at("h2").as_object());
        return ad.add().getId();
    }
    if (k == "T2") {
        auto ad = must<Substation>(w, S(ev, "sub")).newTwoWindingsTransformer();
        ident(ad, ev); branch(ad, ev);
        AD(setR, "r"); AD(setX, "x"); AD(setG, "g"); AD(setB, "b"); AD(setRatedU1, "ru1"); AD(setRatedU2, "ru2"); AD(setRatedS, "rs");
        return ad.add().getId();
    }
    if (k == "T3") {
        auto ad = must<Substation>(w, S(ev, "sub")).newThreeWindingsTransformer();
        ident(ad, ev);
        AD(setRatedU0, "ru0");
        for (size_t i = 0; i < a.at("legs").as_array().size(); ++i) {
            const js::object& l = a.at("legs").as_array()[i].as_object();
            auto la = i == 0 ? ad.newLeg1() : (i == 1 ? ad.newLeg2() : ad.newLeg3());
            const js::object& e = end(ev, i);
            if (!S(e, "vl").empty()) la.setVoltageLevel(S(e, "vl"));
            if (I(e, "node") >= 0) la.setNode(static_cast<unsigned long>(I(e, "node")));
            if (!S(e, "bus").empty()) la.setBus(S(e, "bus"));
            if (!S(e, "cbus").empty()) la.setConnectableBus(S(e, "cbus"));
            if (HAS(l, "r")) la.setR(D(l, "r"));
            if (HAS(l, "x")) la.setX(D(l, "x"));
            if (HAS(l, "g")) la.setG(D(l, "g"));
            if (HAS(l, "b")) la.setB(D(l, "b"));
            if (HAS(l, "ru")) la.setRatedU(D(l, "ru"));
            if (HAS(l, "rs")) la.setRatedS(D(l, "rs"));
            la.add();
        }
        return ad.add().getId();
    }
    throw SkipOp("unknown kind " + k);
}

RatioTapChangerHolder* rtcHolder(Identifiable& o, int leg) {
    if (auto* t = dynamic_cast<TwoWindingsTransformer*>(&o)) return leg == 0 ? t : nullptr;
    if (auto* t = dynamic_cast<ThreeWindingsTransformer*>(&o)) return leg == 1 ? &t->getLeg1() : (leg == 2 ? &t->getLeg2() : (leg == 3 ? &t->getLeg3() : nullptr));
    return nullptr;
}
PhaseTapChangerHolder* ptcHolder(Identifiable& o, int leg) {
    if (auto* t = dynamic_cast<TwoWindingsTransformer*>(&o)) return leg == 0 ? t : nullptr;
    if (auto* t = dynamic_cast<ThreeWindingsTransformer*>(&o)) return leg == 1 ? &t->getLeg1() : (leg == 2 ? &t->getLeg2() : (leg == 3 ? &t->getLeg3() : nullptr));
    return nullptr;
}
static void need(bool c, const std::string& m) { if (!c) throw NilOp(m); }

// "T1#rtc2" -> owner "T1", sub "rtc", num 2
void splitSub(const std::string& id, std::string& owner, std::string& sub, int& num) {
    auto pos = id.rfind('#');
    sub = pos == std::string::npos ? "" : id.substr(pos + 1);
    bool known = false;
    for (const char* p : {"rtc", "ptc", "lim", "gen", "half", "leg", "mod"}) known = known || sub.compare(0, std::string(p).size(), p) == 0;
    if (!known) { pos = std::string::npos; sub.clear(); }  // a "#" that is part of the identifier (unique ids)
    owner = id.substr(0, pos);
    num = 0;
    if (!sub.empty() && std::isdigit(sub.back())) { num = sub.back() - '0'; sub.pop_back(); }
}

static void addTapChanger(World& w, const js::object& ev, bool ratio) {
    const js::object& a = ev.at("a").as_object();
    Identifiable& o = must<Identifiable>(w, S(ev, "own"));
    int leg = static_cast<int>(I(ev, "leg"));
    if (ratio) {
        RatioTapChangerHolder* h = rtcHolder(o, leg);
        need(h != nullptr, "no holder");
        auto ad = h->newRatioTapChanger();
        AL(setLowTapPosition, "low"); AL(setTapPosition, "pos"); AB(setRegulating, "reg"); AB(setLoadTapChangingCapabilities, "lt");
        AD(setTargetV, "tv"); AD(setTargetDeadband, "db");
        if (HAS(a, "rt")) ad.setRegulationTerminal(w.termRef(S(a, "rt")));
        for (const auto& sv : a.at("steps").as_array()) {
            const js::object& s = sv.as_object();
            auto sa = ad.beginStep();
            if (HAS(s, "rho")) sa.setRho(D(s, "rho"));
            if (HAS(s, "r")) sa.setR(D(s, "r"));
            if (HAS(s, "x")) sa.setX(D(s, "x"));
            if (HAS(s, "g")) sa.setG(D(s, "g"));
            if (HAS(s, "b")) sa.setB(D(s, "b"));
            sa.endStep();
        }
        ad.add();
    } else {
        PhaseTapChangerHolder* h = ptcHolder(o, leg);
        need(h != nullptr, "no holder");
        auto ad = h->newPhaseTapChanger();
        AL(setLowTapPosition, "low"); AL(setTapPosition, "pos"); AB(setRegulating, "reg");
        AE(PhaseTapChanger::RegulationMode, setRegulationMode, "mode"); AD(setRegulationValue, "rv"); AD(setTargetDeadband, "db");
        if (HAS(a, "rt")) ad.setRegulationTerminal(w.termRef(S(a, "rt")));
        for (const auto& sv : a.at("steps").as_array()) {
            const js::object& s = sv.as_object();
            auto sa = ad.beginStep();
            if (HAS(s, "alpha")) sa.setAlpha(D(s, "alpha"));
            if (HAS(s, "rho")) sa.setRho(D(s, "rho"));
            if (HAS(s, "r")) sa.setR(D(s, "r"));
            if (HAS(s, "x")) sa.setX(D(s, "x"));
            if (HAS(s, "g")) sa.setG(D(s, "g"));
            if (HAS(s, "b")) sa.setB(D(s, "b"));
            sa.endStep();
        }
        ad.add();
    }
}

template <typename A> void fillLimits(A ad, const js::object& a) {
    if (HAS(a, "perm")) ad.setPermanentLimit(D(a, "perm"));
    for (const auto& tv : a.at("temps").as_array()) {
        const js::object& t = tv.as_object();
        auto ta = ad.beginTemporaryLimit();
        if (HAS(t, "nm")) ta.setName(S(t, "nm"));
        if (HAS(t, "v")) ta.setValue(D(t, "v"));
        if (HAS(t, "d")) ta.setAcceptableDuration(I(t, "d") < 0 ? std::numeric_limits<unsigned long>::max() : static_cast<unsigned long>(I(t, "d")));
        if (HAS(t, "fic")) ta.setFictitious(B(t, "fic"));
        if (HAS(t, "uniq")) ta.ensureNameUnicity();
        ta.endTemporaryLimit();
    }
    ad.add();
}

static void addLimits(World& w, const js::object& ev) {
    const js::object& a = ev.at("a").as_object();
    Identifiable& o = must<Identifiable>(w, S(ev, "own"));
    const std::string ty = S(ev, "lty");
    int side = static_cast<int>(I(ev, "side"));
    if (auto* b = dynamic_cast<Branch*>(&o)) {
        need(side == 1 || side == 2, "no side");
        if (ty == "CURRENT") { if (side == 1) fillLimits(b->newCurrentLimits1(), a); else fillLimits(b->newCurrentLimits2(), a); }
        else if (ty == "ACTIVE_POWER") { if (side == 1) fillLimits(b->newActivePowerLimits1(), a); else fillLimits(b->newActivePowerLimits2(), a); }
        else { if (side == 1) fillLimits(b->newApparentPowerLimits1(), a); else fillLimits(b->newApparentPowerLimits2(), a); }
        return;
    }
    FlowsLimitsHolder* h = nullptr;
    if (auto* t = dynamic_cast<ThreeWindingsTransformer*>(&o)) h = side == 1 ? &t->getLeg1() : (side == 2 ? &t->getLeg2() : (side == 3 ? &t->getLeg3() : nullptr));
    else if (auto* d = dynamic_cast<DanglingLine*>(&o)) h = side == 0 ? d : nullptr;
    need(h != nullptr, "no limits holder");
    if (ty == "CURRENT") fillLimits(h->newCurrentLimits(), a);
    else if (ty == "ACTIVE_POWER") fillLimits(h->newActivePowerLimits(), a);
    else fillLimits(h->newApparentPowerLimits(), a);
}

ReactiveLimitsHolder* rlHolder(Identifiable& o) {
    if (auto* d = dynamic_cast<DanglingLine*>(&o)) return d->getGeneration() ? &d->getGeneration().get() : nullptr;
    return dynamic_cast<ReactiveLimitsHolder*>(&o);
}

static void addReactiveLimits(World& w, const js::object& ev) {
    const js::object& a = ev.at("a").as_object();
    ReactiveLimitsHolder* h = rlHolder(must<Identifiable>(w, S(ev, "own")));
    need(h != nullptr, "no holder");
    if (S(ev, "rlk") == "MIN_MAX") {
        auto ad = h->newMinMaxReactiveLimits();
        AD(setMinQ, "minQ"); AD(setMaxQ, "maxQ");
        ad.add();
    } else {
        auto ad = h->newReactiveCapabilityCurve();
        for (const auto& pv : a.at("pts").as_array()) {
            const js::object& p = pv.as_object();
            auto pa = ad.beginPoint();
            if (HAS(p, "p")) pa.setP(D(p, "p"));
            if (HAS(p, "minQ")) pa.setMinQ(D(p, "minQ"));
            if (HAS(p, "maxQ")) pa.setMaxQ(D(p, "maxQ"));
            pa.endPoint();
        }
        ad.add();
    }
}

#define SETV(cond, call) if (f == cond) { call; return; }

static LoadingLimits* limitsOf(Identifiable& o, int side, const std::string& ty) {
    if (auto* b = dynamic_cast<Branch*>(&o)) {
        auto s = side == 1 ? Branch::Side::ONE : Branch::Side::TWO;
        auto r = b->getLimits(en<LimitType>(ty), s);
        return r ? &r.get() : nullptr;
    }
    FlowsLimitsHolder* h = nullptr;
    if (auto* t = dynamic_cast<ThreeWindingsTransformer*>(&o)) h = side == 1 ? &t->getLeg1() : (side == 2 ? &t->getLeg2() : &t->getLeg3());
    else if (auto* d = dynamic_cast<DanglingLine*>(&o)) h = d;
    if (h == nullptr) return nullptr;
    if (ty == "CURRENT") { auto r = h->getCurrentLimits(); return r ? &r.get() : nullptr; }
    if (ty == "ACTIVE_POWER") { auto r = h->getActivePowerLimits(); return r ? &r.get() : nullptr; }
    auto r = h->getApparentPowerLimits();
    return r ? &r.get() : nullptr;
}
LoadingLimits* limitsOfSub(World& w, Identifiable& o, const std::string& sub) {  // sub: "lim<side><TYPE>"
    return limitsOf(o, sub[3] - '0', sub.substr(4));
}

// year, month, day, hour, minute, second, microsecond, sign of the zone (0: the letter Z), its hours, its minutes
static std::string dateText(const js::array& a) {
    int v[10];
    for (int i = 0; i < 10; ++i) v[i] = static_cast<int>(a[static_cast<size_t>(i)].as_int64());
    char b[80];
    int n = std::snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", v[0], v[1], v[2], v[3], v[4], v[5]);
    if (v[6] % 1000 != 0) n += std::snprintf(b + n, sizeof b - n, ".%06d", v[6]);
    else if (v[6] != 0) n += std::snprintf(b + n, sizeof b - n, ".%03d", v[6] / 1000);
    if (v[7] == 0) std::snprintf(b + n, sizeof b - n, "Z");
    else std::snprintf(b + n, sizeof b - n, "%c%02d:%02d", v[7] > 0 ? '+' : '-', v[8], v[9]);
    return b;
}

static void setAttr(World& w, const js::object& ev) {
    const std::string f = S(ev, "f");
    std::string owner, sub;
    int num;
    splitSub(S(ev, "id"), owner, sub, num);
    Identifiable& o = must<Identifiable>(w, owner);
    auto d = [&]() { return D(ev, "x"); };
    auto b = [&]() { return B(ev, "x"); };
    auto s = [&]() { return S(ev, "x"); };
    auto l = [&]() { return static_cast<long>(I(ev, "x")); };
    auto u = [&]() { return static_cast<unsigned long>(I(ev, "x")); };
    if (sub == "rtc" || sub == "ptc") {
        if (sub == "rtc") {
            auto* h = rtcHolder(o, num);
            need(h != nullptr, "no holder");
            need(h->hasRatioTapChanger(), "no rtc");
            RatioTapChanger& t = h->getRatioTapChanger();
            SETV("pos", t.setTapPosition(l())) SETV("low", t.setLowTapPosition(l())) SETV("reg", t.setRegulating(b())) SETV("db", t.setTargetDeadband(d()))
            SETV("tv", t.setTargetV(d())) SETV("lt", t.setLoadTapChangingCapabilities(b())) SETV("rt", t.setRegulationTerminal(w.termRef(s())))
            if (f == "step") {
                auto& st = t.getStep(static_cast<long>(I(ev, "at")));
                const std::string c = S(ev, "c");
                if (c == "rho") st.setRho(d()); else if (c == "r") st.setR(d()); else if (c == "x") st.setX(d()); else if (c == "g") st.setG(d()); else st.setB(d());
                return;
            }
        } else {
            auto* h = ptcHolder(o, num);
            need(h != nullptr, "no holder");
            need(h->hasPhaseTapChanger(), "no ptc");
            PhaseTapChanger& t = h->getPhaseTapChanger();
            SETV("pos", t.setTapPosition(l())) SETV("low", t.setLowTapPosition(l())) SETV("reg", t.setRegulating(b())) SETV("db", t.setTargetDeadband(d()))
            SETV("rv", t.setRegulationValue(d())) SETV("mode", t.setRegulationMode(en<PhaseTapChanger::RegulationMode>(s())))
            SETV("rt", t.setRegulationTerminal(w.termRef(s())))
            if (f == "step") {
                auto& st = t.getStep(static_cast<long>(I(ev, "at")));
                const std::string c = S(ev, "c");
                if (c == "rho") st.setRho(d()); else if (c == "r") st.setR(d()); else if (c == "x") st.setX(d()); else if (c == "g") st.setG(d()); else if (c == "b") st.setB(d()); else st.setAlpha(d());
                return;
            }
        }
        throw SkipOp("field " + f);
    }
    if (sub.compare(0, 3, "lim") == 0) {
        LoadingLimits* lim = limitsOfSub(w, o, sub);
        need(lim != nullptr, "no limits");
        SETV("perm", lim->setPermanentLimit(d()))
        throw SkipOp("field " + f);
    }
    if (sub == "gen") {
        auto* dl = dynamic_cast<DanglingLine*>(&o);
        need(dl != nullptr && static_cast<bool>(dl->getGeneration()), "no generation");
        auto& g = dl->getGeneration().get();
        SETV("minP", g.setMinP(d())) SETV("maxP", g.setMaxP(d())) SETV("tp", g.setTargetP(d())) SETV("tq", g.setTargetQ(d())) SETV("tv", g.setTargetV(d()))
        SETV("on", g.setVoltageRegulationOn(b()))
        throw SkipOp("field " + f);
    }
    if (sub == "half") {
        auto* t = dynamic_cast<TieLine*>(&o);
        need(t != nullptr, "no tie line");
        auto& h = num == 1 ? t->getHalf1() : t->getHalf2();
        SETV("r", h.setR(d())) SETV("x", h.setX(d())) SETV("g1", h.setG1(d())) SETV("g2", h.setG2(d())) SETV("b1", h.setB1(d())) SETV("b2", h.setB2(d()))
        SETV("fic", h.setFictitious(b()))
        throw SkipOp("field " + f);
    }
    if (sub == "leg") {
        auto* t = dynamic_cast<ThreeWindingsTransformer*>(&o);
        need(t != nullptr, "no t3");
        auto& h = num == 1 ? t->getLeg1() : (num == 2 ? t->getLeg2() : t->getLeg3());
        SETV("r", h.setR(d())) SETV("x", h.setX(d())) SETV("g", h.setG(d())) SETV("b", h.setB(d())) SETV("ru", h.setRatedU(d())) SETV("rs", h.setRatedS(d()))
        throw SkipOp("field " + f);
    }
    if (sub == "mod") {
        auto* sh = dynamic_cast<ShuntCompensator*>(&o);
        need(sh != nullptr, "no shunt");
        if (sh->getModelType() == ShuntCompensatorModelType::LINEAR) {
            need(f != "secb" && f != "secg", "linear");
            auto& m = sh->getModel<ShuntCompensatorLinearModel>();
            SETV("bps", m.setBPerSection(d())) SETV("gps", m.setGPerSection(d())) SETV("max", m.setMaximumSectionCount(u()))
        } else {
            need(f == "secb" || f == "secg", "non linear");
            auto& m = sh->getModel<ShuntCompensatorNonLinearModel>();
            long i = 0, at = static_cast<long>(I(ev, "at"));
            for (auto& sec : m.getAllSections()) {
                if (++i == at) { if (f == "secb") sec.setB(d()); else sec.setG(d()); return; }
            }
            throw NilOp("no section");
        }
        throw SkipOp("field " + f);
    }
    need(sub.empty(), "unknown sub " + sub);
    SETV("fic", o.setFictitious(b()))
    if (auto* c = dynamic_cast<Network*>(&o)) {
        SETV("fd", c->setForecastDistance(static_cast<int>(l())))
        SETV("date", c->setCaseDate(stdcxx::DateTime::parse(ev.at("dt").as_array().empty() ? s() : dateText(ev.at("dt").as_array()))))
    } else if (auto* c = dynamic_cast<Substation*>(&o)) {
        SETV("tso", c->setTso(s())) SETV("tag", c->addGeographicalTag(s()))
        if (f == "country") { if (s().empty()) c->setCountry(stdcxx::optional<Country>()); else c->setCountry(en<Country>(s())); return; }
    } else if (auto* c = dynamic_cast<VoltageLevel*>(&o)) {
        SETV("nv", c->setNominalV(d())) SETV("lo", c->setLowVoltageLimit(d())) SETV("hi", c->setHighVoltageLimit(d()))
    } else if (auto* c = dynamic_cast<Bus*>(&o)) {
        SETV("v", c->setV(d())) SETV("ang", c->setAngle(d()))
    } else if (auto* c = dynamic_cast<Switch*>(&o)) {
        SETV("open", c->setOpen(b())) SETV("ret", c->setRetained(b()))
    } else if (auto* c = dynamic_cast<Load*>(&o)) {
        SETV("p0", c->setP0(d())) SETV("q0", c->setQ0(d())) SETV("lt", c->setLoadType(en<LoadType>(s())))
    } else if (auto* c = dynamic_cast<Generator*>(&o)) {
        SETV("minP", c->setMinP(d())) SETV("maxP", c->setMaxP(d())) SETV("rs", c->setRatedS(d())) SETV("es", c->setEnergySource(en<EnergySource>(s())))
        SETV("tp", c->setTargetP(d())) SETV("tq", c->setTargetQ(d())) SETV("tv", c->setTargetV(d())) SETV("on", c->setVoltageRegulatorOn(b()))
        SETV("rt", c->setRegulatingTerminal(w.termRef(s())))
    } else if (auto* c = dynamic_cast<Battery*>(&o)) {
        SETV("minP", c->setMinP(d())) SETV("maxP", c->setMaxP(d())) SETV("p0", c->setP0(d())) SETV("q0", c->setQ0(d()))
    } else if (auto* c = dynamic_cast<ShuntCompensator*>(&o)) {
        SETV("n", c->setSectionCount(u())) SETV("on", c->setVoltageRegulatorOn(b())) SETV("tv", c->setTargetV(d())) SETV("db", c->setTargetDeadband(d()))
        SETV("rt", c->setRegulatingTerminal(w.termRef(s())))
    } else if (auto* c = dynamic_cast<StaticVarCompensator*>(&o)) {
        SETV("bmin", c->setBmin(d())) SETV("bmax", c->setBmax(d())) SETV("vs", c->setVoltageSetpoint(d())) SETV("qs", c->setReactivePowerSetpoint(d()))
        SETV("mode", c->setRegulationMode(en<StaticVarCompensator::RegulationMode>(s()))) SETV("rt", c->setRegulatingTerminal(w.termRef(s())))
    } else if (auto* c = dynamic_cast<DanglingLine*>(&o)) {
        SETV("p0", c->setP0(d())) SETV("q0", c->setQ0(d())) SETV("r", c->setR(d())) SETV("x", c->setX(d())) SETV("g", c->setG(d())) SETV("b", c->setB(d()))
    } else if (auto* c = dynamic_cast<LccConverterStation*>(&o)) {
        SETV("loss", c->setLossFactor(d())) SETV("pf", c->setPowerFactor(d()))
    } else if (auto* c = dynamic_cast<VscConverterStation*>(&o)) {
        SETV("loss", c->setLossFactor(d())) SETV("on", c->setVoltageRegulatorOn(b())) SETV("tv", c->setVoltageSetpoint(d())) SETV("tq", c->setReactivePowerSetpoint(d()))
    } else if (auto* c = dynamic_cast<HvdcLine*>(&o)) {
        SETV("r", c->setR(d())) SETV("nv", c->setNominalV(d())) SETV("maxP", c->setMaxP(d())) SETV("p", c->setActivePowerSetpoint(d()))
        SETV("mode", c->setConvertersMode(en<HvdcLine::ConvertersMode>(s())))
    } else if (auto* c = dynamic_cast<Line*>(&o)) {
        SETV("r", c->setR(d())) SETV("x", c->setX(d())) SETV("g1", c->setG1(d())) SETV("g2", c->setG2(d())) SETV("b1", c->setB1(d())) SETV("b2", c->setB2(d()))
    } else if (auto* c = dynamic_cast<TwoWindingsTransformer*>(&o)) {
        SETV("r", c->setR(d())) SETV("x", c->setX(d())) SETV("g", c->setG(d())) SETV("b", c->setB(d())) SETV("ru1", c->setRatedU1(d())) SETV("ru2", c->setRatedU2(d()))
        SETV("rs", c->setRatedS(d()))
    }
    throw NilOp("no field " + f);
}

// the variant operations need an initialiser list: build one of the requested size
template <typename F> void withList(const std::vector<std::string>& v, F f) {
    switch (v.size()) {
        case 0: f(std::initializer_list<std::string>{}); break;
        case 1: f({v[0]}); break;
        case 2: f({v[0], v[1]}); break;
        default: f({v[0], v[1], v[2]}); break;
    }
}

js::value execute(World& w, const js::object& ev) {
    const std::string op = S(ev, "op");
    if (op == "reset") { w.reset(); return ""; }
    if (op == "obs") return "";
    bool handled = false;
    js::value r = executePersist(w, ev, handled);
    if (handled) return r;
    r = executeQuery(w, ev, handled);
    if (handled) return r;
    Network& n = w.n();
    if (op == "vclone") {
        std::vector<std::string> t;
        for (const auto& v : ev.at("tgts").as_array()) t.emplace_back(v.as_string().c_str());
        if (t.size() == 1 && B(ev, "single")) { n.getVariantManager().cloneVariant(S(ev, "src"), t[0], B(ev, "ow")); return ""; }
        withList(t, [&](std::initializer_list<std::string> l) { n.getVariantManager().cloneVariant(S(ev, "src"), l, B(ev, "ow")); });
        return "";
    }
    if (op == "vremove") { n.getVariantManager().removeVariant(S(ev, "v")); return ""; }
    if (op == "vselect") { n.getVariantManager().setWorkingVariant(S(ev, "v")); return ""; }
    if (op == "vmt") { n.getVariantManager().allowVariantMultiThreadAccess(B(ev, "on")); return ""; }
    if (op == "add") return js::value(addObject(w, ev));
    if (op == "addtc") { addTapChanger(w, ev, S(ev, "k") == "RTC"); return ""; }
    if (op == "addlim") { addLimits(w, ev); return ""; }
    if (op == "addrl") { addReactiveLimits(w, ev); return ""; }
    if (op == "set") { setAttr(w, ev); return ""; }
    if (op == "tset") {
        Terminal& t = w.term(S(ev, "t"));
        if (S(ev, "f") == "p") t.setP(D(ev, "x")); else t.setQ(D(ev, "x"));
        return "";
    }
    if (op == "con") return js::value(w.term(S(ev, "t")).connect());
    if (op == "dis") return js::value(w.term(S(ev, "t")).disconnect());
    if (op == "busv") {
        VoltageLevel& vl = must<VoltageLevel>(w, S(ev, "vl"));
        stdcxx::Reference<Bus> b = S(ev, "view") == "bv" ? vl.getBusView().getBus(S(ev, "bus")) : vl.getBusBreakerView().getBus(S(ev, "bus"));
        if (!b) throw NilOp("no such bus");
        if (S(ev, "f") == "v") b.get().setV(D(ev, "x")); else b.get().setAngle(D(ev, "x"));
        return "";
    }
    if (op == "setcb") { w.term(S(ev, "t")).getBusBreakerView().setConnectableBus(S(ev, "bus")); return ""; }
    if (op == "alias") {
        Identifiable& o = must<Identifiable>(w, S(ev, "id"));
        const std::string ty = S(ev, "ty");
        if (ty.empty()) o.addAlias(S(ev, "al"), B(ev, "uniq")); else o.addAlias(S(ev, "al"), ty, B(ev, "uniq"));
        return "";
    }
    if (op == "rmalias") { must<Identifiable>(w, S(ev, "id")).removeAlias(S(ev, "al")); return ""; }
    if (op == "prop") {
        auto old = must<Identifiable>(w, S(ev, "id")).setProperty(S(ev, "key"), S(ev, "x"));
        return js::value(old ? *old : std::string(""));
    }
    if (op == "rm") {
        std::string owner, sub;
        int num;
        splitSub(S(ev, "id"), owner, sub, num);
        Identifiable& o = must<Identifiable>(w, owner);
        if (sub == "rtc") { auto* h = rtcHolder(o, num); need(h && h->hasRatioTapChanger(), "no rtc"); h->getRatioTapChanger().remove(); return ""; }
        if (sub == "ptc") { auto* h = ptcHolder(o, num); need(h && h->hasPhaseTapChanger(), "no ptc"); h->getPhaseTapChanger().remove(); return ""; }
        if (sub.compare(0, 3, "lim") == 0) { auto* l = limitsOfSub(w, o, sub); need(l != nullptr, "no limits"); l->remove(); return ""; }
        need(sub.empty(), "unknown sub");
        if (auto* c = dynamic_cast<Connectable*>(&o)) { c->remove(); return ""; }
        if (auto* c = dynamic_cast<HvdcLine*>(&o)) { c->remove(); return ""; }
        if (auto* c = dynamic_cast<VoltageLevel*>(&o)) { c->remove(); return ""; }
        if (auto* c = dynamic_cast<Substation*>(&o)) { c->remove(); return ""; }
        throw NilOp("not removable");
    }
    if (op == "rmsw") {
        VoltageLevel& vl = must<VoltageLevel>(w, S(ev, "vl"));
        if (vl.getTopologyKind() == TopologyKind::BUS_BREAKER) vl.getBusBreakerView().removeSwitch(S(ev, "id"));
        else vl.getNodeBreakerView().removeSwitch(S(ev, "id"));
        return "";
    }
    if (op == "rmallsw") { must<VoltageLevel>(w, S(ev, "vl")).getBusBreakerView().removeAllSwitches(); return ""; }
    if (op == "rmbus") { must<VoltageLevel>(w, S(ev, "vl")).getBusBreakerView().removeBus(S(ev, "id")); return ""; }
    if (op == "rmallbus") { must<VoltageLevel>(w, S(ev, "vl")).getBusBreakerView().removeAllBuses(); return ""; }
    if (op == "rmic") {
        must<VoltageLevel>(w, S(ev, "vl")).getNodeBreakerView().removeInternalConnections(static_cast<unsigned long>(I(ev, "n1")), static_cast<unsigned long>(I(ev, "n2")));
        return "";
    }
    if (op == "extadd") return addExtension(w, ev);
    if (op == "extset") return setExtension(w, ev);
    if (op == "extrm") return removeExtension(w, ev);
    if (op == "move") {
        std::unique_ptr<Network> other(new Network(std::move(*w.net)));
        w.net = std::move(other);
        return "";
    }
    throw SkipOp("unknown op " + op);
}
}

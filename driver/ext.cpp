// Extensions: creation, modification, removal and projection.
#include "world.hpp"
#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/ExtensionProviders.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/converter/xml/ExtensionXmlSerializer.hpp>
#include <powsybl/iidm/extensions/LoadDetail.hpp>
#include <powsybl/iidm/extensions/LoadDetailAdder.hpp>
#include <powsybl/iidm/extensions/SlackTerminal.hpp>
#include <powsybl/iidm/extensions/SlackTerminalAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeArea.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeAreaAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/EntsoeAreaXmlSerializer.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnode.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnodeAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/MergedXnodeXmlSerializer.hpp>
#include <powsybl/iidm/extensions/entsoe/Xnode.hpp>
#include <powsybl/iidm/extensions/entsoe/XnodeAdder.hpp>
#include <powsybl/iidm/extensions/entsoe/XnodeXmlSerializer.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ActivePowerControlXmlSerializer.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControl.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/CoordinatedReactiveControlXmlSerializer.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurement.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurements.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/DiscreteMeasurementsXmlSerializer.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcAngleDroopActivePowerControlXmlSerializer.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRange.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRangeAdder.hpp>
#include <powsybl/iidm/extensions/iidm/HvdcOperatorActivePowerRangeXmlSerializer.hpp>
#include <powsybl/iidm/extensions/iidm/Measurement.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementAdder.hpp>
#include <powsybl/iidm/extensions/iidm/Measurements.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementsAdder.hpp>
#include <powsybl/iidm/extensions/iidm/MeasurementsXmlSerializer.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/RemoteReactivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClockAdder.hpp>
#include <powsybl/iidm/extensions/iidm/ThreeWindingsTransformerPhaseAngleClockXmlSerializer.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClock.hpp>
#define TwtClockAdderIncluded
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClockXmlSerializer.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControl.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControlAdder.hpp>
#include <powsybl/iidm/extensions/iidm/VoltagePerReactivePowerControlXmlSerializer.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatus.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatusAdder.hpp>
#include <powsybl/iidm/extensions/sld/BranchStatusXmlSerializer.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPosition.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPositionAdder.hpp>
#include <powsybl/iidm/extensions/sld/BusbarSectionPositionXmlSerializer.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePosition.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePositionAdder.hpp>
#include <powsybl/iidm/extensions/sld/ConnectablePositionXmlSerializer.hpp>
#include <powsybl/stdcxx/make_unique.hpp>

namespace drv {
using namespace powsybl::iidm;
namespace xe = powsybl::iidm::extensions;
namespace xs = powsybl::iidm::extensions::sld;
namespace xi = powsybl::iidm::extensions::iidm;
namespace xn = powsybl::iidm::extensions::entsoe;
template <typename E> static E en(const std::string& s) { return powsybl::iidm::Enum::fromString<E>(s); }
void addTwtClock(Identifiable& o, bool set, unsigned long v);

template <typename T> static void reg() {
    ExtensionProviders<converter::xml::ExtensionXmlSerializer>::getInstance().registerExtension(stdcxx::make_unique<T>());
}
void registerSerializers() {
    reg<xs::BranchStatusXmlSerializer>();
    reg<xs::BusbarSectionPositionXmlSerializer>();
    reg<xs::ConnectablePositionXmlSerializer>();
    reg<xi::ActivePowerControlXmlSerializer>();
    reg<xi::CoordinatedReactiveControlXmlSerializer>();
    reg<xi::DiscreteMeasurementsXmlSerializer>();
    reg<xi::HvdcAngleDroopActivePowerControlXmlSerializer>();
    reg<xi::HvdcOperatorActivePowerRangeXmlSerializer>();
    reg<xi::MeasurementsXmlSerializer>();
    reg<xi::ThreeWindingsTransformerPhaseAngleClockXmlSerializer>();
    reg<xi::TwoWindingsTransformerPhaseAngleClockXmlSerializer>();
    reg<xi::VoltagePerReactivePowerControlXmlSerializer>();
    reg<xn::EntsoeAreaXmlSerializer>();
    reg<xn::MergedXnodeXmlSerializer>();
    reg<xn::XnodeXmlSerializer>();
}

static Identifiable& target(World& w, const js::object& ev) {
    auto r = w.n().find<Identifiable>(S(ev, "id"));
    if (!r) throw NilOp("no such object");
    return r.get();
}

#define HASX(k) a.contains(k)
#define XD(m, k) if (HASX(k)) ad.m(D(a, k))
#define XB(m, k) if (HASX(k)) ad.m(B(a, k))
#define XS(m, k) if (HASX(k)) ad.m(S(a, k))
#define XU(m, k) if (HASX(k)) ad.m(static_cast<unsigned long>(I(a, k)))

js::value addExtension(World& w, const js::object& ev) {
    Identifiable& o = target(w, ev);
    const std::string n = S(ev, "xn");
    const js::object& a = ev.at("a").as_object();
    if (n == "detail") {
        auto ad = o.newExtension<xe::LoadDetailAdder>();
        XD(withFixedActivePower, "fp"); XD(withFixedReactivePower, "fq"); XD(withVariableActivePower, "vp"); XD(withVariableReactivePower, "vq");
        ad.add();
    } else if (n == "slackTerminal") {
        auto ad = o.newExtension<xe::SlackTerminalAdder>();
        if (HASX("t")) ad.withTerminal(w.term(S(a, "t")));
        ad.add();
    } else if (n == "branchStatus") {
        auto ad = o.newExtension<xs::BranchStatusAdder>();
        if (HASX("status")) ad.withStatus(en<xs::BranchStatus::Status>(S(a, "status")));
        ad.add();
    } else if (n == "busbarSectionPosition") {
        auto ad = o.newExtension<xs::BusbarSectionPositionAdder>();
        XU(withBusbarIndex, "bi"); XU(withSectionIndex, "si");
        ad.add();
    } else if (n == "position") {
        auto ad = o.newExtension<xs::ConnectablePositionAdder>();
        for (const char* k : {"f0", "f1", "f2", "f3"}) {
            if (!HASX(k)) continue;
            const js::object& f = a.at(k).as_object();
            auto fa = k[1] == '0' ? ad.newFeeder() : (k[1] == '1' ? ad.newFeeder1() : (k[1] == '2' ? ad.newFeeder2() : ad.newFeeder3()));
            fa.withName(S(f, "nm")).withOrder(static_cast<unsigned long>(I(f, "o"))).withDirection(en<xs::ConnectablePosition::Direction>(S(f, "d"))).add();
        }
        ad.add();
    } else if (n == "activePowerControl") {
        auto ad = o.newExtension<xi::ActivePowerControlAdder>();
        XB(withParticipate, "part"); XD(withDroop, "droop");
        ad.add();
    } else if (n == "coordinatedReactiveControl") {
        auto ad = o.newExtension<xi::CoordinatedReactiveControlAdder>();
        XD(withQPercent, "qp");
        ad.add();
    } else if (n == "hvdcAngleDroopActivePowerControl") {
        auto ad = o.newExtension<xi::HvdcAngleDroopActivePowerControlAdder>();
        XD(withP0, "p0"); XD(withDroop, "droop"); XB(withEnabled, "en");
        ad.add();
    } else if (n == "hvdcOperatorActivePowerRange") {
        auto ad = o.newExtension<xi::HvdcOperatorActivePowerRangeAdder>();
        XD(withOprFromCS1toCS2, "o12"); XD(withOprFromCS2toCS1, "o21");
        ad.add();
    } else if (n == "generatorRemoteReactivePowerControl") {
        auto ad = o.newExtension<xi::RemoteReactivePowerControlAdder>();
        XD(withTargetQ, "tq"); XB(withEnabled, "en");
        if (HASX("t")) ad.withRegulatingTerminal(w.term(S(a, "t")));
        ad.add();
    } else if (n == "twoWindingsTransformerPhaseAngleClock") {
        addTwtClock(o, HASX("pac"), HASX("pac") ? static_cast<unsigned long>(I(a, "pac")) : 0UL);
    } else if (n == "threeWindingsTransformerPhaseAngleClock") {
        auto ad = o.newExtension<xi::ThreeWindingsTransformerPhaseAngleClockAdder>();
        XU(withPhaseAngleClockLeg2, "l2"); XU(withPhaseAngleClockLeg3, "l3");
        ad.add();
    } else if (n == "voltagePerReactivePowerControl") {
        auto ad = o.newExtension<xi::VoltagePerReactivePowerControlAdder>();
        XD(withSlope, "slope");
        ad.add();
    } else if (n == "entsoeArea") {
        auto ad = o.newExtension<xn::EntsoeAreaAdder>();
        if (HASX("code")) ad.withCode(en<xn::EntsoeGeographicalCode>(S(a, "code")));
        ad.add();
    } else if (n == "mergedXnode") {
        auto ad = o.newExtension<xn::MergedXnodeAdder>();
        XD(withRdp, "rdp"); XD(withXdp, "xdp"); XD(withXnodeP1, "p1"); XD(withXnodeQ1, "q1"); XD(withXnodeP2, "p2"); XD(withXnodeQ2, "q2");
        XS(withLine1Name, "l1"); XS(withLine2Name, "l2"); XS(withCode, "code");
        ad.add();
    } else if (n == "xnode") {
        auto ad = o.newExtension<xn::XnodeAdder>();
        XS(withCode, "code");
        ad.add();
    } else if (n == "measurements") {
        o.newExtension<xi::MeasurementsAdder>().add();
    } else if (n == "discreteMeasurements") {
        o.newExtension<xi::DiscreteMeasurementsAdder>().add();
    } else throw SkipOp("unknown extension " + n);
    return "";
}

template <typename E> static E& get(Identifiable& o) {
    auto r = o.findExtension<E>();
    if (!r) throw NilOp("no such extension");
    return r.get();
}

#define XSET(key, call) if (f == key) { call; return ""; }

js::value setExtension(World& w, const js::object& ev) {
    Identifiable& o = target(w, ev);
    const std::string n = S(ev, "xn"), f = S(ev, "f");
    auto d = [&]() { return D(ev, "x"); };
    auto b = [&]() { return B(ev, "x"); };
    auto s = [&]() { return S(ev, "x"); };
    auto u = [&]() { return static_cast<unsigned long>(I(ev, "x")); };
    if (n == "detail") {
        auto& x = get<xe::LoadDetail>(o);
        XSET("fp", x.setFixedActivePower(d())) XSET("fq", x.setFixedReactivePower(d())) XSET("vp", x.setVariableActivePower(d())) XSET("vq", x.setVariableReactivePower(d()))
    } else if (n == "slackTerminal") {
        auto& x = get<xe::SlackTerminal>(o);
        XSET("t", x.setTerminal(w.termRef(s()))) XSET("tc", x.setTerminal(w.termRef(s()), true))
    } else if (n == "slackAttach") {
        auto t = w.termRef(s());
        if (!t) throw NilOp("no terminal");
        auto bus = f == "bv" ? t.get().getBusView().getBus() : t.get().getBusBreakerView().getBus();
        if (!bus) throw NilOp("no bus");
        xe::SlackTerminal::attach(bus.get());
        return js::value(w.refOf(&t.get().getVoltageLevel().getExtension<xe::SlackTerminal>().getTerminal().get()));
    } else if (n == "slackNone") {
        xe::SlackTerminal::reset(w.n());
        return "";
    } else if (n == "slackReset") {
        auto* vl = dynamic_cast<VoltageLevel*>(&o);
        if (vl == nullptr) throw NilOp("no voltage level");
        xe::SlackTerminal::reset(*vl, w.termRef(s()));
        return "";
    } else if (n == "branchStatus") {
        auto& x = get<xs::BranchStatus>(o);
        XSET("status", x.setStatus(en<xs::BranchStatus::Status>(s())))
    } else if (n == "busbarSectionPosition") {
        auto& x = get<xs::BusbarSectionPosition>(o);
        XSET("bi", x.setBusbarIndex(u())) XSET("si", x.setSectionIndex(u()))
    } else if (n == "position") {
        auto& x = get<xs::ConnectablePosition>(o);
        auto fd = f[1] == '0' ? x.getFeeder() : (f[1] == '1' ? x.getFeeder1() : (f[1] == '2' ? x.getFeeder2() : x.getFeeder3()));
        if (!fd) throw NilOp("no feeder");
        const std::string c = S(ev, "c");
        if (c == "nm") fd.get().setName(s()); else if (c == "o") fd.get().setOrder(u()); else fd.get().setDirection(en<xs::ConnectablePosition::Direction>(s()));
        return "";
    } else if (n == "activePowerControl") {
        auto& x = get<xi::ActivePowerControl>(o);
        XSET("part", x.setParticipate(b())) XSET("droop", x.setDroop(d()))
    } else if (n == "coordinatedReactiveControl") {
        auto& x = get<xi::CoordinatedReactiveControl>(o);
        XSET("qp", x.setQPercent(d()))
    } else if (n == "hvdcAngleDroopActivePowerControl") {
        auto& x = get<xi::HvdcAngleDroopActivePowerControl>(o);
        XSET("p0", x.setP0(d())) XSET("droop", x.setDroop(d())) XSET("en", x.setEnabled(b()))
    } else if (n == "hvdcOperatorActivePowerRange") {
        auto& x = get<xi::HvdcOperatorActivePowerRange>(o);
        XSET("o12", x.setOprFromCS1toCS2(d())) XSET("o21", x.setOprFromCS2toCS1(d()))
    } else if (n == "twoWindingsTransformerPhaseAngleClock") {
        auto& x = get<xi::TwoWindingsTransformerPhaseAngleClock>(o);
        XSET("pac", x.setPhaseAngleClock(u()))
    } else if (n == "threeWindingsTransformerPhaseAngleClock") {
        auto& x = get<xi::ThreeWindingsTransformerPhaseAngleClock>(o);
        XSET("l2", x.setPhaseAngleClockLeg2(u())) XSET("l3", x.setPhaseAngleClockLeg3(u()))
    } else if (n == "voltagePerReactivePowerControl") {
        auto& x = get<xi::VoltagePerReactivePowerControl>(o);
        XSET("slope", x.setSlope(d()))
    } else if (n == "entsoeArea") {
        auto& x = get<xn::EntsoeArea>(o);
        XSET("code", x.setCode(en<xn::EntsoeGeographicalCode>(s())))
    } else if (n == "mergedXnode") {
        auto& x = get<xn::MergedXnode>(o);
        XSET("rdp", x.setRdp(d())) XSET("xdp", x.setXdp(d())) XSET("p1", x.setXnodeP1(d())) XSET("q1", x.setXnodeQ1(d())) XSET("p2", x.setXnodeP2(d())) XSET("q2", x.setXnodeQ2(d()))
        XSET("l1", x.setLine1Name(s())) XSET("l2", x.setLine2Name(s())) XSET("code", x.setCode(s()))
    } else if (n == "xnode") {
        auto& x = get<xn::Xnode>(o);
        XSET("code", x.setCode(s()))
    } else if (n == "measurements") {
        auto& x = get<xi::Measurements>(o);
        const std::string mid = S(ev, "mid");
        if (f == "new") {
            const js::object& a = ev.at("a").as_object();
            auto ad = x.newMeasurement();
            ad.setId(mid);
            if (HASX("type")) ad.setType(en<xi::Measurement::Type>(S(a, "type")));
            if (HASX("side")) ad.setSide(en<xi::Measurement::Side>(S(a, "side")));
            XD(setValue, "value"); XD(setStandardDeviation, "sd"); XB(setValid, "valid");
            if (HASX("pk")) ad.putProperty(S(a, "pk"), S(a, "pv"));
            ad.add();
            return "";
        }
        XSET("clean", x.cleanIfEmpty())
        auto m = x.getMeasurement(mid);
        if (!m) throw NilOp("no measurement");
        XSET("rm", m.get().remove()) XSET("value", m.get().setValue(d())) XSET("sd", m.get().setStandardDeviation(d())) XSET("valid", m.get().setValid(b()))
        XSET("prop", m.get().putProperty(S(ev, "c"), s())) XSET("rmprop", m.get().removeProperty(S(ev, "c")))
    } else if (n == "discreteMeasurements") {
        auto& x = get<xi::DiscreteMeasurements>(o);
        const std::string mid = S(ev, "mid");
        if (f == "new") {
            const js::object& a = ev.at("a").as_object();
            auto ad = x.newDiscreteMeasurement();
            ad.setId(mid);
            if (HASX("type")) ad.setType(en<xi::DiscreteMeasurement::Type>(S(a, "type")));
            if (HASX("tc")) ad.setTapChanger(en<xi::DiscreteMeasurement::TapChanger>(S(a, "tc")));
            if (HASX("vt")) {
                const std::string vt = S(a, "vt"), vx = S(a, "vx");
                if (vt == "BOOLEAN") ad.setValue(vx == "true"); else if (vt == "INT") ad.setValue(std::stoi(vx)); else ad.setValue(vx);
            }
            XB(setValid, "valid");
            if (HASX("pk")) ad.putProperty(S(a, "pk"), S(a, "pv"));
            ad.add();
            return "";
        }
        XSET("clean", x.cleanIfEmpty())
        auto m = x.getDiscreteMeasurement(mid);
        if (!m) throw NilOp("no measurement");
        if (f == "value") {
            const std::string vt = S(ev, "vt"), vx = S(ev, "vx");
            if (vt == "BOOLEAN") m.get().setValue(vx == "true"); else if (vt == "INT") m.get().setValue(std::stoi(vx)); else m.get().setValue(vx);
            return "";
        }
        XSET("rm", m.get().remove()) XSET("valid", m.get().setValid(b()))
        XSET("prop", m.get().putProperty(S(ev, "c"), s())) XSET("rmprop", m.get().removeProperty(S(ev, "c")))
    }
    throw NilOp("no field " + n + "." + f);
}

template <typename E> static js::value rm(Identifiable& o) {
    if (!o.findExtension<E>()) throw NilOp("no such extension");
    o.removeExtension<E>();
    return "";
}
js::value removeExtension(World& w, const js::object& ev) {
    Identifiable& o = target(w, ev);
    const std::string n = S(ev, "xn");
    if (n == "detail") return rm<xe::LoadDetail>(o);
    if (n == "slackTerminal") return rm<xe::SlackTerminal>(o);
    if (n == "branchStatus") return rm<xs::BranchStatus>(o);
    if (n == "busbarSectionPosition") return rm<xs::BusbarSectionPosition>(o);
    if (n == "position") return rm<xs::ConnectablePosition>(o);
    if (n == "activePowerControl") return rm<xi::ActivePowerControl>(o);
    if (n == "coordinatedReactiveControl") return rm<xi::CoordinatedReactiveControl>(o);
    if (n == "hvdcAngleDroopActivePowerControl") return rm<xi::HvdcAngleDroopActivePowerControl>(o);
    if (n == "hvdcOperatorActivePowerRange") return rm<xi::HvdcOperatorActivePowerRange>(o);
    if (n == "generatorRemoteReactivePowerControl") return rm<xi::RemoteReactivePowerControl>(o);
    if (n == "twoWindingsTransformerPhaseAngleClock") return rm<xi::TwoWindingsTransformerPhaseAngleClock>(o);
    if (n == "threeWindingsTransformerPhaseAngleClock") return rm<xi::ThreeWindingsTransformerPhaseAngleClock>(o);
    if (n == "voltagePerReactivePowerControl") return rm<xi::VoltagePerReactivePowerControl>(o);
    if (n == "entsoeArea") return rm<xn::EntsoeArea>(o);
    if (n == "mergedXnode") return rm<xn::MergedXnode>(o);
    if (n == "xnode") return rm<xn::Xnode>(o);
    if (n == "measurements") return rm<xi::Measurements>(o);
    if (n == "discreteMeasurements") return rm<xi::DiscreteMeasurements>(o);
    throw SkipOp("unknown extension " + n);
}

template <typename E> static bool typed(Identifiable& o, const Extension& e) {
    return static_cast<bool>(o.findExtension<E>()) && static_cast<const Extension*>(&o.findExtension<E>().get()) == &e
        && static_cast<bool>(o.getExtensionByName<E>(e.getName())) && static_cast<const Extension*>(&o.getExtensionByName<E>(e.getName()).get()) == &e;
}

// the listings by type and the search by identifier agree with the listing of everything, in both versions
template <typename X, typename M, typename All, typename ByType, typename ById>
static bool listed(X& x, const std::set<typename M::Type>& types, All all, ByType byType, ById byId) {
    const X& c = x;
    bool ok = true;
    std::vector<const M*> both[2];
    for (const M& m : all(x)) both[0].push_back(&m);
    for (const M& m : all(c)) both[1].push_back(&m);
    ok = both[0] == both[1];
    for (typename M::Type t : types) {
        std::vector<const M*> want, here, there;
        for (const M* m : both[0]) if (m->getType() == t) want.push_back(m);
        for (const M& m : byType(x, t)) here.push_back(&m);
        for (const M& m : byType(c, t)) there.push_back(&m);
        ok = ok && want == here && want == there;
    }
    std::set<std::string> seen;
    for (const M* m : both[0]) {
        if (!seen.insert(m->getId()).second) continue;
        ok = ok && byId(x, m->getId()) && &byId(x, m->getId()).get() == m && byId(c, m->getId()) && &byId(c, m->getId()).get() == m;
    }
    return ok && !byId(x, "no such measurement") && !byId(c, "no such measurement");
}
struct AllM { template <typename X> auto operator()(X& x) const -> decltype(x.getMeasurements()) { return x.getMeasurements(); } };
struct TypeM { template <typename X> auto operator()(X& x, xi::Measurement::Type t) const -> decltype(x.getMeasurements(t)) { return x.getMeasurements(t); } };
struct IdM { template <typename X> auto operator()(X& x, const std::string& i) const -> decltype(x.getMeasurement(i)) { return x.getMeasurement(i); } };
struct AllD { template <typename X> auto operator()(X& x) const -> decltype(x.getDiscreteMeasurements()) { return x.getDiscreteMeasurements(); } };
struct TypeD { template <typename X> auto operator()(X& x, xi::DiscreteMeasurement::Type t) const -> decltype(x.getDiscreteMeasurements(t)) { return x.getDiscreteMeasurements(t); } };
struct IdD { template <typename X> auto operator()(X& x, const std::string& i) const -> decltype(x.getDiscreteMeasurement(i)) { return x.getDiscreteMeasurement(i); } };

void projectExtensions(World& w, Identifiable& o, js::object* st, js::object* dy) {
    int count = 0;
    for (Extension& e : o.getExtensions()) {
        ++count;
        const std::string n = e.getName();
        js::object s, d;
        s["k"] = "EXT";
        s["xn"] = n;
        s["own"] = static_cast<bool>(e.getExtendable<Extendable>()) && &e.getExtendable<Extendable>().get() == static_cast<Extendable*>(&o);
        bool ty = true;
        if (auto* x = dynamic_cast<xe::LoadDetail*>(&e)) {
            ty = typed<xe::LoadDetail>(o, e);
            if (dy) { d["fp"] = enc(x->getFixedActivePower()); d["fq"] = enc(x->getFixedReactivePower()); d["vp"] = enc(x->getVariableActivePower()); d["vq"] = enc(x->getVariableReactivePower()); }
        } else if (auto* x = dynamic_cast<xe::SlackTerminal*>(&e)) {
            ty = typed<xe::SlackTerminal>(o, e);
            if (dy) { auto t = x->getTerminal(); d["t"] = t ? w.refOf(&t.get()) : std::string(); }
            s["empty"] = x->isEmpty();
        } else if (auto* x = dynamic_cast<xs::BranchStatus*>(&e)) {
            ty = typed<xs::BranchStatus>(o, e); s["status"] = enumName(x->getStatus());
        } else if (auto* x = dynamic_cast<xs::BusbarSectionPosition*>(&e)) {
            ty = typed<xs::BusbarSectionPosition>(o, e); s["bi"] = static_cast<int64_t>(x->getBusbarIndex()); s["si"] = static_cast<int64_t>(x->getSectionIndex());
        } else if (auto* x = dynamic_cast<xs::ConnectablePosition*>(&e)) {
            ty = typed<xs::ConnectablePosition>(o, e);
            int i = 0;
            for (auto fd : {x->getFeeder(), x->getFeeder1(), x->getFeeder2(), x->getFeeder3()}) {
                if (fd) {
                    js::object q;
                    q["nm"] = fd.get().getName(); q["o"] = static_cast<int64_t>(fd.get().getOrder());
                    q["d"] = powsybl::iidm::Enum::toString(fd.get().getDirection());
                    s["f" + std::to_string(i)] = q;
                }
                ++i;
            }
        } else if (auto* x = dynamic_cast<xi::ActivePowerControl*>(&e)) {
            ty = typed<xi::ActivePowerControl>(o, e); s["part"] = x->isParticipate(); s["droop"] = enc(x->getDroop());
        } else if (auto* x = dynamic_cast<xi::CoordinatedReactiveControl*>(&e)) {
            ty = typed<xi::CoordinatedReactiveControl>(o, e); s["qp"] = enc(x->getQPercent());
        } else if (auto* x = dynamic_cast<xi::HvdcAngleDroopActivePowerControl*>(&e)) {
            ty = typed<xi::HvdcAngleDroopActivePowerControl>(o, e); s["p0"] = enc(x->getP0()); s["droop"] = enc(x->getDroop()); s["en"] = x->isEnabled();
        } else if (auto* x = dynamic_cast<xi::HvdcOperatorActivePowerRange*>(&e)) {
            ty = typed<xi::HvdcOperatorActivePowerRange>(o, e); s["o12"] = enc(x->getOprFromCS1toCS2()); s["o21"] = enc(x->getOprFromCS2toCS1());
        } else if (auto* x = dynamic_cast<xi::RemoteReactivePowerControl*>(&e)) {
            ty = typed<xi::RemoteReactivePowerControl>(o, e); s["tq"] = enc(x->getTargetQ()); s["en"] = x->isEnabled(); s["t"] = &static_cast<const xi::RemoteReactivePowerControl*>(x)->getRegulatingTerminal() == &x->getRegulatingTerminal() ? w.refOf(&x->getRegulatingTerminal()) : std::string("CONSTDIFF");
        } else if (auto* x = dynamic_cast<xi::TwoWindingsTransformerPhaseAngleClock*>(&e)) {
            ty = typed<xi::TwoWindingsTransformerPhaseAngleClock>(o, e); s["pac"] = static_cast<int64_t>(x->getPhaseAngleClock());
        } else if (auto* x = dynamic_cast<xi::ThreeWindingsTransformerPhaseAngleClock*>(&e)) {
            ty = typed<xi::ThreeWindingsTransformerPhaseAngleClock>(o, e); s["l2"] = static_cast<int64_t>(x->getPhaseAngleClockLeg2()); s["l3"] = static_cast<int64_t>(x->getPhaseAngleClockLeg3());
        } else if (auto* x = dynamic_cast<xi::VoltagePerReactivePowerControl*>(&e)) {
            ty = typed<xi::VoltagePerReactivePowerControl>(o, e); s["slope"] = enc(x->getSlope());
        } else if (auto* x = dynamic_cast<xn::EntsoeArea*>(&e)) {
            ty = typed<xn::EntsoeArea>(o, e); s["code"] = powsybl::iidm::Enum::toString(x->getCode());
        } else if (auto* x = dynamic_cast<xn::MergedXnode*>(&e)) {
            ty = typed<xn::MergedXnode>(o, e);
            s["rdp"] = enc(x->getRdp()); s["xdp"] = enc(x->getXdp()); s["p1"] = enc(x->getXnodeP1()); s["q1"] = enc(x->getXnodeQ1()); s["p2"] = enc(x->getXnodeP2()); s["q2"] = enc(x->getXnodeQ2());
            s["l1"] = x->getLine1Name(); s["l2"] = x->getLine2Name(); s["code"] = x->getCode();
        } else if (auto* x = dynamic_cast<xn::Xnode*>(&e)) {
            ty = typed<xn::Xnode>(o, e); s["code"] = x->getCode();
        } else if (auto* x = dynamic_cast<xi::Measurements*>(&e)) {
            typedef xi::Measurement::Type MT;
            ty = typed<xi::Measurements>(o, e) && listed<xi::Measurements, xi::Measurement>(*x, {MT::ANGLE, MT::ACTIVE_POWER, MT::APPARENT_POWER, MT::REACTIVE_POWER, MT::CURRENT, MT::VOLTAGE, MT::FREQUENCY, MT::OTHER}, AllM(), TypeM(), IdM());
            js::object items;
            for (auto& m : x->getMeasurements()) {
                js::object q, pr;
                q["type"] = powsybl::iidm::Enum::toString(m.getType()); q["side"] = m.getSide() ? powsybl::iidm::Enum::toString(*m.getSide()) : std::string();
                q["value"] = enc(m.getValue()); q["sd"] = enc(m.getStandardDeviation()); q["valid"] = m.isValid();
                for (const std::string& p : m.getPropertyNames()) pr[p] = m.getProperty(p);
                q["pr"] = pr;
                items[m.getId()] = q;
            }
            s["items"] = items;
        } else if (auto* x = dynamic_cast<xi::DiscreteMeasurements*>(&e)) {
            typedef xi::DiscreteMeasurement::Type DT;
            ty = typed<xi::DiscreteMeasurements>(o, e) && listed<xi::DiscreteMeasurements, xi::DiscreteMeasurement>(*x, {DT::TAP_POSITION, DT::SWITCH_POSITION, DT::SHUNT_COMPENSATOR_SECTION, DT::OTHER}, AllD(), TypeD(), IdD());
            js::object items;
            for (auto& m : x->getDiscreteMeasurements()) {
                js::object q, pr;
                q["type"] = powsybl::iidm::Enum::toString(m.getType()); q["tc"] = m.getTapChanger() ? powsybl::iidm::Enum::toString(*m.getTapChanger()) : std::string();
                q["vt"] = powsybl::iidm::Enum::toString(m.getValueType());
                if (m.getValueType() == xi::DiscreteMeasurement::ValueType::BOOLEAN) q["value"] = m.getValueAsBoolean() ? std::string("true") : std::string("false");
                else if (m.getValueType() == xi::DiscreteMeasurement::ValueType::INT) q["value"] = std::to_string(m.getValueAsInt());
                else q["value"] = m.getValueAsString();
                q["valid"] = m.isValid();
                for (const std::string& p : m.getPropertyNames()) pr[p] = m.getProperty(p);
                q["pr"] = pr;
                items[m.getId()] = q;
            }
            s["items"] = items;
        }
        s["typed"] = ty;
        const std::string id = o.getId() + "#ext:" + n;
        if (st) { if (st->contains(id)) s["dup"] = true; (*st)[id] = s; }
        if (dy && !d.empty()) (*dy)[id] = d;
    }
}
}

// The many ways to reach the same thing: constant and ordinary versions of an accessor, accessors by number, by side, by
// type, by identifier. They agree on every object at every step; the names of those that do not are part of the observed
// state of the object, where the specification has none.
#include "world.hpp"
#include <powsybl/PowsyblException.hpp>
#include <powsybl/iidm/ActivePowerLimits.hpp>
#include <powsybl/iidm/ApparentPowerLimits.hpp>
#include <powsybl/iidm/Battery.hpp>
#include <powsybl/iidm/Branch.hpp>
#include <powsybl/iidm/BusbarSection.hpp>
#include <powsybl/iidm/CurrentLimits.hpp>
#include <powsybl/iidm/DanglingLine.hpp>
#include <powsybl/iidm/Generator.hpp>
#include <powsybl/iidm/HvdcLine.hpp>
#include <powsybl/iidm/LccConverterStation.hpp>
#include <powsybl/iidm/Line.hpp>
#include <powsybl/iidm/Load.hpp>
#include <powsybl/iidm/PhaseTapChanger.hpp>
#include <powsybl/iidm/RatioTapChanger.hpp>
#include <powsybl/iidm/ReactiveCapabilityCurve.hpp>
#include <powsybl/iidm/ShuntCompensator.hpp>
#include <powsybl/iidm/ShuntCompensatorLinearModel.hpp>
#include <powsybl/iidm/ShuntCompensatorNonLinearModel.hpp>
#include <powsybl/iidm/StaticVarCompensator.hpp>
#include <powsybl/iidm/Substation.hpp>
#include <powsybl/iidm/Switch.hpp>
#include <powsybl/iidm/ThreeWindingsTransformer.hpp>
#include <powsybl/iidm/TieLine.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/VariantManager.hpp>
#include <powsybl/iidm/VscConverterStation.hpp>

namespace drv {
using namespace powsybl::iidm;
namespace {
struct Diff {
    std::string names;
    void no(const char* what) { if (names.size() < 120) names += (names.empty() ? "" : " ") + std::string(what); }
};
template <typename X> const X& K(const X& x) { return x; }
template <typename X> const void* at(const X& x) { return &x; }
template <typename X> const void* at(const stdcxx::Reference<X>& x) { return x ? &x.get() : nullptr; }
template <typename X> const void* at(const stdcxx::CReference<X>& x) { return x ? &x.get() : nullptr; }
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
}
#define AGREE(name, a, b) if (at(a) != at(b)) d.no(name)
#define AGREES(name, c) if (!(c)) d.no(name)
// the ordinary and the constant version of an accessor, and what they must give
#define BOTH(name, x, get, want) { AGREE(name, (x).get, want); AGREE(name " const", K(x).get, want); }

template <typename L> std::string limitsAccess(L& l, LimitType type) {
    Diff d;
    AGREES("getLimitType", l.getLimitType() == type);
    const L& c = l;
    std::vector<const void*> here, there;
    for (auto& t : l.getTemporaryLimits()) here.push_back(&t);
    for (const auto& t : c.getTemporaryLimits()) {
        there.push_back(&t);
        BOTH("getTemporaryLimit", l, getTemporaryLimit(t.getAcceptableDuration()), t)
        AGREES("getTemporaryLimitValue", same(c.getTemporaryLimitValue(t.getAcceptableDuration()), t.getValue()));
    }
    AGREES("getTemporaryLimits", here == there);
    AGREES("getTemporaryLimitValue", std::isnan(c.getTemporaryLimitValue(987654321)));
    bool refused = false;
    try { c.getTemporaryLimit(987654321); } catch (const std::exception&) { refused = true; }
    AGREES("getTemporaryLimit", refused);
    return d.names;
}
template std::string limitsAccess(CurrentLimits&, LimitType);
template std::string limitsAccess(ActivePowerLimits&, LimitType);
template std::string limitsAccess(ApparentPowerLimits&, LimitType);

namespace {
template <typename T> void tapChanger(Diff& d, T& t) {
    for (auto& s : t.getAllSteps()) BOTH("getStep", t, getStep(s.first), s.second.get())
    unsigned long n = 0;
    for (auto& s : K(t).getAllSteps()) { AGREE("getAllSteps const", s.second.get(), t.getStep(s.first)); ++n; }
    AGREES("getStepCount", n == t.getAllSteps().size() && n == static_cast<unsigned long>(t.getStepCount()));
    AGREE("getRegulationTerminal const", K(t).getRegulationTerminal(), t.getRegulationTerminal());
    const void* cur = nullptr;
    try { cur = &t.getCurrentStep(); } catch (const std::exception&) { cur = nullptr; }
    const void* curc = nullptr;
    try { curc = &K(t).getCurrentStep(); } catch (const std::exception&) { curc = nullptr; }
    AGREES("getCurrentStep const", cur == curc);
    for (long p : {t.getLowTapPosition() - 1, t.getHighTapPosition() + 1}) {
        int refused = 0;
        try { t.getStep(p); } catch (const powsybl::PowsyblException&) { ++refused; }
        try { K(t).getStep(p); } catch (const powsybl::PowsyblException&) { ++refused; }
        AGREES("getStep", refused == 2);
    }
}
void limits(Diff& d, FlowsLimitsHolder& h) {
    AGREE("getCurrentLimits const", K(h).getCurrentLimits(), h.getCurrentLimits());
    AGREE("getActivePowerLimits const", K(h).getActivePowerLimits(), h.getActivePowerLimits());
    AGREE("getApparentPowerLimits const", K(h).getApparentPowerLimits(), h.getApparentPowerLimits());
    std::set<const void*> want, here, there;
    if (h.getCurrentLimits()) want.insert(static_cast<const OperationalLimits*>(&h.getCurrentLimits().get()));
    if (h.getActivePowerLimits()) want.insert(static_cast<const OperationalLimits*>(&h.getActivePowerLimits().get()));
    if (h.getApparentPowerLimits()) want.insert(static_cast<const OperationalLimits*>(&h.getApparentPowerLimits().get()));
    for (OperationalLimits& l : h.getOperationalLimits()) here.insert(&l);
    for (const OperationalLimits& l : K(h).getOperationalLimits()) there.insert(&l);
    AGREES("getOperationalLimits", want == here && want == there);
}
template <typename T, typename I> void byId(Diff& d, Network& n, const std::string& id, T& o, I) {
    BOTH("find", n, template find<I>(id), o)
    BOTH("get", n, template get<I>(id), o)
}
}

std::string partAccess(Identifiable& o, int leg, bool ratio) {
    Diff d;
    auto holder = [&](RatioTapChangerHolder& h) {
        if (!h.hasRatioTapChanger()) return;
        RatioTapChanger& t = h.getRatioTapChanger();
        BOTH("getRatioTapChanger", h, getRatioTapChanger(), t)
        BOTH("getOptionalRatioTapChanger", h, getOptionalRatioTapChanger(), t)
        tapChanger(d, t);
    };
    auto pholder = [&](PhaseTapChangerHolder& h) {
        if (!h.hasPhaseTapChanger()) return;
        PhaseTapChanger& t = h.getPhaseTapChanger();
        BOTH("getPhaseTapChanger", h, getPhaseTapChanger(), t)
        BOTH("getOptionalPhaseTapChanger", h, getOptionalPhaseTapChanger(), t)
        tapChanger(d, t);
    };
    if (leg == 0) { auto& t = dynamic_cast<TwoWindingsTransformer&>(o); if (ratio) holder(t); else pholder(t); }
    else {
        auto& t = dynamic_cast<ThreeWindingsTransformer&>(o);
        auto& l = leg == 1 ? t.getLeg1() : leg == 2 ? t.getLeg2() : t.getLeg3();
        if (ratio) holder(l); else pholder(l);
    }
    return d.names;
}

// identifiers, names, properties, and everything that leads to the object
std::string identityAccess(World& w, Identifiable& o) {
    Diff d;
    Network& n = w.n();
    const std::string& id = o.getId();
    AGREES("getNameOrId", o.getNameOrId() == (o.getOptionalName().empty() ? id : o.getOptionalName()));
    BOTH("getNetwork", o, getNetwork(), n)
    bool some = false;
    for (const std::string& p : o.getPropertyNames()) {
        some = true;
        AGREES("hasProperty", o.hasProperty(p));
        AGREES("getProperty", o.getProperty(p, "no such value") == o.getProperty(p));
    }
    AGREES("hasProperty", o.hasProperty() == some && !o.hasProperty("no such property"));
    AGREES("getProperty", o.getProperty("no such property", "other") == "other");
    bool aliases = false;
    for (const std::string& a : o.getAliases()) {
        aliases = true;
        BOTH("getIdentifiable by alias", n, getIdentifiable(a), o)
    }
    AGREES("hasAliases", o.hasAliases() == aliases);
    BOTH("getIdentifiable", n, getIdentifiable(id), o)
    BOTH("find", n, find(id), o)
#define KIND(Type) if (auto* x = dynamic_cast<Type*>(&o)) { Type& y = *x; BOTH("find " #Type, n, find<Type>(id), y) BOTH("get " #Type, n, get<Type>(id), y) BOTH("get" #Type, n, get##Type(id), y) }
    KIND(Battery) KIND(Branch) KIND(BusbarSection) KIND(DanglingLine) KIND(Generator) KIND(HvdcConverterStation) KIND(HvdcLine) KIND(LccConverterStation) KIND(Line) KIND(Load)
    KIND(ShuntCompensator) KIND(StaticVarCompensator) KIND(Substation) KIND(Switch) KIND(ThreeWindingsTransformer) KIND(TwoWindingsTransformer) KIND(VoltageLevel) KIND(VscConverterStation)
#undef KIND
    if (auto* x = dynamic_cast<Network*>(&o)) {
        std::set<Country> countries;
        for (const Substation& s : K(*x).getSubstations()) if (s.getCountry()) countries.insert(*s.getCountry());
        AGREES("getCountries", x->getCountries() == countries && x->getCountryCount() == countries.size());
        AGREES("getContainerType", x->getContainerType() == Container::Type::NETWORK);
        BOTH("getVariantManager", *x, getVariantManager(), x->getVariantManager())
        BOTH("getBusView", *x, getBusView(), x->getBusView())
        BOTH("getBusBreakerView", *x, getBusBreakerView(), x->getBusBreakerView())
    } else if (auto* x = dynamic_cast<Substation*>(&o)) {
        AGREES("getContainerType", x->getContainerType() == Container::Type::SUBSTATION);
    } else if (auto* x = dynamic_cast<VoltageLevel*>(&o)) {
        AGREES("getContainerType", x->getContainerType() == Container::Type::VOLTAGE_LEVEL);
        AGREE("getSubstation const", K(*x).getSubstation(), x->getSubstation());
        BOTH("getBusView", *x, getBusView(), x->getBusView())
        BOTH("getBusBreakerView", *x, getBusBreakerView(), x->getBusBreakerView())
        if (x->getTopologyKind() == TopologyKind::NODE_BREAKER) BOTH("getNodeBreakerView", *x, getNodeBreakerView(), x->getNodeBreakerView())
    } else if (auto* x = dynamic_cast<Bus*>(&o)) {
        AGREE("getVoltageLevel const", K(*x).getVoltageLevel(), x->getVoltageLevel());
        auto& v = x->getVoltageLevel().getBusBreakerView();
        BOTH("getBus", v, getBus(id), *x)
    } else if (auto* x = dynamic_cast<Switch*>(&o)) {
        VoltageLevel& vl = x->getVoltageLevel();
        AGREE("getVoltageLevel const", K(*x).getVoltageLevel(), vl);
        if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
            auto& v = vl.getNodeBreakerView();
            BOTH("getSwitch", v, getSwitch(id), *x)
            AGREES("getNode1", K(v).getNode1(id) == v.getNode1(id) && K(v).getNode2(id) == v.getNode2(id));
            BOTH("getTerminal1", v, getTerminal1(id), v.getOptionalTerminal(v.getNode1(id)))
            BOTH("getTerminal2", v, getTerminal2(id), v.getOptionalTerminal(v.getNode2(id)))
        } else {
            auto& v = vl.getBusBreakerView();
            BOTH("getSwitch", v, getSwitch(id), *x)
            AGREE("getBus1 const", K(v).getBus1(id), v.getBus1(id));
            AGREE("getBus2 const", K(v).getBus2(id), v.getBus2(id));
        }
    } else if (auto* x = dynamic_cast<Connectable*>(&o)) {
        std::vector<const void*> here, there;
        for (Terminal& t : x->getTerminals()) {
            here.push_back(&t);
            BOTH("getConnectable", t, getConnectable(), *x)
            VoltageLevel& vl = t.getVoltageLevel();
            AGREE("getVoltageLevel const", K(t).getVoltageLevel(), vl);
            BOTH("getConnectable by identifier", vl, getConnectable<Connectable>(id), *x)
            BOTH("getBusView", t, getBusView(), t.getBusView())
            BOTH("getBusBreakerView", t, getBusBreakerView(), t.getBusBreakerView())
            if (vl.getTopologyKind() == TopologyKind::NODE_BREAKER) {
                auto& v = vl.getNodeBreakerView();
                const unsigned long node = t.getNodeBreakerView().getNode();
                AGREES("getNode const", K(t).getNodeBreakerView().getNode() == node);
                BOTH("getTerminal by node", v, getTerminal(node), t)
                BOTH("getOptionalTerminal", v, getOptionalTerminal(node), t)
                AGREES("hasAttachedEquipment", v.hasAttachedEquipment(node));
                if (dynamic_cast<BusbarSection*>(x)) BOTH("getBusbarSection", v, getBusbarSection(id), *dynamic_cast<BusbarSection*>(x))
            }
        }
        for (const Terminal& t : K(*x).getTerminals()) there.push_back(&t);
        AGREES("getTerminals const", here == there);
        auto nth = [&](unsigned long i) { return i < here.size() ? here[i] : nullptr; };
        if (auto* y = dynamic_cast<Injection*>(x)) {
            AGREES("getTerminal", here.size() == 1 && at(y->getTerminal()) == nth(0) && at(K(*y).getTerminal()) == nth(0));
        } else if (auto* b = dynamic_cast<Branch*>(x)) {
            AGREES("getTerminal1", here.size() == 2 && at(b->getTerminal1()) == nth(0) && at(K(*b).getTerminal1()) == nth(0));
            AGREES("getTerminal2", here.size() == 2 && at(b->getTerminal2()) == nth(1) && at(K(*b).getTerminal2()) == nth(1));
            for (auto s : {Branch::Side::ONE, Branch::Side::TWO}) {
                Terminal& t = s == Branch::Side::ONE ? b->getTerminal1() : b->getTerminal2();
                BOTH("getTerminal by side", *b, getTerminal(s), t)
                AGREES("getSide", K(*b).getSide(t) == s);
                const std::string& vl = t.getVoltageLevel().getId();
                if (b->getTerminal1().getVoltageLevel().getId() != b->getTerminal2().getVoltageLevel().getId()) BOTH("getTerminal by voltage level", *b, getTerminal(vl), t)
            }
        } else if (auto* t3 = dynamic_cast<ThreeWindingsTransformer*>(x)) {
            int i = 0;
            for (auto s : {ThreeWindingsTransformer::Side::ONE, ThreeWindingsTransformer::Side::TWO, ThreeWindingsTransformer::Side::THREE}) {
                AGREES("getTerminal by side", at(t3->getTerminal(s)) == nth(i) && at(K(*t3).getTerminal(s)) == nth(i));
                AGREES("getSide", t3->getSide(t3->getTerminal(s)) == s);
                ++i;
            }
        }
    }
    return d.names;
}

// the attributes of equipment
std::string attributeAccess(World& w, Identifiable& o) {
    Diff d;
    Network& n = w.n();
    if (auto* x = dynamic_cast<Generator*>(&o)) AGREE("getRegulatingTerminal const", K(*x).getRegulatingTerminal(), x->getRegulatingTerminal());
    if (auto* x = dynamic_cast<StaticVarCompensator*>(&o)) AGREE("getRegulatingTerminal const", K(*x).getRegulatingTerminal(), x->getRegulatingTerminal());
    if (auto* x = dynamic_cast<ShuntCompensator*>(&o)) {
        AGREE("getRegulatingTerminal const", K(*x).getRegulatingTerminal(), x->getRegulatingTerminal());
        AGREE("getModel const", K(*x).getModel(), x->getModel());
        if (x->getModelType() == ShuntCompensatorModelType::LINEAR) BOTH("getModel by type", *x, getModel<ShuntCompensatorLinearModel>(), x->getModel())
        else BOTH("getModel by type", *x, getModel<ShuntCompensatorNonLinearModel>(), x->getModel())
    }
    if (auto* x = dynamic_cast<DanglingLine*>(&o)) {
        AGREE("getGeneration const", K(*x).getGeneration(), x->getGeneration());
        auto& b = x->getBoundary();
        BOTH("getBoundary", *x, getBoundary(), b)
        BOTH("boundary getConnectable", b, getConnectable(), *static_cast<Connectable*>(x))
        BOTH("boundary getVoltageLevel", b, getVoltageLevel(), x->getTerminal().getVoltageLevel())
        limits(d, *x);
    }
    if (auto* x = dynamic_cast<HvdcConverterStation*>(&o)) {
        AGREE("getHvdcLine const", K(*x).getHvdcLine(), x->getHvdcLine());
        AGREES("getHvdcType", (x->getHvdcType() == HvdcConverterStation::HvdcType::LCC) == (dynamic_cast<LccConverterStation*>(x) != nullptr));
        BOTH("findHvdcLine", n, findHvdcLine(*x), x->getHvdcLine())
        if (x->getHvdcLine()) BOTH("getHvdcLine by station", n, getHvdcLine(*x), x->getHvdcLine())
    }
    if (auto* x = dynamic_cast<HvdcLine*>(&o)) {
        AGREE("getConverterStation1 const", K(*x).getConverterStation1(), x->getConverterStation1());
        AGREE("getConverterStation2 const", K(*x).getConverterStation2(), x->getConverterStation2());
        BOTH("getConverterStation", *x, getConverterStation(HvdcLine::Side::ONE), x->getConverterStation1())
        BOTH("getConverterStation", *x, getConverterStation(HvdcLine::Side::TWO), x->getConverterStation2())
    }
    if (auto* x = dynamic_cast<Line*>(&o)) AGREES("isTieLine", x->isTieLine() == (dynamic_cast<TieLine*>(x) != nullptr));
    if (auto* x = dynamic_cast<TieLine*>(&o)) {
        AGREE("getHalf1 const", K(*x).getHalf1(), x->getHalf1());
        AGREE("getHalf2 const", K(*x).getHalf2(), x->getHalf2());
        for (auto s : {Branch::Side::ONE, Branch::Side::TWO}) {
            auto& h = s == Branch::Side::ONE ? x->getHalf1() : x->getHalf2();
            BOTH("getHalf", *x, getHalf(s), h)
            auto& b = h.getBoundary();
            BOTH("getBoundary", h, getBoundary(), b)
            BOTH("boundary getConnectable", b, getConnectable(), *static_cast<Connectable*>(x))
            BOTH("boundary getVoltageLevel", b, getVoltageLevel(), x->getTerminal(s).getVoltageLevel())
            AGREES("boundary getSide", b.getSide() && *b.getSide() == s);
        }
    }
    if (auto* b = dynamic_cast<Branch*>(&o)) {
        for (auto s : {Branch::Side::ONE, Branch::Side::TWO}) {
            const bool one = s == Branch::Side::ONE;
#define SIDES(Type, LIMIT) { auto l = one ? b->get##Type##Limits1() : b->get##Type##Limits2(); \
            AGREE("get" #Type "LimitsN const", (one ? K(*b).get##Type##Limits1() : K(*b).get##Type##Limits2()), l); \
            BOTH("get" #Type "Limits", *b, get##Type##Limits(s), l) \
            auto g = b->getLimits(LimitType::LIMIT, s); auto gc = K(*b).getLimits(LimitType::LIMIT, s); \
            AGREES("getLimits", static_cast<bool>(g) == static_cast<bool>(l) && static_cast<bool>(gc) == static_cast<bool>(l) \
                && (!l || (&g.get() == static_cast<LoadingLimits*>(&l.get()) && &gc.get() == static_cast<LoadingLimits*>(&l.get())))); }
            SIDES(Current, CURRENT) SIDES(ActivePower, ACTIVE_POWER) SIDES(ApparentPower, APPARENT_POWER)
#undef SIDES
        }
    }
    if (auto* x = dynamic_cast<TwoWindingsTransformer*>(&o)) AGREE("getSubstation const", K(*x).getSubstation(), x->getSubstation());
    if (auto* x = dynamic_cast<ThreeWindingsTransformer*>(&o)) {
        AGREE("getSubstation const", K(*x).getSubstation(), x->getSubstation());
        std::vector<const void*> want{&x->getLeg1(), &x->getLeg2(), &x->getLeg3()}, constant{&K(*x).getLeg1(), &K(*x).getLeg2(), &K(*x).getLeg3()}, here, there;
        for (auto& l : x->getLegs()) here.push_back(&l);
        for (const auto& l : K(*x).getLegs()) there.push_back(&l);
        AGREES("getLegs", want == here && want == there && want == constant);
        for (auto* l : {&x->getLeg1(), &x->getLeg2(), &x->getLeg3()}) {
            AGREE("leg getTerminal const", K(*l).getTerminal(), l->getTerminal());
            limits(d, *l);
        }
    }
    if (auto* x = dynamic_cast<ReactiveLimitsHolder*>(&o)) AGREE("getReactiveLimits const", K(*x).getReactiveLimits<ReactiveLimits>(), x->getReactiveLimits<ReactiveLimits>());
    return d.names;
}
}

// separate translation unit: two adder headers of the library share one include guard
#include "world.hpp"
#include <powsybl/iidm/Identifiable.hpp>
#include <powsybl/iidm/TwoWindingsTransformer.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClock.hpp>
#include <powsybl/iidm/extensions/iidm/TwoWindingsTransformerPhaseAngleClockAdder.hpp>
namespace drv {
using namespace powsybl::iidm;
void addTwtClock(Identifiable& o, bool set, unsigned long v) {
    auto ad = o.newExtension<extensions::iidm::TwoWindingsTransformerPhaseAngleClockAdder>();
    if (set) ad.withPhaseAngleClock(v);
    ad.add();
}
}

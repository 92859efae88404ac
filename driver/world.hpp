// Conformance driver: interprets a script of API calls (JSON lines) on the real library and records, after each
// call, its outcome and a projection of the abstract state (JSON lines) that the TLA+ trace specification checks.
#pragma once
#include <cmath>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <boost/json.hpp>
#include <powsybl/stdcxx/reference.hpp>
#include <powsybl/iidm/Network.hpp>
#include <powsybl/iidm/Terminal.hpp>
#include <powsybl/iidm/Connectable.hpp>
#include <powsybl/iidm/VoltageLevel.hpp>

namespace drv {
namespace js = boost::json;
namespace iidm = powsybl::iidm;

// Numbers cross the boundary as integers in units of 1/8 so that TLC can compare and order them.
static const int64_t NANV = -1000000000;
int64_t enc(double d);
double dec(int64_t v);

struct SkipOp : std::runtime_error { using std::runtime_error::runtime_error; };
struct NilOp : std::runtime_error { using std::runtime_error::runtime_error; };  // the target of the call does not exist

struct World {
    std::unique_ptr<iidm::Network> net;
    std::unique_ptr<iidm::Network> foreign;  // another network, to pass terminals that are not part of `net`
    void reset();
    iidm::Network& n() { return *net; }
    iidm::Terminal& term(const std::string& ref);            // "L1/0"
    stdcxx::Reference<iidm::Terminal> termRef(const std::string& ref);  // "" -> none, "@" -> foreign
    std::string refOf(const void* terminalAddress);           // address -> "L1/0", "@" foreign, "?" unknown
};

// the beginning of a message, with its non ASCII characters replaced
inline std::string brief(const char* what) {
    std::string s = std::string(what).substr(0, 160);
    for (char& c : s) if (static_cast<unsigned char>(c) >= 0x80) c = 0x3f;
    return s;
}
std::string S(const js::object& o, const char* k);
int64_t I(const js::object& o, const char* k);
double D(const js::object& o, const char* k);
bool B(const js::object& o, const char* k);

js::value execute(World& w, const js::object& ev);            // throws on refusal; returns "ret"
js::object project(World& w, const std::string& what);
js::value executePersist(World& w, const js::object& ev, bool& handled);
js::value executeQuery(World& w, const js::object& ev, bool& handled);
js::value addExtension(World& w, const js::object& ev);
js::value setExtension(World& w, const js::object& ev);
js::value removeExtension(World& w, const js::object& ev);
void projectExtensions(World& w, iidm::Identifiable& o, js::object* st, js::object* dy);
std::string identityAccess(World& w, iidm::Identifiable& o);
std::string attributeAccess(World& w, iidm::Identifiable& o);
std::string partAccess(iidm::Identifiable& o, int leg, bool ratio);
void registerSerializers();
int graphMain(std::istream& in, std::ostream& out);
int threadsMain(std::istream& in, std::ostream& out);

template <typename E> std::string enumName(const E& e) { std::ostringstream os; os << e; return os.str(); }
}

// Saving and loading: XML documents, topology levels, anonymised documents, older versions.
#include "world.hpp"
#include <powsybl/PowsyblException.hpp>
#include <powsybl/stdcxx/demangle.hpp>
#include <algorithm>
#include <fstream>
#include <boost/filesystem.hpp>
#include <boost/range/adaptors.hpp>
#include <powsybl/iidm/TopologyLevel.hpp>
#include <powsybl/iidm/converter/ExportOptions.hpp>
#include <powsybl/iidm/converter/ImportOptions.hpp>
namespace drv {
using namespace powsybl::iidm;
namespace fs = boost::filesystem;
static std::set<std::string> names(const js::object& ev, const char* k) {
    std::set<std::string> e;
    if (ev.contains(k)) for (const auto& v : ev.at(k).as_array()) e.insert(v.as_string().c_str());
    return e;
}
static std::string joined(const std::set<std::string>& s, const char* sep) {
    std::string j;
    for (const std::string& x : s) j += (j.empty() ? "" : sep) + x;
    return j;
}
static bool flag(const js::object& ev, const char* k, bool d) { return ev.contains(k) ? B(ev, k) : d; }
// the options of the saving: through their setters, or from textual parameters ("par": 1 the usual names, 2 the other names of a parameter, where there is one)
static converter::ExportOptions options(const js::object& ev) {
    using Behavior = converter::ExportOptions::IidmVersionIncompatibilityBehavior;
    using E = converter::ExportOptions;
    const std::string lvl = S(ev, "lvl");
    const bool ver = ev.contains("ver") && !S(ev, "ver").empty();
    const int par = ev.contains("par") ? static_cast<int>(I(ev, "par")) : 0;
    converter::ExportOptions o;
    if (par != 0) {
        stdcxx::Properties p;
        auto put = [&p](const char* k, const std::string& v) { p.set(k, v); };
        if (lvl == "NB") put(E::TOPOLOGY_LEVEL, "NODE_BREAKER");
        if (lvl == "BB") put(E::TOPOLOGY_LEVEL, "BUS_BREAKER");
        if (lvl == "BR") put(E::TOPOLOGY_LEVEL, "BUS_BRANCH");
        if (ver) put(E::VERSION, S(ev, "ver"));
        if (ver) put(E::IIDM_VERSION_INCOMPATIBILITY_BEHAVIOR, B(ev, "strict") ? "THROW_EXCEPTION" : "LOG_ERROR");
        if (ev.contains("bsv")) put(E::WITH_BRANCH_STATE_VARIABLES, B(ev, "bsv") ? "true" : "false");
        if (!names(ev, "ext").empty()) put(E::EXTENSIONS_LIST, joined(names(ev, "ext"), par == 2 ? ":" : ","));
        if (ev.contains("indent")) put(E::INDENT, B(ev, "indent") ? "true" : "false");
        if (ev.contains("ethrow")) put(par == 2 ? "throwExceptionIfExtensionNotFound" : E::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, B(ev, "ethrow") ? "TRUE" : "false");
        o = converter::ExportOptions(p);
    } else {
        if (lvl == "NB") o.setTopologyLevel(TopologyLevel::NODE_BREAKER);
        if (lvl == "BB") o.setTopologyLevel(TopologyLevel::BUS_BREAKER);
        if (lvl == "BR") o.setTopologyLevel(TopologyLevel::BUS_BRANCH);
        if (ver) {
            o.setVersion(S(ev, "ver"));
            o.setIidmVersionIncompatibilityBehavior(B(ev, "strict") ? Behavior::THROW_EXCEPTION : Behavior::LOG_ERROR);
        }
        if (ev.contains("bsv")) o.setWithBranchSV(B(ev, "bsv"));
        if (ev.contains("ext") && names(ev, "ext").size() % 2 == 1) for (const std::string& x : names(ev, "ext")) o.addExtension(x);
        else if (ev.contains("ext")) o.setExtensions(names(ev, "ext"));
        if (ev.contains("indent")) o.setIndent(B(ev, "indent"));
        if (ev.contains("ethrow")) o.setThrowExceptionIfExtensionNotFound(B(ev, "ethrow"));
    }
    if (ev.contains("xv")) for (const auto& kv : ev.at("xv").as_object()) o.addExtensionVersion(std::string(kv.key()), kv.value().as_string().c_str());
    return o;
}
static converter::ImportOptions inOptions(const js::object& ev) {
    using M = converter::ImportOptions;
    const int par = ev.contains("par") ? static_cast<int>(I(ev, "par")) : 0;
    if (par != 0) {
        stdcxx::Properties p;
        if (!names(ev, "iext").empty()) p.set(M::EXTENSIONS_LIST, joined(names(ev, "iext"), par == 2 ? ":" : ","));
        if (ev.contains("ithrow")) p.set(par == 2 ? "throwExceptionIfExtensionNotFound" : M::THROW_EXCEPTION_IF_EXTENSION_NOT_FOUND, B(ev, "ithrow") ? "true" : "FALSE");
        return converter::ImportOptions(p);
    }
    converter::ImportOptions o;
    if (ev.contains("iext") && names(ev, "iext").size() % 2 == 1) for (const std::string& x : names(ev, "iext")) o.addExtension(x);
    else if (ev.contains("iext")) o.setExtensions(names(ev, "iext"));
    if (ev.contains("ithrow")) o.setThrowExceptionIfExtensionNotFound(B(ev, "ithrow"));
    return o;
}
// the document, with an extension nobody knows, or without its end, or with an attribute of an element (the first that has it) missing or unreadable
static std::string altered(std::string t, const js::object& ev, js::object& ret) {
    const size_t end = t.rfind("</");
    if (ev.contains("cut")) {
        const std::string tag = "<" + t.substr(end + 2, t.find(':', end) - end - 2) + ":" + S(ev, "cut") + " ";
        const std::string at = " " + S(ev, "cutat") + "=\"";
        ret["cut"] = false;
        for (size_t p = t.find(tag); p != std::string::npos; p = t.find(tag, p + 1)) {
            const size_t a = t.find(at, p);
            if (a == std::string::npos || a > t.find('>', p)) continue;
            if (!S(ev, "cutby").empty() && t.find(" " + S(ev, "cutby") + "=\"", p) > t.find('>', p)) continue;
            const size_t b = a + at.size();
            const size_t e = t.find('"', b);
            if (B(ev, "cutbad")) t.replace(b, e - b, "x!y");
            else t.erase(a, e + 1 - a);
            ret["cut"] = true;
            break;
        }
        return t;
    }
    if (ev.contains("alien")) {
        const std::string pre = t.substr(end + 2, t.find(':', end) - end - 2);
        std::string id;
        for (char c : S(ev, "alien")) id += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '"' ? "&quot;" : std::string(1, c);
        t.insert(end, "<" + pre + ":extension id=\"" + id + "\"><al:alien xmlns:al=\"http://alien.org/al\" id=\"zz\"><al:sub a=\"1\">text</al:sub><al:sub/></al:alien></" + pre + ":extension>\n");
    }
    // a document that claims another version of the format
    if (ev.contains("relabel")) {
        const std::string at = "http://www.powsybl.org/schema/iidm/1_5";
        const std::string to = S(ev, "relabel") == "1.0" ? "http://www.itesla_project.eu/schema/iidm/1_0" : at.substr(0, at.size() - 1) + S(ev, "relabel").substr(2);
        t.replace(t.find(at), at.size(), to);
    }
    if (ev.contains("trunc")) t = t.substr(0, static_cast<size_t>(I(ev, "trunc")) * (t.rfind('>') + 1) / 1000);
    return t;
}
static std::string slurp(const fs::path& p) {
    std::ifstream f(p.string());
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
// attribute values and text contents of an XML text
static std::set<std::string> values(const std::string& xml) {
    std::set<std::string> out;
    size_t p = 0;
    while ((p = xml.find("=\"", p)) != std::string::npos) {
        const size_t e = xml.find('"', p + 2);
        if (e == std::string::npos) break;
        out.insert(xml.substr(p + 2, e - p - 2));
        p = e + 1;
    }
    for (p = xml.find('>'); p != std::string::npos; p = xml.find('>', p + 1)) out.insert(xml.substr(p + 1, xml.find('<', p + 1) - p - 1));
    return out;
}
// a string that only names an object (unlike those that may also be the value of a property or of an attribute)
static bool naming(const std::string& s) {
    const auto l = std::find_if(s.begin(), s.end(), [](unsigned char c) { return std::isalpha(c) != 0; });
    return s.size() >= 2 && std::any_of(l, s.end(), [](unsigned char c) { return std::isdigit(c) != 0; });
}
// less the declarations of namespaces (also those of extensions with nothing to write) and the date
static std::string stripDate(std::string s) {
    const size_t x = s.find(" xmlns:");
    const size_t y = s.find(" id=\"");
    if (x != std::string::npos && y != std::string::npos && x < y) s.erase(x, y - x);
    const size_t p = s.find(" caseDate=\"");
    if (p != std::string::npos) s.erase(p, s.find('"', p + 11) + 1 - p);
    return s;
}
// with the geographical tags in alphabetical order
static std::string sortTags(std::string s) {
    static const std::string A = " geographicalTags=\"";
    for (size_t p = s.find(A); p != std::string::npos; p = s.find(A, p + 1)) {
        const size_t b = p + A.size();
        const size_t e = s.find('"', b);
        std::multiset<std::string> l;
        std::istringstream is(s.substr(b, e - b));
        for (std::string x; std::getline(is, x, ',');) l.insert(x);
        std::string j;
        for (const std::string& x : l) j += (j.empty() ? "" : ",") + x;
        s.replace(b, e - b, j);
    }
    return s;
}
// the lines of a document, in alphabetical order (renaming objects changes their order)
static std::multiset<std::string> lines(const std::string& s) {
    std::multiset<std::string> l;
    std::istringstream is(s);
    for (std::string x; std::getline(is, x);) l.insert(x);
    return l;
}
struct TempDir {
    fs::path p;
    TempDir() : p(fs::temp_directory_path() / fs::unique_path("iidmdrv-%%%%-%%%%-%%%%")) { fs::create_directory(p); }
    ~TempDir() { boost::system::error_code ec; fs::remove_all(p, ec); }
};
static std::vector<unsigned long> counts(const Network& n) {
    return {n.getSubstationCount(), n.getVoltageLevelCount(), n.getBusbarSectionCount(), n.getSwitchCount(), n.getLoadCount(), n.getGeneratorCount(), n.getBatteryCount(),
            n.getShuntCompensatorCount(), n.getStaticVarCompensatorCount(), n.getDanglingLineCount(), n.getLccConverterStationCount(), n.getVscConverterStationCount(),
            n.getHvdcLineCount(), n.getLineCount(), n.getTwoWindingsTransformerCount(), n.getThreeWindingsTransformerCount()};
}
static std::set<std::string> secretIds(Network& n) {
    std::set<std::string> out;
    for (Identifiable& x : n.getIdentifiables()) {
        if (&x == static_cast<Identifiable*>(&n)) continue;
        out.insert(x.getId());
        if (!x.getOptionalName().empty()) out.insert(x.getOptionalName());
        for (const std::string& a : x.getAliases()) out.insert(a);
    }
    return out;
}
js::value executePersist(World& w, const js::object& ev, bool& handled) {
    const std::string op = S(ev, "op");
    handled = op == "xml";
    if (!handled) return "";
    // {op:xml, lvl:"", anon:bool, ver:"", strict:bool, swap:bool}: save the network, load the document; with swap, carry on with the loaded network
    js::object ret;
    std::unique_ptr<Network> back;
    js::object seen = project(w, "t");
    const char* all = flag(ev, "mine", false) ? "sd" : "sda";  // mine: the other variants belong to other threads
    const std::string wv = S(seen, "cur");
    const bool cur = !wv.empty();
    if (cur) ret["tp"] = seen.at("tp").as_object().at(wv);
    const std::string before = cur ? js::serialize(project(w, all)) : "";
    const bool twice = ev.contains("twice") && B(ev, "twice");
    try {
    converter::ExportOptions o = options(ev);
    if (B(ev, "anon")) {
        o.setAnonymized(true);
        TempDir d;
        const fs::path f = d.p / "net.xiidm";
        Network::writeXml(f, w.n(), o);
        const std::string text = slurp(f);
        js::object leak;
        const std::set<std::string> vs = values(text);
        for (const std::string& id : secretIds(w.n())) if (naming(id) && vs.count(id) != 0) leak[id] = 1;
        ret["leak"] = leak;
        // without the mapping the document stays anonymous: none of the original identifiers can be found in it
        converter::ImportOptions in;
        back.reset(new Network(Network::readXml(f, in)));
        fs::path csv;
        for (fs::directory_iterator it(d.p), e; it != e; ++it) if (it->path().extension() == ".csv") csv = it->path();
        js::object known;
        if (!csv.empty()) {
            fs::remove(csv);
            Network plain = Network::readXml(f, in);
            for (const std::string& id : secretIds(w.n())) if (naming(id) && plain.find<Identifiable>(id)) known[id] = 1;
            ret["csv"] = true;
            // the anonymous network is the one of the document: written as it is, it gives the document again
            converter::ExportOptions clear = options(ev);
            std::stringstream again;
            Network::writeXml("net.xiidm", again, plain, clear);
            if (ev.contains("dump")) std::cerr << text << again.str();
            ret["again"] = lines(sortTags(stripDate(again.str()))) == lines(sortTags(stripDate(text)));
            ret["count"] = counts(plain) == counts(*back);
        } else {
            ret["csv"] = false;
        }
        ret["known"] = known;
    } else {
        const bool file = flag(ev, "file", false);
        TempDir d;
        const fs::path f = d.p / "net.xiidm";
        std::stringstream ss;
        if (file) Network::writeXml(f, w.n(), o);
        else Network::writeXml("net.xiidm", ss, w.n(), o);
        const std::string t1 = file ? slurp(f) : ss.str();
        if (!flag(ev, "indent", true)) ret["flat"] = t1.find("\n  ") == std::string::npos;
        if (file) {
            { std::ofstream out(f.string()); out << altered(t1, ev, ret); }
            back.reset(new Network(Network::readXml(f, inOptions(ev))));
        } else {
            std::istringstream is(altered(t1, ev, ret));
            back.reset(new Network(Network::readXml("net.xiidm", is, inOptions(ev))));
        }
        if (twice) {
            std::stringstream s2;
            Network::writeXml("net.xiidm", s2, *back, o);
            // at another level the equipments are in the order of the buses, which is not that of the nodes
            ret["same"] = S(ev, "lvl") == "BB" ? lines(stripDate(s2.str())) == lines(stripDate(t1)) : stripDate(s2.str()) == stripDate(t1);
        }
        if (ev.contains("dump")) std::cerr << t1;
    }
    } catch (const std::exception& e) {
        back.reset();
        ret["pow"] = dynamic_cast<const powsybl::PowsyblException*>(&e) != nullptr;
        ret["failed"] = stdcxx::demangle(e) + ": " + brief(e.what());
        ret["unsup"] = std::string(e.what()).find("supported for IIDM-XML version") != std::string::npos;
    }
    ret["pure"] = !cur || before == js::serialize(project(w, all));
    if (back && flag(ev, "copy", false)) {
        World copy;
        copy.net = std::move(back);
        ret["copy"] = project(copy, "sd");
    }
    if (back && B(ev, "swap")) w.net = std::move(back);
    return ret;
}
}

// Drives the logger: a sink records what passes the filter.
#include <mutex>
#include <sstream>
#include <thread>
#include <boost/log/sinks.hpp>
#include <boost/log/attributes/value_extraction.hpp>
#include <boost/log/sources/record_ostream.hpp>
#include <boost/log/sources/severity_logger.hpp>
#include "pctsp/logger.hh"
#include "proto.hpp"
namespace sinks = boost::log::sinks;
namespace lt = boost::log::trivial;

struct Seen { int sev; std::string msg; bool stamped; };
static std::vector<Seen> seen;
struct Backend : sinks::basic_sink_backend<sinks::synchronized_feeding> {
    void consume(boost::log::record_view const& r) {
        auto s = r[lt::severity];
        auto m = r[boost::log::expressions::smessage];
        seen.push_back({s ? (int)s.get() : -1, m ? m.get() : "", r.attribute_values().count("TimeStamp") > 0});
    }
};
static void emit(int sev, const std::string& m, bool own) {
    if (own) {
        boost::log::sources::severity_logger_mt<lt::severity_level> lg;
        BOOST_LOG_SEV(lg, (lt::severity_level)sev) << m;
        return;
    }
    switch (sev) {
    case 0: BOOST_LOG_TRIVIAL(trace) << m; break;
    case 1: BOOST_LOG_TRIVIAL(debug) << m; break;
    case 2: BOOST_LOG_TRIVIAL(info) << m; break;
    case 3: BOOST_LOG_TRIVIAL(warning) << m; break;
    case 4: BOOST_LOG_TRIVIAL(error) << m; break;
    default: BOOST_LOG_TRIVIAL(fatal) << m; break;
    }
}
static void report(Ans& a) {
    a.out << "seen:";
    for (auto& s : seen) a.out << s.sev << " " << s.msg << " " << s.stamped << " ";
    a.out << ";";
    seen.clear();
}
static void handle(Req& q, Ans& a) {
    std::string op = q.word();
    if (op == "sink") {  // from here on records go to the recording sink only
        boost::log::core::get()->add_sink(boost::make_shared<sinks::synchronous_sink<Backend>>());
    } else if (op == "level") {
        a.one("level", getBoostLevelFromPyLevel(q.num()));
    } else if (op == "init") {
        PCTSPinitLogging(q.num());
    } else if (op == "emit") {
        auto v = q.vec<int>();
        int own = q.num();
        for (size_t i = 0; i < v.size(); i++) emit(v[i], "m" + std::to_string(i), own);
        report(a);
    } else if (op == "threads") {
        int n = q.num(), k = q.num();
        std::vector<std::thread> ts;
        for (int t = 0; t < n; t++) ts.emplace_back([=] { for (int i = 0; i < k; i++) emit((t + i) % 6, std::to_string(t) + "." + std::to_string(i), i % 2); });
        for (auto& t : ts) t.join();
        report(a);
    } else { std::cerr << "HARNESS: unknown operation " << op << std::endl; std::_Exit(77); }
}
int main() { return serve(handle); }

// C14: printed coordinates and times are complete or the stream says otherwise.
#include "sim.hpp"
#include <boost/astronomy/coordinate/io/io.hpp>
#include <boost/astronomy/coordinate/rep/representation.hpp>
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#include <boost/astronomy/time/parser.hpp>
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/units/systems/si/length.hpp>
#include <boost/units/systems/si/plane_angle.hpp>
#include <boost/units/systems/si/prefixes.hpp>
#include <boost/units/physical_dimensions/length.hpp>
#include <cmath>
#include <fstream>
#include <memory>
#include <sstream>
namespace bc = boost::astronomy::coordinate;
namespace bu = boost::units;
using sim::W; using sim::F;
typedef bu::quantity<bu::si::length> Meter;
typedef bu::quantity<bu::si::plane_angle> Rad;
typedef bu::quantity<bu::degree::plane_angle> Deg;
typedef bu::quantity<bu::si::length, float> MeterF;

struct Settings {
    std::ios::fmtflags flags = std::ios::dec | std::ios::skipws;
    int precision = 6;
    char fill = ' ';
    bool names = false; // units by name instead of symbol
};
static void apply(std::ostream& o, const Settings& s) { o.flags(s.flags); o.precision(s.precision); o.fill(s.fill); if (s.names) bu::set_format(o, bu::name_fmt); }
template <class T> static std::string num(const Settings& s, T v) { std::ostringstream o; apply(o, s); o << v; return o.str(); }
static std::string unit(const Settings& s, const std::string& u) { return !s.names ? u : u == "m" ? "meter" : u == "rad" ? "radian" : u == "deg" ? "degree" : u; }

struct Item { // one thing to print, and its text in given settings
    virtual ~Item() {}
    virtual void print(std::ostream& o) const = 0;
    virtual std::string text(const Settings& s) const = 0;
    virtual std::string snapshot() const = 0;
    virtual std::string wrong() const { return ""; } // construction lost something
};
static bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
static bool nearf(double a, double b) { return std::abs(a - b) <= 1e-5 * (1 + std::abs(a) + std::abs(b)); }
template <class P, class Get> struct Point : Item { // three or two components
    P p;
    std::string name, sep, close;
    std::vector<std::string> labels, units;
    std::vector<double> put;
    Get get;
    Point(const P& p_, Get g) : p(p_), get(g) {}
    void print(std::ostream& o) const override { o << p; }
    std::string text(const Settings& s) const override {
        std::string t = name;
        for (size_t i = 0; i < units.size(); i++) t += (i ? sep + labels[i] : labels[i]) + get(p, i, s) + " " + unit(s, units[i]);
        return t + close;
    }
    std::string snapshot() const override { Settings s; s.precision = 17; std::string t; for (size_t i = 0; i < units.size(); i++) t += get(p, i, s) + ";"; return t; }
    std::string wrong() const override { Settings s; s.precision = 17; for (size_t i = 0; i < units.size(); i++) if (!nearf(strtod(get(p, i, s).c_str(), nullptr), put[i])) return sim::fmt("component %zu is %s instead of %.9g", i, get(p, i, s).c_str(), put[i]); return ""; }
};
template <class P, class Get> static std::unique_ptr<Item> make(const P& p, Get g, const std::string& name, const std::string& sep, const std::string& close, std::vector<std::string> labels, std::vector<std::string> units, std::vector<double> put) {
    auto x = new Point<P, Get>(p, g);
    x->name = name; x->sep = sep; x->close = close; x->labels = labels; x->units = units; x->put = put;
    return std::unique_ptr<Item>(x);
}
struct Time : Item {
    decimal_hour d;
    long h, m; double s;
    bool parts; double total;
    Time(double t) : d(t), h(0), m(0), s(0), parts(false), total(t) {}
    Time(double a, double b, double c) : d(a, b, c), h((long)a), m((long)b), s(c), parts(true), total(a + b / 60 + c / 3600) {}
    void print(std::ostream& o) const override { o << d; }
    std::string text(const Settings&) const override { return "Hours: " + sim::fmt("%ldh %ldm %fs ", d.get_hours(), d.get_minutes(), d.get_seconds()); }
    std::string snapshot() const override { return sim::fmt("%.17g %ld %ld %.17g", d.get(), d.get_hours(), d.get_minutes(), d.get_seconds()); }
    std::string wrong() const override {
        if (!near(d.get(), total)) return sim::fmt("the time is %.17g instead of %.17g", d.get(), total);
        if (parts && (d.get_hours() != h || d.get_minutes() != m || !near(d.get_seconds(), s))) return sim::fmt("shown as %ldh %ldm %fs instead of %ldh %ldm %fs", d.get_hours(), d.get_minutes(), d.get_seconds(), h, m, s);
        if (!near(d.get_hours() + d.get_minutes() / 60.0 + d.get_seconds() / 3600, total)) return "hours, minutes and seconds do not add up to the time";
        return "";
    }
};
static double draw_num() { static const std::vector<double> v = {0, 1, 2.5, -3.25, 1e-5, 123456.789, -0.1, 45, 89.5, 1e10, 1e300, -2e-300, -1e-3, 3.14159265358979}; return W().pick(v); }
static double draw_angle() { static const std::vector<double> v = {0, 1, 0.5, -1.25, 0.1, 1.5, -0.01, 1e-5, 1.125, 180, 270.5, 359.75, -89.5, 400, -181}; return W().pick(v); }
static std::unique_ptr<Item> draw_item() {
    double a = draw_num(), b = draw_num(), c = draw_num(), u = draw_angle(), v = draw_angle();
    switch (W().draw(13)) {
    case 0: { bc::cartesian_representation<double, Meter, Meter, Meter> p(a * bu::si::meters, b * bu::si::meters, c * bu::si::meters);
        return make(p, [](const decltype(p)& q, size_t i, const Settings& s) { return num(s, i == 0 ? q.get_x().value() : i == 1 ? q.get_y().value() : q.get_z().value()); }, "Cartesian Representation ( ", " , ", " )", {"", "", ""}, {"m", "m", "m"}, {a, b, c}); }
    case 1: { bc::spherical_representation<double, Rad, Rad, Meter> p(u * bu::si::radians, v * bu::si::radians, c * bu::si::meters);
        return make(p, [](const decltype(p)& q, size_t i, const Settings& s) { return i == 0 ? num(s, q.get_lat().value()) : i == 1 ? num(s, q.get_lon().value()) : num(s, q.get_dist().value()); }, "Spherical Representation ( ", " , ", " )", {"", "", ""}, {"rad", "rad", "m"}, {u, v, c}); }
    case 2: { bc::spherical_equatorial_representation<double, Rad, Rad, Meter> p(u * bu::si::radians, v * bu::si::radians, c * bu::si::meters);
        return make(p, [](const decltype(p)& q, size_t i, const Settings& s) { return i == 0 ? num(s, q.get_lat().value()) : i == 1 ? num(s, q.get_lon().value()) : num(s, q.get_dist().value()); }, "Spherical Equatorial Representation ( ", " , ", " )", {"", "", ""}, {"rad", "rad", "m"}, {u, v, c}); }
    case 3: { bc::spherical_representation<double, Deg, Rad, Meter> p(u * bu::degree::degrees, v * bu::si::radians, c * bu::si::meters);
        return make(p, [](const decltype(p)& q, size_t i, const Settings& s) { return i == 0 ? num(s, q.get_lat().value()) : i == 1 ? num(s, q.get_lon().value()) : num(s, q.get_dist().value()); }, "Spherical Representation ( ", " , ", " )", {"", "", ""}, {"deg", "rad", "m"}, {u, v, c}); }
    case 4: { bc::horizon_coord<double, Deg, Rad> p(u * bu::degree::degrees, v * bu::si::radians);
        return make(p, [](const decltype(p)& q, size_t i, const Settings& s) { return i == 0 ? num(s, q.get_altitude().value()) : num(s, q.get_azimuth().value()); }, "Horizon Coordinate (Altitude: ", ", ", ")", {"", "Azimuth: "}, {"deg", "rad"}, {u, v}); }
    case 5: { bc::ecliptic_coord<double, Deg, Deg> p(u * bu::degree::degrees, v * bu::degree::degrees);
        return make(p, [](const decltype(p)& q, size_t i, const Settings& s) { return i == 0 ? num(s, q.get_lat().value()) : num(s, q.get_lon().value()); }, "Ecliptic Coordinate (Ecliptic Latitude: ", ", ", ")", {"", "Ecliptic Longitude: "}, {"deg", "deg"}, {u, v}); }
    case 6: { bc::galactic_coord<double, Rad, Deg> p(u * bu::si::radians, v * bu::degree::degrees);
        return make(p, [](const decltype(p)& q, size_t i, const Settings& s) { return i == 0 ? num(s, q.get_lat().value()) : num(s, q.get_lon().value()); }, "Galactic Coordinate (Galactic Latitude: ", ", ", ")", {"", "Galactic Longitude: "}, {"rad", "deg"}, {u, v}); }
    case 7: { bc::equatorial_ra_coord<double, Deg, Rad> p(u * bu::degree::degrees, v * bu::si::radians);
        return make(p, [](const decltype(p)& q, size_t i, const Settings& s) { return i == 0 ? num(s, q.get_ra().value()) : num(s, q.get_dec().value()); }, "Equatorial Coordinate (Right Ascension: ", ", ", ")", {"", "Declination: "}, {"deg", "rad"}, {u, v}); }
    case 8: { bc::equatorial_ha_coord<double, Rad, Deg> p(u * bu::si::radians, v * bu::degree::degrees);
        return make(p, [](const decltype(p)& q, size_t i, const Settings& s) { return i == 0 ? num(s, q.get_ha().value()) : num(s, q.get_dec().value()); }, "Equatorial Coordinate (Hour Angle: ", ", ", ")", {"", "Declination: "}, {"rad", "deg"}, {u, v}); }
    case 9: { auto p = bc::make_cartesian_representation(MeterF::from_value((float)u), MeterF::from_value((float)v), MeterF::from_value(2.5f));
        return make(p, [](const decltype(p)& q, size_t i, const Settings& s) { return num(s, i == 0 ? q.get_x().value() : i == 1 ? q.get_y().value() : q.get_z().value()); }, "Cartesian Representation ( ", " , ", " )", {"", "", ""}, {"m", "m", "m"}, {u, v, 2.5}); }
    case 10: { bc::horizon_coord<double, Rad, Rad> p(u * bu::si::radians, v * bu::si::radians);
        return make(p, [](const decltype(p)& q, size_t i, const Settings& s) { return i == 0 ? num(s, q.get_altitude().value()) : num(s, q.get_azimuth().value()); }, "Horizon Coordinate (Altitude: ", ", ", ")", {"", "Azimuth: "}, {"rad", "rad"}, {u, v}); }
    case 11: { static const std::vector<double> t = {0, 1.5, 23.999, 6.2, 12, 0.25, 4.668119549708194, 24, 100.5, -1.75, -0.5}; return std::unique_ptr<Item>(new Time(W().pick(t))); }
    default: { double h = W().draw(24), m = W().draw(60); static const std::vector<double> ss = {0, 5.23, 59.999, 30, 0.5}; return std::unique_ptr<Item>(new Time(h, m, W().pick(ss))); }
    }
}
// A sink that takes only so many bytes.
struct Sink : std::streambuf {
    std::string got;
    size_t room;
    int how; // 0: refuses, 1: throws, 2: takes bytes one at a time and refuses, 3: buffered, refuses when flushed
    bool refused = false;
    std::vector<char> buf;
    Sink(size_t r, int h) : room(r), how(h) { if (how == 3) { buf.resize(16); setp(&buf[0], &buf[0] + buf.size()); } }
    bool take(const char* p, size_t n, size_t& done) {
        done = std::min(n, room);
        { sim::NotLib nl; got.append(p, done); }
        room -= done;
        if (done == n) return true;
        if (!refused) sim::count_fault(how == 1 ? sim::F_SINK_THROW : sim::F_SINK_FULL);
        refused = true;
        return false;
    }
    bool drain() { size_t done, n = pptr() - pbase(); bool ok = n == 0 || take(pbase(), n, done); setp(&buf[0], &buf[0] + buf.size()); return ok; }
    int overflow(int c) override {
        if (how == 3) { if (!drain()) return traits_type::eof(); if (c != traits_type::eof()) { *pptr() = (char)c; pbump(1); } return 0; }
        char ch = (char)c;
        size_t d;
        if (c == traits_type::eof()) return 0;
        if (take(&ch, 1, d)) return c;
        if (how == 1) throw std::runtime_error("sink");
        return traits_type::eof();
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override {
        if (how >= 2) return std::streambuf::xsputn(p, n);
        size_t d;
        if (!take(p, (size_t)n, d) && how == 1) throw std::runtime_error("sink");
        return (std::streamsize)d;
    }
    int sync() override { if (how == 3) return drain() ? 0 : -1; return 0; }
};
static bool is_prefix(const std::string& a, const std::string& b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
template <class Fn> static bool raised(Fn f) {
    int d = sim::self().lib_depth;
    try { sim::Lib l; f(); return false; }
    catch (sim::Violation&) { throw; }
    catch (std::exception&) { sim::self().lib_depth = d; return true; }
}
static void check(bool ok, const char* cls, const std::string& msg) { sim::stats.checks++; if (!ok) sim::violate(cls, msg); }
static Settings draw_settings() {
    Settings s;
    uint32_t k = W().draw(8);
    if (k == 1) s.flags |= std::ios::fixed;
    if (k == 2) s.flags |= std::ios::scientific;
    if (k == 3) s.flags |= std::ios::showpos;
    if (k == 4) s.flags |= std::ios::fixed | std::ios::showpos | std::ios::uppercase;
    if (k == 5) s.flags |= std::ios::showpoint;
    if (k == 6) s.flags |= std::ios::scientific | std::ios::uppercase;
    static const std::vector<int> ps = {6, 0, 1, 3, 12, 17};
    s.precision = W().pick(ps);
    if (W().draw(4) == 3) s.fill = '*';
    s.names = W().draw(6) == 5;
    return s;
}
static void run() {
    uint32_t n = 1 + W().draw(5);
    std::vector<std::unique_ptr<Item>> items;
    for (uint32_t i = 0; i < n; i++) {
        items.push_back(draw_item());
        std::string w = items.back()->wrong();
        check(w.empty(), "wrong-component", w);
    }
    Settings s = draw_settings();
    std::string all;
    std::vector<std::string> texts;
    for (uint32_t i = 0; i < n; i++) { texts.push_back(items[i]->text(s)); all += texts.back(); }
    uint32_t kind = W().draw(4);
    sim::log_event("print \"%s\" to sink kind %u", sim::printable(all, 400).c_str(), kind);
    auto settings_kept = [&](std::ostream& o) { check(o.flags() == s.flags && o.precision() == s.precision && o.fill() == s.fill && o.width() == 0 && bu::get_format(o) == (s.names ? bu::name_fmt : bu::symbol_fmt), "format-settings-changed", "printing changed the format settings of the stream"); };
    auto objects_kept = [&](const std::vector<std::string>& before) { for (uint32_t i = 0; i < n; i++) check(items[i]->snapshot() == before[i], "object-changed", "printing changed the printed object"); };
    std::vector<std::string> before;
    for (auto& x : items) before.push_back(x->snapshot());
    if (kind == 0) { // everything is taken
        std::ostringstream o;
        apply(o, s);
        std::string sofar;
        for (uint32_t i = 0; i < n; i++) {
            bool r = raised([&] { items[i]->print(o); });
            sim::op();
            sofar += texts[i];
            check(!r && o.good(), "unexpected-failure", "printing to a good stream failed");
            check(o.str() == sofar, "printed-text", sim::fmt("printed \"%s\" instead of \"%s\"", sim::printable(o.str(), 300).c_str(), sim::printable(sofar, 300).c_str()));
            settings_kept(o);
        }
    } else if (kind == 1) { // a sink with limited room
        size_t room = F().draw((uint32_t)all.size() + 20);
        int how = (int)F().draw(4);
        Sink sink(room, how);
        std::ostream o(&sink);
        apply(o, s);
        bool mask = W().draw(4) == 3;
        if (mask) o.exceptions(std::ios::badbit | std::ios::failbit);
        bool r = false;
        std::string reached;
        for (uint32_t i = 0; i < n && !r; i++) {
            r = raised([&] { items[i]->print(o); });
            sim::op();
            reached += texts[i];
            check(is_prefix(sink.got, all), "not-a-prefix", sim::fmt("the sink got \"%s\", the text is \"%s\"", sim::printable(sink.got, 300).c_str(), sim::printable(all, 300).c_str()));
            if (how != 3) {
                if (!r && o.good()) check(sink.got == reached, "incomplete-but-good", sim::fmt("the stream is good but the sink got \"%s\" of \"%s\"", sim::printable(sink.got, 300).c_str(), sim::printable(reached, 300).c_str()));
                if (sink.refused) check(r || !o.good(), "failure-not-reported", "the sink refused bytes but the stream is good");
            }
            if (!o.good()) { settings_kept(o); }
        }
        if (!r) r = raised([&] { o.flush(); });
        check(is_prefix(sink.got, all), "not-a-prefix", "after flushing the sink does not hold a prefix of the text");
        if (!r && o.good()) check(sink.got == all, "incomplete-but-good", "flushed without complaint but incomplete");
        if (sink.refused) check(r || !o.good(), "failure-not-reported", "the sink refused bytes but the stream is good");
        if (!sink.refused) check(sink.got == all && !r, "printed-text", "complete sink, other text");
        else sim::probe("sink_refused");
        settings_kept(o);
    } else if (kind == 2) { // a file on a failing disk
        sim::disk_remove("/sim/print.txt");
        sim::draw_chunking();
        static const std::vector<sim::FaultKind> ks = {sim::F_ENOSPC, sim::F_EIO_WRITE, sim::F_DISK_FULL_AT, sim::F_TORN_WRITE, sim::F_CLOSE_LOST, sim::F_SHORT_WRITE};
        sim::FaultKind k = F().pick(ks);
        bool ok = true;
        {
            std::ofstream o;
            o.open("/sim/print.txt");
            apply(o, s);
            if (k != sim::F_SHORT_WRITE) sim::arm_sys(k, F().draw(3), F().draw((uint32_t)all.size() + 1));
            for (uint32_t i = 0; i < n && ok && o.good(); i++) { if (raised([&] { items[i]->print(o); })) ok = false; sim::op(); if (W().draw(3) == 2 && raised([&] { o.flush(); })) ok = false; }
            settings_kept(o);
            o.close();
            ok = ok && o.good();
        }
        bool fired = sim::sys_fired();
        sim::disarm_sys();
        std::string got = sim::disk_get("/sim/print.txt");
        if (ok) check(got == all, "incomplete-but-good", sim::fmt("the file holds \"%s\"", sim::printable(got, 300).c_str()));
        else check(fired, "unexpected-failure", "printing to a file failed without a fault");
        if (fired) sim::probe("file_fault");
    } else { // memory runs out
        std::string keep;
        keep.reserve(4000);
        Sink sink(100000, W().draw(2) ? 0 : 2);
        sink.got.reserve(4000);
        std::ostream o(&sink);
        apply(o, s);
        uint32_t i = W().draw(n);
        Settings t = s;
        std::string text = items[i]->text(t);
        sim::arm_alloc(F().draw(6), F().chance(1, 2));
        bool r = raised([&] { items[i]->print(o); });
        bool fired = sim::alloc_fired();
        sim::disarm_alloc();
        sim::op();
        check(is_prefix(sink.got, text), "not-a-prefix", "the sink does not hold a prefix of the text");
        if (!r && o.good()) check(sink.got == text, "incomplete-but-good", "incomplete text although nothing was reported");
        else check(fired, "unexpected-failure", "printing failed without a fault");
        if (fired) sim::probe("starved_print");
        settings_kept(o);
    }
    objects_kept(before);
    // what was printed before has no influence
    for (uint32_t i = 0; i < n; i++) {
        std::ostringstream o;
        Settings t;
        apply(o, t);
        bool r = raised([&] { items[i]->print(o); });
        check(!r && o.str() == items[i]->text(t), "printed-text", sim::fmt("printed \"%s\" instead of \"%s\"", sim::printable(o.str(), 300).c_str(), sim::printable(items[i]->text(t), 300).c_str()));
    }
}
int main(int argc, char** argv) { return sim::sim_main(argc, argv, "C14", run); }

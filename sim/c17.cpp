// C17: coordinate, time and image calculations depend on nothing but their arguments: not on what was calculated
// before, on failed calculations, on the content of fresh memory or on what other threads calculate meanwhile.
// Built with -fsanitize-coverage=trace-pc like C09.
#include "lib.hpp"
#include <boost/astronomy/coordinate/io/io.hpp>
#include <boost/astronomy/coordinate/arithmetic.hpp>
#include <boost/astronomy/coordinate/rep/representation.hpp>
#include <boost/astronomy/coordinate/diff/differential.hpp>
#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/ecliptic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/galactic_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp>
#include <boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp>
#include <boost/astronomy/coordinate/utility/utility.hpp>
#include <boost/astronomy/time/parser.hpp>
#include <boost/astronomy/time/time_conversions.hpp>
#include <boost/units/systems/angle/degrees.hpp>
#include <boost/units/systems/si/length.hpp>
#include <boost/units/systems/si/plane_angle.hpp>
#include <boost/units/systems/si/prefixes.hpp>
#include <boost/units/systems/si/velocity.hpp>
#include <boost/units/systems/si/time.hpp>
#include <boost/units/systems/si/io.hpp>
#include <cmath>
#include <sstream>
namespace bc = boost::astronomy::coordinate;
namespace bt = boost::astronomy::time;
namespace un = boost::units;
typedef un::quantity<un::si::length> Meter;
typedef un::quantity<un::si::plane_angle> Rad;
typedef un::quantity<un::degree::plane_angle> Deg;
typedef bc::cartesian_representation<double, Meter, Meter, Meter> Cart;
typedef bc::spherical_representation<double, Rad, Rad, Meter> Sph;
typedef bc::spherical_representation<double, Deg, Deg, Meter> SphDeg;
typedef bc::spherical_equatorial_representation<double, Rad, Rad, Meter> Equ;
typedef boost::numeric::ublas::matrix<double> Mat;

struct Values { // what a calculation gives
    double v[12];
    int n = 0;
    std::string text;
    void add(double x) { v[n++] = x; }
};
struct Calc {
    int kind = 0;
    double a[6] = {0}; // arguments
    int y = 2000, mo = 1, d = 1, hh = 0, mi = 0, ss = 0;
    std::vector<int16_t> pixels;
    int width = 1;
};
static const double pi = 3.14159265358979323846;
enum { K_JD, K_GST, K_LST, K_HMS, K_SPH_CART, K_EQU_CART, K_CART_SPH, K_CART_EQU, K_DOT, K_CROSS, K_SUM, K_MEAN, K_MAGNITUDE, K_UNIT, K_HORIZON, K_HA_RA, K_ECL_RA, K_RA_ECL,
       K_GALACTIC, K_OBLIQUITY, K_IMAGE, K_PRINT_POINT, K_PRINT_COORD, K_PRINT_TIME, K_UNIT_SPH, K_DEGREES, K_KM, K_MOTION, K_ACCESS, K_CROSS_SPH, K_SPH_EQU, K_PAIR, NK };
static const char* const kind_name[] = {"julian_date", "GST", "LST", "decimal_hour", "spherical to Cartesian", "equatorial to Cartesian", "Cartesian to spherical", "Cartesian to equatorial", "dot", "cross", "sum", "mean", "magnitude",
       "unit_vector", "horizon", "hour angle", "ecliptic to equatorial", "equatorial to ecliptic", "galactic", "obliquity", "image statistics", "print point", "print coordinate", "print time", "unit vector of spherical", "degrees", "kilometres", "motion", "components", "cross of spherical", "spherical to equatorial", "dot and sum of spherical and equatorial"};

// ---- the definitions, independent of the library -------------------------------------------------
static long day_number(int y, int m, int d) { // days from 1970-01-01, proleptic Gregorian
    y -= m <= 2;
    long era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (long)doe - 719468;
}
static double jd_ref(const Calc& c) { return day_number(c.y, c.mo, c.d) + 2440587.5; }
static double wrap24(double x) { return x - 24 * std::floor(x / 24); }
static double gst_ref(const Calc& c) {
    double T = (jd_ref(c) - 2451545.0) / 36525.0;
    double ut = c.hh + c.mi / 60.0 + c.ss / 3600.0;
    return wrap24(wrap24(6.697374558 + 2400.051336 * T + 0.000025862 * T * T) + ut * 1.002737909);
}
static void sph_xyz(double t, double p, double r, double* o) { o[0] = r * std::sin(p) * std::cos(t); o[1] = r * std::sin(p) * std::sin(t); o[2] = r * std::cos(p); }
static void equ_xyz(double t, double p, double r, double* o) { o[0] = r * std::cos(p) * std::cos(t); o[1] = r * std::cos(p) * std::sin(t); o[2] = r * std::sin(p); }
static double obliquity_ref(const Calc& c) {
    double T = (day_number(c.y, c.mo, c.d) + 2440588 - 2451545.0) / 36525.0;
    return (23.439292 - (46.815 * T + (0.0006 - 0.00181 * T) * T * T) / 3600) * pi / 180;
}
static void rotate(const double m[9], double u, double v, Values& o) {
    double x[3] = {std::cos(u) * std::cos(v), std::sin(u) * std::cos(v), std::sin(v)};
    for (int i = 0; i < 3; i++) o.add(m[3 * i] * x[0] + m[3 * i + 1] * x[1] + m[3 * i + 2] * x[2]);
}
static std::string num(double x) { std::ostringstream o; o << x; return o.str(); }
static Values expected(const Calc& c) {
    Values o;
    const double* a = c.a;
    double s[3], p[3];
    switch (c.kind) {
    case K_JD: o.add(jd_ref(c)); break;
    case K_GST: o.add(gst_ref(c)); break;
    case K_LST: o.add(wrap24(gst_ref(c) + a[0] / 15)); break;
    case K_HMS: o.add(c.hh + c.mi / 60.0 + c.ss / 3600.0); o.add(c.hh); o.add(c.mi); o.add(c.ss); break;
    case K_SPH_CART: sph_xyz(a[0], a[1], a[2], s); for (double x : s) o.add(x); break;
    case K_EQU_CART: equ_xyz(a[0], a[1], a[2], s); for (double x : s) o.add(x); break;
    case K_CART_SPH: case K_CART_EQU: for (int i = 3; i < 6; i++) o.add(a[i]); break;
    case K_DOT: sph_xyz(a[0], a[1], a[2], s); o.add(s[0] * a[3] + s[1] * a[4] + s[2] * a[5]); break;
    case K_CROSS: p[0] = a[0] * 3; p[1] = a[1] - 2; p[2] = a[2];
        o.add(p[1] * a[5] - p[2] * a[4]); o.add(p[2] * a[3] - p[0] * a[5]); o.add(p[0] * a[4] - p[1] * a[3]); break;
    case K_SUM: case K_MEAN: sph_xyz(a[0], a[1], a[2], s); for (int i = 0; i < 3; i++) o.add((s[i] + a[3 + i]) / (c.kind == K_SUM ? 1 : 2)); break;
    case K_MAGNITUDE: o.add(std::sqrt(a[3] * a[3] + a[4] * a[4] + a[5] * a[5])); o.add(a[2]); break;
    case K_UNIT: { double r = std::sqrt(a[3] * a[3] + a[4] * a[4] + a[5] * a[5]); for (int i = 3; i < 6; i++) o.add(a[i] / r); break; }
    case K_UNIT_SPH: o.add(a[0]); o.add(a[1]); o.add(1); break;
    case K_HORIZON: { double f = a[2], m[9] = {-std::sin(f), 0, std::cos(f), 0, -1, 0, std::cos(f), 0, std::sin(f)}; rotate(m, a[0], a[1], o); break; }
    case K_HA_RA: { double f = a[2], m[9] = {std::cos(f), std::sin(f), 0, std::sin(f), -std::cos(f), 0, 0, 0, 1}; rotate(m, a[0], a[1], o); break; }
    case K_ECL_RA: { double f = obliquity_ref(c), m[9] = {1, 0, 0, 0, std::cos(f), -std::sin(f), 0, std::sin(f), std::cos(f)}; rotate(m, a[0], a[1], o); break; }
    case K_RA_ECL: { double f = obliquity_ref(c), m[9] = {1, 0, 0, 0, std::cos(f), std::sin(f), 0, -std::sin(f), std::cos(f)}; rotate(m, a[0], a[1], o); break; }
    case K_GALACTIC: { double x[3] = {std::cos(a[0]) * std::cos(a[1]), std::sin(a[0]) * std::cos(a[1]), std::sin(a[1])}; for (double y : x) o.add(y); break; } // there and back
    case K_OBLIQUITY: o.add(obliquity_ref(c)); break;
    case K_IMAGE: {
        double sum = 0, dev = 0;
        std::vector<int16_t> z = c.pixels;
        std::sort(z.begin(), z.end());
        for (double x : z) sum += x;
        double mean = sum / z.size();
        for (double x : z) dev += (x - mean) * (x - mean);
        o.add(z.back()); o.add(z.front()); o.add(mean); o.add(z[z.size() / 2]); o.add(std::sqrt(dev / (z.size() - 1)));
        o.add(c.pixels[c.pixels.size() / 2]); o.add((double)z.size());
        break;
    }
    case K_PRINT_POINT: o.text = "Cartesian Representation ( " + num(a[3]) + " m , " + num(a[4]) + " m , " + num(a[5]) + " m )Spherical Representation ( " + num(a[0]) + " rad , " + num(a[1]) + " rad , " + num(a[2]) + " m )"; break;
    case K_PRINT_COORD: o.text = "Horizon Coordinate (Altitude: " + num(a[0]) + " rad, Azimuth: " + num(a[1]) + " rad)Ecliptic Coordinate (Ecliptic Latitude: " + num(a[1]) + " rad, Ecliptic Longitude: " + num(a[0]) + " rad)Galactic Coordinate (Galactic Latitude: " + num(a[1]) + " rad, Galactic Longitude: " + num(a[0]) + " rad)"; break;
    case K_PRINT_TIME: o.text = fmt("Hours: %dh %dm %fs ", c.hh, c.mi, (double)c.ss); break;
    case K_DEGREES: o.add(a[0]); o.add(a[1]); o.add(a[2]); break;
    case K_KM: o.add(std::sqrt(a[3] * a[3] + a[4] * a[4] + a[5] * a[5])); o.add(a[3]); o.add(a[4] * 1000); o.add(a[5]); break;
    case K_MOTION: for (int i = 3; i < 6; i++) o.add(a[i]); for (int i = 3; i < 6; i++) o.add(a[i] + a[i - 3]); break;
    case K_ACCESS: for (int i = 0; i < 6; i++) o.add(a[i]); break;
    case K_CROSS_SPH: sph_xyz(a[0], a[1], a[2], s); o.add(s[1] * a[5] - s[2] * a[4]); o.add(s[2] * a[3] - s[0] * a[5]); o.add(s[0] * a[4] - s[1] * a[3]); break;
    case K_SPH_EQU: sph_xyz(a[0], a[1], a[2], s); for (double x : s) o.add(x); equ_xyz(a[0], a[1], a[2], s); for (double x : s) o.add(x); break;
    case K_PAIR: sph_xyz(a[0], a[1], a[2], s); equ_xyz(a[1], a[0], 2 * a[2], p); o.add(s[0] * p[0] + s[1] * p[1] + s[2] * p[2]); for (int i = 0; i < 3; i++) o.add(s[i] + p[i]); for (int i = 0; i < 3; i++) o.add((s[i] + p[i]) / 2); break;
    }
    return o;
}
// ---- the same by the library ------------------------------------------------------------------------
static Cart cart(const Calc& c) { return Cart(c.a[3] * un::si::meters, c.a[4] * un::si::meters, c.a[5] * un::si::meters); }
static Sph sph(const Calc& c) { return Sph(c.a[0] * un::si::radians, c.a[1] * un::si::radians, c.a[2] * un::si::meters); }
static boost::posix_time::ptime instant(const Calc& c) { return boost::posix_time::ptime(boost::gregorian::date(c.y, c.mo, c.d), boost::posix_time::time_duration(c.hh, c.mi, c.ss)); }
static void add(Values& o, const Mat& m) { for (int i = 0; i < 3; i++) o.add(m(i, 0)); }
static void calculate(const Calc& c, Values& o) {
    const double* a = c.a;
    o.n = 0;
    switch (c.kind) {
    case K_JD: o.add(bt::julian_date(instant(c))); break;
    case K_GST: o.add(bt::GST(instant(c)).get()); break;
    case K_LST: o.add((a[0] < 0 ? bt::LST(-a[0], bt::DIRECTION::WEST, instant(c)) : bt::LST(a[0], bt::DIRECTION::EAST, instant(c))).get()); break;
    case K_HMS: { decimal_hour h(c.hh, c.mi, c.ss); o.add(h.get()); o.add(h.get_hours()); o.add(h.get_minutes()); o.add(h.get_seconds()); break; }
    case K_SPH_CART: { auto x = bc::make_cartesian_representation(sph(c)); o.add(x.get_x().value()); o.add(x.get_y().value()); o.add(x.get_z().value()); break; }
    case K_EQU_CART: { auto x = bc::make_cartesian_representation(Equ(a[0] * un::si::radians, a[1] * un::si::radians, a[2] * un::si::meters)); o.add(x.get_x().value()); o.add(x.get_y().value()); o.add(x.get_z().value()); break; }
    case K_CART_SPH: { auto x = bc::make_spherical_representation(cart(c)); double s[3]; sph_xyz(x.get_lat().value(), x.get_lon().value(), x.get_dist().value(), s); for (double y : s) o.add(y); break; }
    case K_CART_EQU: { auto x = bc::make_spherical_equatorial_representation(cart(c)); double s[3]; equ_xyz(x.get_lat().value(), x.get_lon().value(), x.get_dist().value(), s); for (double y : s) o.add(y); break; }
    case K_DOT: o.add(bc::dot(cart(c), sph(c)).value()); break;
    case K_CROSS: { Cart p(a[0] * 3 * un::si::meters, (a[1] - 2) * un::si::meters, a[2] * un::si::meters); auto x = bc::cross(p, cart(c)); o.add(x.get_x().value()); o.add(x.get_y().value()); o.add(x.get_z().value()); break; }
    case K_SUM: { auto x = bc::sum(cart(c), sph(c)); o.add(x.get_x().value()); o.add(x.get_y().value()); o.add(x.get_z().value()); break; }
    case K_MEAN: { auto x = bc::mean(sph(c), cart(c)); double s[3]; sph_xyz(x.get_lat().value(), x.get_lon().value(), x.get_dist().value(), s); for (double y : s) o.add(y); break; }
    case K_MAGNITUDE: o.add(bc::magnitude(cart(c)).value()); o.add(bc::magnitude(sph(c)).value()); break;
    case K_UNIT: { auto x = bc::unit_vector(cart(c)); o.add(x.get_x().value()); o.add(x.get_y().value()); o.add(x.get_z().value()); break; }
    case K_UNIT_SPH: { auto x = bc::unit_vector(sph(c)); o.add(x.get_lat().value()); o.add(x.get_lon().value()); o.add(x.get_dist().value()); break; }
    case K_HORIZON: { bc::column_vector<> v(a[0] * un::si::radians, a[1] * un::si::radians); Mat r = prod(bc::ha_dec_horizon<>(a[2] * un::si::radians).get(), v.get()); auto e = bc::extract_coordinates(r).get_coordinates(); bc::column_vector<> w(e.first, e.second); add(o, w.get()); break; }
    case K_HA_RA: { bc::column_vector<> v(a[0] * un::si::radians, a[1] * un::si::radians); Mat r = prod(bc::ha_dec_ra_dec<>(a[2] * un::si::radians).get(), v.get()); add(o, r); break; }
    case K_ECL_RA: { bc::column_vector<> v(a[0] * un::si::radians, a[1] * un::si::radians); Mat r = prod(bc::ecliptic_to_ra_dec<>(bc::obliquity_of_ecliptic(boost::gregorian::date(c.y, c.mo, c.d)).get()).get(), v.get()); add(o, r); break; }
    case K_RA_ECL: { bc::column_vector<> v(a[0] * un::si::radians, a[1] * un::si::radians); Mat r = prod(bc::ra_dec_to_ecliptic<>(bc::obliquity_of_ecliptic(boost::gregorian::date(c.y, c.mo, c.d)).get()).get(), v.get()); add(o, r); break; }
    case K_GALACTIC: { bc::column_vector<> v(a[0] * un::si::radians, a[1] * un::si::radians); Mat r = prod(bc::galactic_to_ra_dec<>().get(), v.get()); Mat b = prod(bc::ra_dec_to_galactic<>().get(), r); add(o, b); break; }
    case K_OBLIQUITY: o.add(bc::obliquity_of_ecliptic(boost::gregorian::date(c.y, c.mo, c.d)).get().value()); break;
    case K_IMAGE: {
        std::string raw;
        { NotLib nl; for (int16_t x : c.pixels) raw += be((uint16_t)x, 2); }
        io::image<io::bitpix::B16, io::binary_data_converter> img;
        img.read_image(raw, (size_t)c.width);
        o.add(img.max()); o.add(img.min()); o.add(img.mean()); o.add(img.median()); o.add(img.std_dev());
        size_t k = c.pixels.size() / 2;
        o.add(img(k / c.width, k % c.width)); o.add((double)img.size());
        break;
    }
    case K_PRINT_POINT: { std::ostringstream s; s << cart(c) << sph(c); o.text = s.str(); break; }
    case K_PRINT_COORD: { std::ostringstream s; s << bc::horizon_coord<double, Rad, Rad>(a[0] * un::si::radians, a[1] * un::si::radians) << bc::ecliptic_coord<double, Rad, Rad>(a[1] * un::si::radians, a[0] * un::si::radians) << bc::galactic_coord<double, Rad, Rad>(a[1] * un::si::radians, a[0] * un::si::radians); o.text = s.str(); break; }
    case K_PRINT_TIME: { std::ostringstream s; s << decimal_hour(c.hh, c.mi, c.ss); o.text = s.str(); break; }
    case K_DEGREES: { SphDeg d(sph(c)); Sph b(d); o.add(b.get_lat().value()); o.add(b.get_lon().value()); o.add(b.get_dist().value()); break; }
    case K_KM: { // the second component in kilometres
        typedef un::quantity<decltype(un::si::kilo * un::si::meters)> Km;
        bc::cartesian_representation<double, Meter, Km, Meter> p(a[3] * un::si::meters, (a[4] / 1000) * (un::si::kilo * un::si::meters), a[5] * un::si::meters);
        o.add(bc::magnitude(p).value());
        bc::cartesian_representation<double, Meter, Km, Meter> q(a[3] * un::si::meters, a[4] * (un::si::kilo * un::si::meters), a[5] * un::si::meters);
        Cart m(q);
        o.add(m.get_x().value()); o.add(m.get_y().value()); o.add(m.get_z().value());
        break;
    }
    case K_MOTION: {
        auto d = bc::make_cartesian_differential(a[3] * un::si::meters / un::si::seconds, a[4] * un::si::meters / un::si::seconds, a[5] * un::si::meters / un::si::seconds);
        auto e = bc::make_cartesian_differential(a[0] * un::si::meters / un::si::seconds, a[1] * un::si::meters / un::si::seconds, a[2] * un::si::meters / un::si::seconds);
        auto s = d + e;
        o.add(d.get_dx().value()); o.add(d.get_dy().value()); o.add(d.get_dz().value());
        o.add(s.get_dx().value()); o.add(s.get_dy().value()); o.add(s.get_dz().value());
        break;
    }
    case K_CROSS_SPH: { auto x = bc::cross(sph(c), cart(c)); double q[3]; sph_xyz(x.get_lat().value(), x.get_lon().value(), x.get_dist().value(), q); for (double y : q) o.add(y); break; }
    case K_SPH_EQU: {
        double q[3];
        auto x = bc::make_spherical_equatorial_representation(sph(c)); equ_xyz(x.get_lat().value(), x.get_lon().value(), x.get_dist().value(), q); for (double y : q) o.add(y);
        auto z = bc::make_spherical_representation(Equ(a[0] * un::si::radians, a[1] * un::si::radians, a[2] * un::si::meters)); sph_xyz(z.get_lat().value(), z.get_lon().value(), z.get_dist().value(), q); for (double y : q) o.add(y);
        break;
    }
    case K_PAIR: {
        Equ e(a[1] * un::si::radians, a[0] * un::si::radians, 2 * a[2] * un::si::meters);
        double q[3];
        o.add(bc::dot(sph(c), e).value());
        auto x = bc::sum(sph(c), e); sph_xyz(x.get_lat().value(), x.get_lon().value(), x.get_dist().value(), q); for (double y : q) o.add(y);
        auto z = bc::mean(e, sph(c)); equ_xyz(z.get_lat().value(), z.get_lon().value(), z.get_dist().value(), q); for (double y : q) o.add(y);
        break;
    }
    case K_ACCESS: { // set and get
        Sph s; Cart p;
        s.set_lat(a[0] * un::si::radians); s.set_lon(a[1] * un::si::radians); s.set_dist(a[2] * un::si::meters);
        p.set_x(a[3] * un::si::meters); p.set_y(a[4] * un::si::meters); p.set_z(a[5] * un::si::meters);
        auto ts = s.get_lat_lon_dist(); auto tp = p.get_x_y_z();
        o.add(std::get<0>(ts).value()); o.add(std::get<1>(ts).value()); o.add(std::get<2>(ts).value());
        o.add(std::get<0>(tp).value()); o.add(std::get<1>(tp).value()); o.add(std::get<2>(tp).value());
        break;
    }
    }
}
static double tolerance(const Calc& c) { return c.kind == K_GALACTIC ? 1e-5 : 1e-8; }
static std::string describe(const Calc& c) { return fmt("%s(%g %g %g; %g %g %g; %04d-%02d-%02d %02d:%02d:%02d; %zu pixels)", kind_name[c.kind], c.a[0], c.a[1], c.a[2], c.a[3], c.a[4], c.a[5], c.y, c.mo, c.d, c.hh, c.mi, c.ss, c.pixels.size()); }
static std::string compare(const Calc& c, const Values& got) {
    Values want = expected(c);
    if (got.n != want.n) return "number of components";
    if (got.text != want.text) return "printed \"" + printable(got.text, 200) + "\" instead of \"" + printable(want.text, 200) + "\"";
    for (int i = 0; i < want.n; i++) {
        double d = std::abs(got.v[i] - want.v[i]), lim = tolerance(c) * (1 + std::abs(want.v[i]));
        if ((c.kind == K_GST || c.kind == K_LST) && d > 12) d = std::abs(24 - d);
        if (!(d <= lim)) return fmt("component %d is %.12g instead of %.12g", i, got.v[i], want.v[i]);
    }
    return "";
}
static Calc draw_calc(const std::vector<int>& kinds, uint32_t alike) {
    Calc c;
    Tape& t = W();
    c.kind = kinds[t.draw((uint32_t)kinds.size())];
    // arguments from small pools, so that calculations agree in some of their arguments and not in others
    static const std::vector<double> theta = {0.3, 1.1, -0.7, 2.9, -2.2}, phi = {0.4, 0.9, 1.3, 0.05, 1.5}, dist = {1, 2.5, 40, 1000.125};
    c.a[0] = theta[t.draw(alike)]; c.a[1] = phi[t.draw(alike)]; c.a[2] = dist[t.draw(std::min(alike, 4u))];
    if (c.kind == K_HORIZON || c.kind == K_HA_RA) c.a[2] = theta[t.draw(alike)];
    if (c.kind == K_LST) { static const std::vector<double> l = {64, -64, 0, 179.5, -10.25}; c.a[0] = l[t.draw(5)]; }
    for (int i = 3; i < 6; i++) { static const std::vector<double> x = {3, -4.5, 0.25, 77, -1000}; c.a[i] = x[t.draw(alike)]; }
    static const std::vector<int> ys = {1980, 2000, 1999, 1600, 2100, 1777}, ms = {4, 1, 2, 12, 7}, ds = {22, 1, 28, 15};
    c.y = ys[t.draw(alike + 1)]; c.mo = ms[t.draw(alike)]; c.d = ds[t.draw(std::min(alike, 4u))];
    static const std::vector<int> hs = {14, 0, 23, 6}, mis = {36, 0, 59, 1}, sss = {51, 0, 59, 30};
    c.hh = hs[t.draw(4)]; c.mi = mis[t.draw(4)]; c.ss = sss[t.draw(4)];
    if (c.kind == K_IMAGE) {
        static const std::vector<int> ws = {3, 1, 8};
        c.width = t.pick(ws);
        int n = c.width * (2 + (int)t.draw(6));
        uint64_t s = t.draw(1000);
        for (int i = 0; i < n; i++) c.pixels.push_back((int16_t)mix(s * 1000 + (uint64_t)i));
    }
    return c;
}
static bool same_bits(const Values& a, const Values& b) { return a.n == b.n && !memcmp(a.v, b.v, sizeof(double) * (size_t)a.n) && a.text == b.text; }

struct Step { size_t calc; bool starve = false, sticky = false; uint32_t at = 0; };
static void run() {
    // which calculations: all kinds, or a few related ones
    std::vector<int> kinds;
    static const std::vector<std::vector<int>> groups = {
        {K_JD, K_GST, K_LST, K_HMS}, {K_SPH_CART, K_EQU_CART, K_CART_SPH, K_CART_EQU, K_DEGREES, K_KM, K_ACCESS, K_SPH_EQU}, {K_DOT, K_CROSS, K_CROSS_SPH, K_PAIR, K_SUM, K_MEAN, K_MOTION}, {K_MAGNITUDE, K_UNIT, K_UNIT_SPH}, {K_HORIZON, K_HA_RA, K_GALACTIC},
        {K_ECL_RA, K_RA_ECL, K_OBLIQUITY}, {K_IMAGE}, {K_PRINT_POINT, K_PRINT_COORD, K_PRINT_TIME}};
    uint32_t g = W().draw(3);
    if (g == 0) for (int i = 0; i < NK; i++) kinds.push_back(i);
    else if (g == 1) kinds = groups[W().draw((uint32_t)groups.size())];
    else kinds.push_back((int)W().draw(NK));
    uint32_t alike = 1 + W().draw(5), nc = 2 + W().draw(8);
    std::vector<Calc> calcs;
    for (uint32_t i = 0; i < nc; i++) { calcs.push_back(draw_calc(kinds, alike)); log_event("%u: %s", i, describe(calcs.back()).c_str()); }
    set_dirty((uint8_t)F().draw(256));
    uint32_t clients = W().chance(2, 3) ? 2 + W().draw(3) : 1;
    std::vector<std::vector<Step>> prog(clients);
    for (auto& p : prog) {
        uint32_t n = 1 + W().skewed(10);
        for (uint32_t i = 0; i < n; i++) {
            Step s;
            s.calc = W().draw(nc);
            if (F().draw(5) == 4) { s.starve = true; s.at = F().draw(12); s.sticky = F().chance(1, 3); }
            p.push_back(s);
        }
    }
    std::vector<std::unique_ptr<Values>> first(nc);
    auto body = [&](int id, bool faults) {
        for (auto& s : prog[id]) {
            const Calc& c = calcs[s.calc];
            Values got;
            log_event("client %d calculates %zu%s", id + 1, s.calc, faults && s.starve ? " without memory" : "");
            if (faults && s.starve) arm_alloc(s.at, s.sticky);
            Outcome o = attempt([&] { calculate(c, got); });
            bool fired = alloc_fired();
            disarm_alloc();
            op();
            if (o.raised) {
                if (!fired) violate("unexpected-exception", describe(c) + " raised: " + o.what);
                probe("starved_calculation");
                continue;
            }
            std::string e = compare(c, got);
            if (fired) { std::string want = expected(c).text; if (got.text.size() < want.size() && want.compare(0, got.text.size(), got.text) == 0) continue; } // the stream of this harness ran out of memory: C14's business
            require_same(e, "wrong-result", describe(c));
            if (!first[s.calc]) first[s.calc].reset(new Values(got));
            else require(same_bits(*first[s.calc], got), "result-varies", describe(c) + " gives another result the second time");
            if (fired) probe("fault_without_effect");
        }
    };
    uint64_t points = 0;
    for (uint32_t i = 0; i < clients; i++) {
        if (i == 0) count_places(true);
        points += run_clients({[&] { body((int)i, false); }}, true);
    }
    count_places(false);
    log_event("together");
    std::vector<std::function<void()>> bodies;
    for (uint32_t i = 0; i < clients; i++) bodies.push_back([&, i] { body((int)i, true); });
    run_clients(bodies, true, points);
    // and alone again, in another order
    for (uint32_t i = 0; i < nc; i++) {
        size_t k = nc - 1 - i;
        Values got;
        must("calculating", [&] { calculate(calcs[k], got); });
        require_same(compare(calcs[k], got), "wrong-result", describe(calcs[k]));
        if (first[k]) require(same_bits(*first[k], got), "result-varies", describe(calcs[k]) + " gives another result the second time");
    }
    if (clients > 1) probe("several_clients");
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C17", run); }

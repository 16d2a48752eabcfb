// Adapter between the harnesses and the library under test (one translation unit per property:
// the library's headers define non-inline functions).
#ifndef VERIF_LIB_HPP
#define VERIF_LIB_HPP
#include "model.hpp"
#include "sim.hpp"
#include <boost/astronomy/io/fits.hpp>
#include <complex>
#include <cstdint>
#include <new>

namespace io = boost::astronomy::io;
using namespace sim;
using namespace model;
using Manager = io::default_hdu_manager<io::card_policy, io::ascii_converter, io::binary_data_converter>;
using Reader = io::fits_io<io::fits_stream, Manager>;
using Ext = Manager::Extension;
using Header = io::header<io::card_policy>;
using Card = io::card<io::card_policy>;

// ---- outcome of one library call -------------------------------------------------------------------
struct Outcome {
    bool raised = false, oom = false;
    std::string what;
    explicit operator bool() const { return !raised; }
};
template <class Fn> Outcome attempt(Fn f) {
    Outcome o;
    int depth = self().lib_depth;
    try {
        Lib in;
        f();
    }
    catch (Violation&) { self().lib_depth = depth; throw; }
    catch (std::bad_alloc& e) { self().lib_depth = 0; o.raised = o.oom = true; o.what = e.what(); self().lib_depth = depth; }
    catch (std::exception& e) { self().lib_depth = 0; o.raised = true; o.what = e.what(); self().lib_depth = depth; }
    catch (...) { self().lib_depth = depth; violate("non-std-exception", "an exception that is not derived from std::exception"); }
    return o;
}
// The call must succeed.
template <class Fn> void must(const char* what, Fn f) {
    Outcome o = attempt(f);
    if (o.raised) violate("unexpected-exception", fmt("%s raised: %s", what, o.what.c_str()));
}
inline void require(bool ok, const char* cls, const std::string& msg) { stats.checks++; if (!ok) violate(cls, msg); }
inline void require_same(const std::string& err, const char* cls, const std::string& ctx = "") { stats.checks++; if (!err.empty()) violate(cls, ctx.empty() ? err : ctx + ": " + err); }

inline io::bitpix to_bitpix(int b) {
    switch (b) { case 8: return io::bitpix::B8; case 16: return io::bitpix::B16; case 32: return io::bitpix::B32; case -32: return io::bitpix::_B32; default: return io::bitpix::_B64; }
}

// ---- canonical big-endian bytes of typed values ------------------------------------------------------
template <class U> std::string be(U u, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += (char)(u >> (8 * (n - 1 - i))); return s; }
inline std::string canon(bool v) { return v ? "T" : "F"; }
inline std::string canon(std::uint8_t v) { return std::string(1, (char)v); }
inline std::string canon(char v) { return std::string(1, v); }
inline std::string canon(boost::int16_t v) { return be((uint16_t)v, 2); }
inline std::string canon(boost::int32_t v) { return be((uint32_t)v, 4); }
inline std::string canon(float v) { uint32_t u; memcpy(&u, &v, 4); return be(u, 4); }
inline std::string canon(double v) { uint64_t u; memcpy(&u, &v, 8); return be(u, 8); }
inline std::string canon(std::pair<boost::int32_t, boost::int32_t> v) { return canon(v.first) + canon(v.second); }
template <class T> std::string canon(std::complex<T> v) { return canon((T)v.real()) + canon((T)v.imag()); }
template <class T> std::string canon(const std::vector<T>& v) { std::string s; for (size_t i = 0; i < v.size(); i++) s += canon((T)v[i]); return s; }
inline std::string canon_cell(char type, const std::string& raw) { // what typed reading shows of a raw cell
    if (type != 'L') return raw;
    std::string s;
    for (char c : raw) s += c == 'T' ? 'T' : 'F';
    return s;
}
template <class T> T uncanon_num(const std::string& s, size_t at) { uint64_t u = 0; for (size_t i = 0; i < sizeof(T); i++) u = u << 8 | (uint8_t)s[at + i]; T v; if (sizeof(T) == 2) { uint16_t x = (uint16_t)u; memcpy(&v, &x, 2); } else if (sizeof(T) == 4) { uint32_t x = (uint32_t)u; memcpy(&v, &x, 4); } else if (sizeof(T) == 1) { uint8_t x = (uint8_t)u; memcpy(&v, &x, 1); } else memcpy(&v, &u, sizeof(T)); return v; }
template <class T> struct Un { static T get(const std::string& s, size_t at) { return uncanon_num<T>(s, at); } static size_t size() { return sizeof(T); } };
template <> struct Un<bool> { static bool get(const std::string& s, size_t at) { return s[at] == 'T'; } static size_t size() { return 1; } };
template <class T> struct Un<std::complex<T>> { static std::complex<T> get(const std::string& s, size_t at) { return std::complex<T>(Un<T>::get(s, at), Un<T>::get(s, at + sizeof(T))); } static size_t size() { return 2 * sizeof(T); } };
template <> struct Un<std::pair<boost::int32_t, boost::int32_t>> { static std::pair<boost::int32_t, boost::int32_t> get(const std::string& s, size_t at) { return {Un<boost::int32_t>::get(s, at), Un<boost::int32_t>::get(s, at + 4)}; } static size_t size() { return 8; } };
template <class T> struct Un<std::vector<T>> { static std::vector<T> get(const std::string& s, size_t) { std::vector<T> v; for (size_t i = 0; i + Un<T>::size() <= s.size(); i += Un<T>::size()) v.push_back(Un<T>::get(s, i)); return v; } static size_t size() { return 0; } };

// Calls fn.template go<T>() with the scalar or vector type of a binary column.
template <class Fn> void with_binary_type(char type, bool vec, Fn& fn) {
    switch (type) {
    case 'L': vec ? fn.template go<std::vector<bool>>() : fn.template go<bool>(); break;
    case 'B': vec ? fn.template go<std::vector<std::uint8_t>>() : fn.template go<std::uint8_t>(); break;
    case 'X': fn.template go<std::vector<std::uint8_t>>(); break;
    case 'I': vec ? fn.template go<std::vector<boost::int16_t>>() : fn.template go<boost::int16_t>(); break;
    case 'J': vec ? fn.template go<std::vector<boost::int32_t>>() : fn.template go<boost::int32_t>(); break;
    case 'A': vec ? fn.template go<std::vector<char>>() : fn.template go<char>(); break;
    case 'E': vec ? fn.template go<std::vector<float>>() : fn.template go<float>(); break;
    case 'D': vec ? fn.template go<std::vector<double>>() : fn.template go<double>(); break;
    case 'C': vec ? fn.template go<std::vector<std::complex<float>>>() : fn.template go<std::complex<float>>(); break;
    case 'M': vec ? fn.template go<std::vector<std::complex<double>>>() : fn.template go<std::complex<double>>(); break;
    case 'P': vec ? fn.template go<std::vector<std::pair<boost::int32_t, boost::int32_t>>>() : fn.template go<std::pair<boost::int32_t, boost::int32_t>>(); break;
    }
}

// ---- comparing what the library shows with the model --------------------------------------------------
// All of these must be called inside attempt()/must(); they return "" or what is wrong.
inline std::string check_card_value(Header& h, const MCard& c, unsigned which) {
    auto bad = [&](const char* t) { NotLib n; return fmt("%s read as %s is wrong (card \"%s\")", c.key.c_str(), t, printable(c.text, 80).c_str()); };
    switch (c.kind) {
    case K_LOGICAL:
        if (which % 3 == 2) { if (h.value_of<std::string>(c.key) != c.s) return bad("string"); }
        else if (h.value_of<bool>(c.key) != c.b) return bad("bool");
        break;
    case K_INT:
        if (c.i != (long long)(int)c.i) { // beyond int
            switch (which % 4) {
            case 1: if (c.i >= 0 && h.value_of<std::size_t>(c.key) != (size_t)c.i) return bad("size_t"); break;
            case 2: if (h.value_of<double>(c.key) != c.d) return bad("double"); break;
            case 3: if (h.value_of<std::string>(c.key) != c.s) return bad("string"); break;
            default: if (h.value_of<long long>(c.key) != c.i) return bad("long long"); break;
            }
            break;
        }
        switch (which % 8) {
        case 1: if (h.value_of<long long>(c.key) != c.i) return bad("long long"); break;
        case 2: if (c.i >= 0 && h.value_of<std::size_t>(c.key) != (size_t)c.i) return bad("size_t"); break;
        case 3: if (h.value_of<double>(c.key) != c.d) return bad("double"); break;
        case 4: if (h.value_of<std::string>(c.key) != c.s) return bad("string"); break;
        case 5: if (c.i >= 0 && h.value_of<unsigned int>(c.key) != (unsigned)c.i) return bad("unsigned"); break;
        case 6: if (h.value_of<float>(c.key) != (float)c.d) return bad("float"); break;
        default: if (h.value_of<int>(c.key) != (int)c.i) return bad("int"); break;
        }
        break;
    case K_REAL:
        if (which % 3 == 1) { if (h.value_of<float>(c.key) != (float)c.d) return bad("float"); }
        else if (which % 3 == 2) { if (h.value_of<std::string>(c.key) != c.s) return bad("string"); }
        else if (h.value_of<double>(c.key) != c.d) return bad("double");
        break;
    case K_STRING: {
        std::string got = h.value_of<std::string>(c.key);
        if (got != c.s) return bad(("string: \"" + printable(got) + "\"").c_str());
        break;
    }
    case K_UNDEF: if (!h.value_of<std::string>(c.key).empty()) return bad("string"); break;
    case K_COMMENTARY: if (c.last_of_key && h.value_of<std::string>(c.key) != c.s) return bad("text"); break;
    case K_END: break;
    }
    return "";
}
inline std::string check_header(Header& h, const MHdu& m, unsigned salt = 0) {
    if (h.card_count() != m.cards.size()) { NotLib n; return fmt("header has %zu cards instead of %zu", h.card_count(), m.cards.size()); }
    if (h.bitpix() != to_bitpix(m.bitpix)) return "bitpix() is wrong";
    if (h.all_naxis() != m.naxis) return "all_naxis() is wrong";
    if (h.total_dimensions() != m.naxis.size()) return "total_dimensions() is wrong";
    for (size_t i = 0; i < m.naxis.size(); i++) if (h.naxis(i + 1) != m.naxis[i]) { NotLib n; return fmt("naxis(%zu) is wrong", i + 1); }
    if (h.data_size() != m.elements()) { NotLib n; return fmt("data_size() is %zu instead of %zu", h.data_size(), m.elements()); }
    if (h.get_hdu_name() != m.name) { NotLib n; return "get_hdu_name() is " + h.get_hdu_name(); }
    for (size_t i = 0; i < m.cards.size(); i++) {
        const MCard& c = m.cards[i];
        if (!h.contains_keyword(c.key)) { NotLib n; return "keyword " + c.key + " is missing"; }
        std::string e = check_card_value(h, c, (unsigned)(i + salt));
        if (!e.empty()) return e;
    }
    if (h.contains_keyword("NO-SUCH")) return "contains_keyword() finds a keyword that is not there";
    return "";
}
template <class Img> std::string check_pixels(Img img, const MHdu& m) {
    size_t n = m.elements(), es = m.elem_size();
    if (img.size() != n) { NotLib nl; return fmt("image has %zu pixels instead of %zu", img.size(), n); }
    if (n == 0) return "";
    size_t wd = m.naxis[0];
    for (size_t i = 0; i < n; i++) {
        auto v = img(i / wd, i % wd);
        NotLib nl;
        std::string got = canon(v);
        if (m.data.compare(i * es, es, got) != 0) return fmt("pixel %zu (row %zu, column %zu) is %s instead of %s", i, i / wd, i % wd, hex(got).c_str(), hex(m.data.substr(i * es, es)).c_str());
    }
    return "";
}
inline std::string check_image(const io::primary_hdu& p, const MHdu& m) {
    switch (m.bitpix) {
    case 8: return check_pixels(p.get_data<io::bitpix::B8>(), m);
    case 16: return check_pixels(p.get_data<io::bitpix::B16>(), m);
    case 32: return check_pixels(p.get_data<io::bitpix::B32>(), m);
    case -32: return check_pixels(p.get_data<io::bitpix::_B32>(), m);
    default: return check_pixels(p.get_data<io::bitpix::_B64>(), m);
    }
}
template <class Tab> std::string check_cells(const Tab& t, const MHdu& m) {
    const auto& d = t.get_data();
    if (m.naxis[0] == 0 && d.empty()) return "";
    if (d.size() != m.cells.size()) { NotLib nl; return fmt("table has %zu rows instead of %zu", d.size(), m.cells.size()); }
    for (size_t r = 0; r < d.size(); r++) {
        if (d[r].size() != m.cols.size()) { NotLib nl; return fmt("row %zu has %zu fields instead of %zu", r, d[r].size(), m.cols.size()); }
        for (size_t c = 0; c < d[r].size(); c++) { NotLib nl; std::string e = same_cell(m, r, c, d[r][c]); if (!e.empty()) return e; }
    }
    return "";
}
template <class Tab> std::string check_metadata(const Tab& t, const MHdu& m) {
    for (size_t i = 0; i < m.cols.size(); i++) {
        const MCol& c = m.cols[i];
        if (!c.named) continue;
        io::column k = t.get_column_metadata(c.name);
        NotLib nl;
        auto bad = [&](const char* w) { return fmt("metadata of column %zu (%s %s): %s is wrong", i, c.name.c_str(), c.form.c_str(), w); };
        if (k.index() != i + 1) return bad("index");
        if (k.TTYPE() != c.name) return bad("name");
        if (trim(k.TFORM()) != c.form) return bad("format");
        if (k.TUNIT() != (c.has_unit ? c.unit : "")) return bad("unit");
        if (k.TSCAL() != (c.has_scal ? c.scal : 1)) return bad("scale");
        if (k.TZERO() != (c.has_zero ? c.zero : 0)) return bad("zero");
        if (k.TBCOL() != c.tbcol) return bad("starting column");
        if (m.kind == H_BINARY) {
            if (k.TDISP() != (c.has_disp ? c.disp : "")) return bad("display format");
            if (k.TDIM() != (c.has_dim ? c.dim : "")) return bad("dimensions");
            if (k.total_elements() != c.elements) return bad("number of elements");
        }
    }
    return "";
}
template <class T, class View> std::string view_values(View& v, const MHdu& m, size_t col, bool iterate) {
    size_t rows = m.cells.size();
    if (v.get_row_count() != rows) { NotLib nl; return fmt("column %zu has %zu rows instead of %zu", col, v.get_row_count(), rows); }
    if (v.get_column_number() != (int)col + 1) { NotLib nl; return fmt("column %zu says it is column %d", col, v.get_column_number()); }
    size_t r = 0;
    auto one = [&](const T& x) -> std::string {
        NotLib nl;
        std::string got = canon(x), want = canon_cell(m.cols[col].type, m.cells[r][col]);
        if (got != want) return fmt("value (row %zu, column %zu %s) reads as %s instead of %s", r, col, m.cols[col].form.c_str(), hex(got).c_str(), hex(want).c_str());
        return "";
    };
    if (iterate) {
        for (auto it = v.begin(); it != v.end(); ++it, ++r) {
            if (r >= rows) return "iteration passes the end";
            T x = *it;
            std::string e = one(x);
            if (!e.empty()) return e;
        }
        if (r != rows) return "iteration ends early";
    } else for (; r < rows; r++) {
        T x = v[(int)r];
        std::string e = one(x);
        if (!e.empty()) return e;
    }
    return "";
}
struct BinView {
    io::binary_table& t; const MHdu& m; size_t col; bool iterate; std::string err;
    template <class T> void go() { err = view_values<T>(t.template get_column<T>(m.cols[col].name), m, col, iterate); }
};
inline std::string check_binary_column(io::binary_table& t, const MHdu& m, size_t col, bool vec, bool iterate) {
    const MCol& c = m.cols[col];
    if (c.elements != 1) vec = true;
    BinView f{t, m, col, iterate, ""};
    with_binary_type(c.type, vec, f);
    return f.err;
}
inline std::string check_ascii_column(const io::ascii_table& t, const MHdu& m, size_t col, bool wide) {
    const MCol& c = m.cols[col];
    auto bad = [&](size_t r) { NotLib nl; return fmt("value (row %zu, column %zu %s) of cell \"%s\" reads wrong", r, col, c.form.c_str(), printable(m.cells[r][col]).c_str()); };
    auto num = [&](size_t r) { NotLib nl; std::string s = m.cells[r][col]; for (auto& ch : s) if (ch == 'D') ch = 'E'; return strtod(s.c_str(), nullptr); };
    if (c.type == 'A') {
        auto& v = t.get_column<std::string>(c.name);
        for (size_t r = 0; r < m.cells.size(); r++) { std::string x = v[(int)r]; if (x != m.cells[r][col]) return bad(r); }
    } else if (c.type == 'I') {
        auto& v = t.get_column<long long>(c.name);
        if (v.get_row_count() != m.cells.size()) return "wrong row count";
        for (size_t r = 0; r < m.cells.size(); r++) { long long x = v[(int)r]; if (x != atoll(m.cells[r][col].c_str())) return bad(r); }
    } else if (wide) {
        auto& v = t.get_column<double>(c.name);
        for (size_t r = 0; r < m.cells.size(); r++) { double x = v[(int)r]; if (x != num(r)) return bad(r); }
    } else {
        auto& v = t.get_column<float>(c.name);
        for (size_t r = 0; r < m.cells.size(); r++) { float x = v[(int)r]; if (x != (float)num(r)) return bad(r); }
    }
    return "";
}
enum { WITH_DATA = 1, TYPED = 2, META = 4, NO_DATA = 8 };
inline std::string check_hdu(Ext& e, const MHdu& m, int what, unsigned salt = 0) {
    static const int which[] = {1, 3, 2, 0};
    if (e.which() != which[m.kind]) { NotLib nl; return fmt("HDU is of kind %d instead of %d (%s)", e.which(), which[m.kind], m.name.c_str()); }
    if (m.kind == H_OTHER) return "";
    std::string r;
    if (m.kind == H_PRIMARY) {
        auto& p = io::fits::convert_to<io::primary_hdu>(e);
        Header h = p.get_header();
        r = check_header(h, m, salt);
        if (!r.empty()) return r;
        if (!p.is_simple()) return "is_simple() is false";
        if (p.is_extended() != (m.has_extend && m.extend)) return "is_extended() is wrong";
        if (what & WITH_DATA) return check_image(p, m);
        if (what & NO_DATA) { MHdu x; { NotLib nl; x.bitpix = m.bitpix; } r = check_image(p, x); return r.empty() ? r : "data although only headers were read"; }
        return "";
    }
    if (m.kind == H_BINARY) {
        auto& t = io::fits::convert_to<io::binary_table>(e);
        Header h = t.get_header();
        r = check_header(h, m, salt);
        if (!r.empty()) return r;
        if (what & META) { r = check_metadata(t, m); if (!r.empty()) return r; }
        if (what & WITH_DATA) {
            r = check_cells(t, m);
            if (!r.empty()) return r;
            if (what & TYPED) for (size_t c = 0; c < m.cols.size(); c++) if (m.cols[c].named) {
                r = check_binary_column(t, m, c, (salt + c) % 2, (salt + c) % 3 == 0);
                if (!r.empty()) return r;
            }
        }
        if ((what & NO_DATA) && !t.get_data().empty()) return "table data although only headers were read";
        return "";
    }
    auto& t = io::fits::convert_to<io::ascii_table>(e);
    Header h = t.get_header();
    r = check_header(h, m, salt);
    if (!r.empty()) return r;
    if (what & META) { r = check_metadata(t, m); if (!r.empty()) return r; }
    if (what & WITH_DATA) {
        r = check_cells(t, m);
        if (!r.empty()) return r;
        if (what & TYPED) for (size_t c = 0; c < m.cols.size(); c++) if (m.cols[c].named) {
            r = check_ascii_column(t, m, c, (salt + c) % 2);
            if (!r.empty()) return r;
        }
    }
    if ((what & NO_DATA) && !t.get_data().empty()) return "table data although only headers were read";
    return "";
}
inline size_t hdu_count(Reader& r) { return r.get_hdu_list().size(); }
// The first n HDUs (n = npos: all) of the reader are those of the file and there are no others.
inline std::string check_reader(Reader& r, const MFile& f, int what, unsigned salt = 0, size_t n = (size_t)-1) {
    if (n == (size_t)-1) n = f.hdus.size();
    size_t have = hdu_count(r);
    if (have != n) { NotLib nl; return fmt("%zu HDUs instead of %zu", have, n); }
    for (size_t i = 0; i < n; i++) {
        std::string e = check_hdu(r[(int)i], f.hdus[i], what, salt + (unsigned)i);
        if (!e.empty()) { NotLib nl; return fmt("HDU %zu (%s): ", i, f.hdus[i].name.c_str()) + e; }
    }
    return "";
}
// In a scope of its own: no fault applies to what runs inside.
struct NoFaults {
    Client save;
    NoFaults() : save(self()) { Client& c = self(); c.fault = F_NONE; c.alloc_armed = false; c.chunk = Chunking(); }
    ~NoFaults() { Client& c = self(); c.fault = save.fault; c.fault_at = save.fault_at; c.fault_arg = save.fault_arg; c.fired = save.fired; c.sys_count = save.sys_count; c.chunk = save.chunk; c.alloc_armed = save.alloc_armed; c.alloc_count = save.alloc_count; c.alloc_fired = save.alloc_fired; }
};
inline std::vector<const MHdu*> savable(const MFile& f) { std::vector<const MHdu*> v; for (auto& h : f.hdus) if (h.kind != H_OTHER) v.push_back(&h); return v; }
inline std::string check_saved_file(const std::string& path, const MFile& f) {
    std::vector<DHdu> d;
    std::string e = decode(disk_get(path), d);
    if (!e.empty()) return "not well-formed: " + e;
    return compare_saved(d, savable(f));
}
#endif

// Column handles of any type behind one interface, and what they must show.
#ifndef VERIF_HANDLES_HPP
#define VERIF_HANDLES_HPP
#include "edit.hpp"
#include <memory>
// A handle on one column, hiding its type. Values travel as canonical bytes (binary) or text (ASCII).
struct Handle {
    size_t hdu, col;
    std::string how;
    virtual ~Handle() {}
    virtual std::string read(size_t row) = 0;                 // canonical bytes of the value read
    virtual std::string iterate(size_t row) = 0;
    virtual void write(size_t row, const NewValue& v) = 0;
    virtual void write_iter(size_t row, const NewValue& v) = 0;
    virtual std::string copy_cell(size_t to, size_t from) = 0; // v[to] = v[from]; what v[to] shows then
    virtual std::string held(size_t row, const NewValue& a) = 0; // a proxy held across its own edit
    virtual size_t rows() = 0;
    virtual int number() = 0;
    virtual std::shared_ptr<Handle> copy() = 0;
};
template <class T> T from_value(const MHdu&, const NewValue& v, T*) { return Un<T>::get(v.cell, 0); }
inline std::string from_value(const MHdu&, const NewValue& v, std::string*) { return v.cell; }
// ASCII values: canonical text
template <class T> struct Ascii { static T of(const NewValue& v) { return (T)v.d; } static std::string canon(T v) { return fmt("%.17g", (double)v); } };
template <> struct Ascii<long long> { static long long of(const NewValue& v) { return v.i; } static std::string canon(long long v) { return fmt("%.17g", (double)v); } };
template <> struct Ascii<std::string> { static std::string of(const NewValue& v) { return v.cell; } static std::string canon(const std::string& v) { return v; } };
struct BinaryCodec { template <class T> static T of(const NewValue& v) { return Un<T>::get(v.cell, 0); } template <class T> static std::string out(const T& v) { return ::canon(v); } };
struct AsciiCodec { template <class T> static T of(const NewValue& v) { return Ascii<T>::of(v); } template <class T> static std::string out(const T& v) { return Ascii<T>::canon(v); } };
template <class T, class View, class Codec> struct TypedHandle : Handle {
    View own;      // a copy of the view
    View* v;       // or the table's own view
    TypedHandle(View& ref, bool by_copy) : v(&ref) { if (by_copy) { own = ref; v = &own; } }
    T val(const NewValue& x) { NotLib nl; return Codec::template of<T>(x); }
    std::string out(const T& x) { NotLib nl; return Codec::template out<T>(x); }
    std::string read(size_t row) override { T x = (*v)[(int)row]; return out(x); }
    std::string iterate(size_t row) override {
        size_t r = 0;
        for (auto it = v->begin(); it != v->end(); ++it, ++r) if (r == row) { T x = *it; return out(x); }
        return "(iteration ended early)";
    }
    void write(size_t row, const NewValue& x) override { T n = val(x); (*v)[(int)row] = n; }
    void write_iter(size_t row, const NewValue& x) override {
        T n = val(x);
        size_t r = 0;
        for (auto it = v->begin(); it != v->end(); ++it, ++r) if (r == row) { *it = n; return; }
        violate("iteration-ends-early", how);
    }
    std::string copy_cell(size_t to, size_t from) override { auto a = (*v)[(int)to]; a = (*v)[(int)from]; NoFaults nf; T seen = a; return out(seen); }
    std::string held(size_t row, const NewValue& x) override { T n = val(x); auto p = (*v)[(int)row]; p = n; T seen = p; return out(seen); }
    size_t rows() override { return v->get_row_count(); }
    int number() override { return v->get_column_number(); }
    std::shared_ptr<Handle> copy() override { auto h = std::make_shared<TypedHandle>(*v, true); h->hdu = hdu; h->col = col; h->how = how + " copied"; return h; }
};
struct MakeBin {
    io::binary_table& t; const std::string& name; int how; std::shared_ptr<Handle> h;
    template <class T> void go() {
        using View = io::column_view<T, io::binary_data_converter>;
        using H = TypedHandle<T, View, BinaryCodec>;
        if (how == 2) { View v = t.template make_column_view<T, io::binary_data_converter>(name); NotLib nl; h = std::make_shared<H>(v, true); }
        else { View& v = t.template get_column<T>(name); NotLib nl; h = std::make_shared<H>(v, how == 1); }
    }
};
template <class T> std::shared_ptr<Handle> make_ascii(io::ascii_table& t, const std::string& name, int how) {
    using View = io::column_view<T, io::ascii_converter>;
    using H = TypedHandle<T, View, AsciiCodec>;
    if (how == 2) { View v = t.make_column_view<T, io::ascii_converter>(name); NotLib nl; return std::make_shared<H>(v, true); }
    View& v = t.get_column<T>(name);
    NotLib nl;
    return std::make_shared<H>(v, how == 1);
}
enum { A_STRING, A_LL, A_FLOAT, A_DOUBLE };
struct Slot { std::shared_ptr<Handle> h; int atype = -1; bool vec = false; };

// What a handle must show of one cell.
inline std::string handle_want(const Slot& s, const MHdu& m, size_t row) {
    const std::string& c = m.cells[row][s.h->col];
    if (m.kind == H_BINARY) return canon_cell(m.cols[s.h->col].type, c);
    if (s.atype == A_STRING) return c;
    std::string x = c;
    for (auto& ch : x) if (ch == 'D') ch = 'E';
    double d = strtod(x.c_str(), nullptr);
    return fmt("%.17g", s.atype == A_FLOAT ? (double)(float)d : d);
}
inline void check_slot(const Slot& s, const MHdu& m, size_t row, bool iter) {
    // an ASCII number stored by an edit keeps its value; its text is free
    std::string got;
    must("reading a column value", [&] { got = iter ? s.h->iterate(row) : s.h->read(row); });
    op();
    if (m.kind == H_ASCII && s.atype == A_STRING && m.edited[row][s.h->col]) {
        got = fmt("%.17g", strtod(got.c_str(), nullptr));
        Slot d = s; d.atype = A_DOUBLE;
        require(got == handle_want(d, m, row), "stale-or-wrong-value", fmt("hdu %zu row %zu col %zu through %s: %s instead of %s", s.h->hdu, row, s.h->col, s.h->how.c_str(), got.c_str(), handle_want(d, m, row).c_str()));
        return;
    }
    require(got == handle_want(s, m, row), "stale-or-wrong-value", fmt("hdu %zu row %zu col %zu through %s%s: %s instead of %s", s.h->hdu, row, s.h->col, s.h->how.c_str(), iter ? " (iterating)" : "", printable(hex(got)).c_str(), printable(hex(handle_want(s, m, row))).c_str()));
}
// Takes a handle on column c of a table (how and type drawn).
inline Slot make_slot(Tape& w, Ext& e, const MHdu& m, size_t hdu, size_t c) {
    const MCol& k = m.cols[c];
    Slot s;
    int how = (int)w.draw(3);
    if (m.kind == H_BINARY) {
        s.vec = w.chance(1, 2) || k.elements != 1;
        must("getting a column", [&] {
            MakeBin b{io::fits::convert_to<io::binary_table>(e), k.name, how, nullptr};
            with_binary_type(k.type, s.vec, b);
            NotLib nl;
            s.h = b.h;
        });
    } else {
        if (k.type == 'A') s.atype = A_STRING;
        else if (k.type == 'I') { static const std::vector<int> ts = {A_LL, A_DOUBLE, A_STRING}; s.atype = w.pick(ts); }
        else { static const std::vector<int> ts = {A_DOUBLE, A_FLOAT, A_STRING}; s.atype = w.pick(ts); }
        must("getting a column", [&] {
            auto& t = io::fits::convert_to<io::ascii_table>(e);
            std::shared_ptr<Handle> x = s.atype == A_STRING ? make_ascii<std::string>(t, k.name, how) : s.atype == A_LL ? make_ascii<long long>(t, k.name, how) : s.atype == A_FLOAT ? make_ascii<float>(t, k.name, how) : make_ascii<double>(t, k.name, how);
            NotLib nl;
            s.h = x;
        });
    }
    static const char* names[] = {"get_column", "a copy of get_column", "make_column_view"};
    s.h->hdu = hdu; s.h->col = c; s.h->how = fmt("%s%s", names[how], s.vec ? " (vector)" : "");
    log_event("handle on hdu %zu col %zu: %s", hdu, c, s.h->how.c_str());
    return s;
}
// A value that can be stored through this handle and reads back unchanged.
inline NewValue slot_value(Tape& w, const Slot& s, const MHdu& m) {
    size_t col = s.h->col;
    NewValue v = draw_value(w, m, col);
    if (m.kind == H_ASCII && s.atype == A_STRING) v.number = false;
    // floating point numbers are stored in ASCII cells with six digits
    if (m.kind == H_ASCII && s.atype == A_DOUBLE && m.cols[col].type == 'I') { v.i %= 1000; v.d = (double)v.i; v.cell = fmt("%lld", v.i); }
    return v;
}
#endif

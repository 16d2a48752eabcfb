// Edits of table cells through the library, mirrored in the model.
#ifndef VERIF_EDIT_HPP
#define VERIF_EDIT_HPP
#include "lib.hpp"

struct NewValue {           // a value for one cell
    std::string cell;       // binary: canonical bytes; ASCII: text of the value
    bool number = false;    // ASCII: compare as number
    double d = 0;
    long long i = 0;
};
inline NewValue draw_value(Tape& w, const MHdu& m, size_t col) {
    const MCol& c = m.cols[col];
    NewValue v;
    uint32_t seed = w.draw(1 << 12), salt = w.draw(64);
    if (m.kind == H_BINARY) { v.cell = canon_cell(c.type, gen_cell(seed, c, true, salt)); return v; }
    if (c.type == 'A') { v.cell = gen_cell(seed, c, false, salt); return v; }
    v.number = true;
    if (c.type == 'I') { v.cell = gen_cell(seed, c, false, salt); v.i = atoll(v.cell.c_str()); v.d = (double)v.i; return v; }
    static const double d[] = {0, 12.5, -3.25, 1000, 0.5, -0.125, 99.75, -7};
    v.d = d[salt % 8];
    v.cell = fmt("%g", v.d);
    return v;
}
inline void model_set(MHdu& m, size_t r, size_t c, const NewValue& v) { m.cells[r][c] = v.cell; m.edited[r][c] = v.number; }

struct BinSet {
    io::binary_table& t; const std::string& name; int row; const std::string& bytes;
    template <class T> void go() { T v; { NotLib nl; v = Un<T>::get(bytes, 0); } t.template get_column<T>(name)[row] = v; }
};
inline void lib_set(io::binary_table& t, const MHdu& m, size_t r, size_t c, const NewValue& v, bool vec) {
    BinSet s{t, m.cols[c].name, (int)r, v.cell};
    with_binary_type(m.cols[c].type, vec || m.cols[c].elements != 1, s);
}
inline void lib_set(io::ascii_table& t, const MHdu& m, size_t r, size_t c, const NewValue& v, bool wide) {
    const MCol& k = m.cols[c];
    if (k.type == 'A') t.get_column<std::string>(k.name)[(int)r] = v.cell;
    else if (k.type == 'I') t.get_column<long long>(k.name)[(int)r] = v.i;
    else if (wide) t.get_column<double>(k.name)[(int)r] = v.d;
    else t.get_column<float>(k.name)[(int)r] = (float)v.d;
}
inline bool editable(const MHdu& m, size_t c) { return m.cols[c].named && (m.kind == H_ASCII || m.cols[c].width > 0); }
inline void lib_set(Ext& e, const MHdu& m, size_t r, size_t c, const NewValue& v, bool alt) {
    if (m.kind == H_BINARY) lib_set(io::fits::convert_to<io::binary_table>(e), m, r, c, v, alt);
    else lib_set(io::fits::convert_to<io::ascii_table>(e), m, r, c, v, alt);
}
// Draws one edit of one table of the file and applies it. False if there is nothing to edit.
inline bool draw_target(Tape& w, const MFile& f, size_t& h, size_t& r, size_t& c) {
    std::vector<size_t> t;
    for (size_t i = 0; i < f.hdus.size(); i++) if (!f.hdus[i].cells.empty() && !f.hdus[i].cols.empty()) t.push_back(i);
    if (t.empty()) return false;
    h = w.pick(t);
    const MHdu& m = f.hdus[h];
    std::vector<size_t> cs;
    for (size_t i = 0; i < m.cols.size(); i++) if (editable(m, i)) cs.push_back(i);
    if (cs.empty()) return false;
    c = w.pick(cs);
    r = draw_row(w, m.cells.size());
    return true;
}
inline bool random_edit(Tape& w, Reader& rd, MFile& f) {
    size_t h, r, c;
    if (!draw_target(w, f, h, r, c)) return false;
    NewValue v = draw_value(w, f.hdus[h], c);
    bool alt = w.chance(1, 2), raw = w.draw(5) == 4;
    log_event("edit hdu %zu row %zu col %zu := %s", h, r, c, f.hdus[h].kind == H_BINARY ? hex(v.cell).c_str() : v.cell.c_str());
    must("editing a cell", [&] {
        Ext& e = rd[(int)h];
        if (raw) {
            if (f.hdus[h].kind == H_BINARY) io::fits::convert_to<io::binary_table>(e).get_data()[r][c] = v.cell;
            else io::fits::convert_to<io::ascii_table>(e).get_data()[r][c] = v.cell;
        } else lib_set(e, f.hdus[h], r, c, v, alt);
    });
    model_set(f.hdus[h], r, c, v);
    op();
    return true;
}
// What the saved form of the file holds (unsupported extensions are not saved).
inline MFile saved_form(const MFile& f) {
    MFile s;
    for (auto& h : f.hdus) if (h.kind != H_OTHER) { s.hdus.push_back(h); s.hdus.back().rebuild_data(); }
    s.layout();
    return s;
}
#endif

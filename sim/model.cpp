#include "model.hpp"
#include <algorithm>
#include <cstdlib>
#include <set>

namespace model {
using sim::fmt;
using sim::mix;
using sim::printable;

// ---- cards -----------------------------------------------------------------------------------------
static std::string with_comment(std::string t, const std::string& c) {
    if (!c.empty() && t.size() + 3 < 80) { t = pad(t, std::min<size_t>(30, 77)); t += " / " + c; }
    if (t.size() > 80) t.resize(80);
    return pad(t, 80);
}
MCard card_int(const std::string& key, long long v, const std::string& comment) {
    MCard c; c.key = key; c.kind = K_INT; c.i = v; c.d = (double)v; c.s = std::to_string(v);
    std::string x = c.s;
    c.text = with_comment(pad(key, 8) + "= " + std::string(x.size() < 20 ? 20 - x.size() : 0, ' ') + x, comment);
    return c;
}
MCard card_logical(const std::string& key, bool v, const std::string& comment) {
    MCard c; c.key = key; c.kind = K_LOGICAL; c.b = v; c.s = v ? "T" : "F";
    c.text = with_comment(pad(key, 8) + "= " + std::string(19, ' ') + c.s, comment);
    return c;
}
static std::string quote(const std::string& v, size_t min) {
    std::string q = "'";
    for (char ch : v) { q += ch; if (ch == '\'') q += '\''; }
    if (q.size() < min + 1) q.resize(min + 1, ' ');
    return q + "'";
}
MCard card_string(const std::string& key, const std::string& v, const std::string& comment) {
    MCard c; c.key = key; c.kind = K_STRING; c.s = rtrim_blank(v);
    std::string t = pad(key, 8) + "= " + quote(v, v.empty() ? 0 : 8);
    c.text = with_comment(t, comment);
    return c;
}
MCard card_real(const std::string& key, const std::string& text, double v, const std::string& comment) {
    MCard c; c.key = key; c.kind = K_REAL; c.d = v; c.s = text;
    c.text = with_comment(pad(key, 8) + "= " + std::string(text.size() < 20 ? 20 - text.size() : 0, ' ') + text, comment);
    return c;
}
MCard card_commentary(const std::string& key, const std::string& text) {
    MCard c; c.key = key; c.kind = K_COMMENTARY; c.s = trim(text);
    c.text = pad(pad(key, 8) + text, 80);
    return c;
}
MCard card_end() { MCard c; c.key = "END"; c.kind = K_END; c.text = pad("END", 80); return c; }

// ---- HDU -------------------------------------------------------------------------------------------
size_t MHdu::elements() const {
    if (naxis.empty()) return 0;
    size_t n = 1;
    for (size_t a : naxis) n *= a;
    if (kind != H_PRIMARY) n = gcount * (pcount + n);
    return n;
}
std::string MHdu::header_text() const {
    std::string s;
    for (auto& c : cards) s += c.text;
    return s + card_end().text;
}
std::string MHdu::header_bytes() const { std::string s = header_text(); s.resize(up2880(s.size()), ' '); return s; }
std::string MHdu::data_bytes() const { std::string s = data; s.resize(up2880(s.size()), kind == H_ASCII ? ' ' : '\0'); return s; }
const MCard* MHdu::find(const std::string& key) const {
    const MCard* r = nullptr;
    for (auto& c : cards) if (c.key == key) r = &c;
    return r;
}
void MHdu::rebuild_data() {
    if (kind == H_BINARY) {
        data.clear();
        for (auto& r : cells) for (auto& c : r) data += c;
        data += heap;
    } else if (kind == H_ASCII) {
        data.clear();
        for (size_t r = 0; r < cells.size(); r++) {
            std::string row(naxis[0], ' ');
            for (size_t c = 0; c < cols.size(); c++) {
                const std::string& t = cells[r][c];
                size_t at = cols[c].offset + (cols[c].type == 'A' ? 0 : cols[c].width - t.size());
                row.replace(at, t.size(), t);
            }
            data += row;
        }
    }
}
std::string MHdu::describe() const {
    std::string s = fmt("%s cards=%zu bitpix=%d naxis=[", name.c_str(), cards.size() + 1, bitpix);
    for (size_t i = 0; i < naxis.size(); i++) s += fmt("%s%zu", i ? "," : "", naxis[i]);
    s += fmt("] pcount=%zu gcount=%zu data=%zu", pcount, gcount, data.size());
    for (auto& c : cols) s += fmt(" %s:%s%s", c.named ? c.name.c_str() : "(unnamed)", c.form.c_str(), kind == H_ASCII ? fmt("@%zu", c.tbcol).c_str() : "");
    return s;
}
void MFile::layout() {
    size_t p = 0;
    for (auto& h : hdus) {
        h.header_pos = p;
        p += h.header_bytes().size();
        h.data_pos = p;
        p += h.data_bytes().size();
    }
}
std::string MFile::bytes() const { std::string s; for (auto& h : hdus) { s += h.header_bytes(); s += h.data_bytes(); } return s; }
std::string MFile::describe() const { std::string s; for (auto& h : hdus) s += (s.empty() ? "" : " | ") + h.describe(); return s; }

// ---- content ---------------------------------------------------------------------------------------
std::string content(uint32_t seed, size_t n) {
    std::string s(n, '\0');
    if (seed == 0) return s;
    uint64_t m = mix(seed);
    static const char ws[] = " \t\n\r\v\f\0x";
    for (size_t i = 0; i < n; i++) {
        uint64_t r = mix(m + i);
        switch (seed % 8) {
        case 0: s[i] = (char)(i * 7 + seed); break;
        case 1: s[i] = ' '; break;
        case 2: s[i] = (char)r; break;
        case 3: s[i] = (char)(r % 3 ? 0xff : r >> 8); break;
        case 4: s[i] = ws[r % 8]; break;
        case 5: s[i] = r % 4 == 0 ? ' ' : (char)r; break;
        case 6: s[i] = (char)(r >> 8); break;
        case 7: s[i] = (char)(32 + r % 95); break;
        }
    }
    return s;
}
void quiet_nans(std::string& s, size_t size) {
    for (size_t i = 0; i + size <= s.size(); i += size) {
        unsigned char a = s[i], b = s[i + 1];
        if (size == 4) { if ((a & 0x7f) == 0x7f && (b & 0x80)) s[i + 1] = (char)(b | 0x40); }
        else { if ((a & 0x7f) == 0x7f && (b & 0xf0) == 0xf0) s[i + 1] = (char)(b | 0x08); }
    }
}
static const char* alpha = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-./'()[]{}#&%$,;:!?<>=*@^_|~";
std::string gen_cell(uint32_t seed, const MCol& c, bool binary, size_t salt) {
    uint64_t r = mix(mix(seed) + salt * 0x9e37);
    if (binary) {
        std::string s = content(seed == 0 ? 0 : seed + (uint32_t)(salt % 5) * 8 + (uint32_t)(salt * 64), c.width);
        if (c.type == 'L') for (size_t i = 0; i < s.size(); i++) s[i] = seed == 0 ? 'F' : "TF\0T"[mix(r + i) % 4];
        if (c.type == 'A') for (auto& ch : s) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) ch = seed == 0 ? 'a' : (char)(32 + (unsigned char)ch % 95);
        if (c.type == 'E' || c.type == 'C') quiet_nans(s, 4);
        if (c.type == 'D' || c.type == 'M') quiet_nans(s, 8);
        if (c.type == 'X' && c.repeat % 8 && !s.empty()) s.back() = (char)((unsigned char)s.back() & (0xff << (8 - c.repeat % 8)));
        return s;
    }
    size_t w = c.width;
    if (c.type == 'A') {
        size_t len = seed == 0 ? std::min<size_t>(1, w) : r % 4 == 0 ? w : r % (w + 1);
        std::string s;
        for (size_t i = 0; i < len; i++) { uint64_t q = mix(r + i); s += seed == 0 ? 'a' : (q % 6 == 0 ? ' ' : alpha[q % strlen(alpha)]); }
        return trim(s);
    }
    if (c.type == 'I') {
        if (seed == 0) return "0";
        size_t digits = 1 + r % std::min<size_t>(w, 9);
        std::string s;
        if (r >> 40 & 1 && digits > 1) { s = "-"; digits--; }
        for (size_t i = 0; i < digits; i++) s += (char)('0' + (i == 0 ? 1 + mix(r + i) % 9 : mix(r + i) % 10));
        return s;
    }
    // F, E, D: exactly representable, at most 6 significant digits
    static const char* f[] = {"0.0", "1.5", "-2.25", "100.125", "-0.5", "12.75", "3.0", "-8.0"};
    static const char* e[] = {"0.0", "1.5E3", "-2.5E0", "1.25E2", "-5.0E-1", "1.0E6", "7.5E1", "2.0E0"};
    std::string s = c.type == 'F' ? f[seed == 0 ? 0 : r % 8] : e[seed == 0 ? 0 : r % 8];
    if (c.type == 'D' && (r >> 20 & 1)) std::replace(s.begin(), s.end(), 'E', 'D');
    if (s.size() > w) s = "0";
    return s;
}

// ---- generator -------------------------------------------------------------------------------------
static MCard gen_extra(Tape& w, int n, std::set<std::string>& used) {
    static const std::vector<std::string> nm = {"KEY", "OBJECT", "DATE-OBS", "A", "X_1-Y", "EXPTIME", "OBSERVER", "TELESCOP", "BSCALE", "CRVAL1", "ENDX", "COMMENTS", "E", "HISTORYX", "Q9_-", "EQUINOX", "FILTER", "SIMPLEX", "TFOR", "NAXIS00"};
    std::string key = w.pick(nm);
    if (used.count(key)) key = fmt("K%d", n);
    if (used.count(key)) key = fmt("KX%d", n);
    std::string com;
    uint32_t cm = w.draw(5);
    if (cm == 1) com = "a comment";
    if (cm == 2) com = "with / slash and 'quotes'";
    if (cm == 3) com = "= T / 5";
    if (cm == 4) com = "[unit] x = y";
    uint32_t k = w.draw(10);
    MCard c;
    switch (k) {
    case 0: {
        static const std::vector<long long> big = {2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, 9007199254740993LL, 9223372036854775807LL, -9223372036854775807LL - 1};
        c = card_int(key, w.draw(8) == 7 ? w.pick(big) : (long long)w.draw(100000), com);
        break;
    }
    case 1: c = card_logical(key, w.chance(1, 2), com); break;
    case 2: {
        static const std::vector<std::string> v = {"x", "", "NGC 1234", "a/b", "O'Neill", "'", "''", "/", " lead", "  two  inner  ", "T", "42", "= eq", "ends with blank ", "it's / a 'test'", "SIMPLE  =", "END", "1234567890123456789012345678901234567890", "'quoted'", "12.5 / 3",
            "12345678901234567890123456789012345678901234567890123456789012345678", "a/b'c 890123456789012345678901234567890123456789012345678901234567'"};
        c = card_string(key, w.pick(v), com);
        break;
    }
    case 3: {
        static const std::vector<std::pair<std::string, double>> v = {{"1.5", 1.5}, {"-0.25", -0.25}, {"1.0E3", 1000}, {"2.5E-1", 0.25}, {"3.0D2", 300}, {"-1.25D+1", -12.5}, {"0.", 0}, {".5", 0.5}, {"1024.125", 1024.125}};
        auto p = w.pick(v);
        c = card_real(key, p.first, p.second, com);
        break;
    }
    case 4: c = card_int(key, -(long long)w.draw(100000), com); break;
    case 5: { // free format: value anywhere behind the indicator
        c = card_int(key, (long long)w.draw(1000));
        c.text = pad(pad(key, 8) + "= " + std::string(w.draw(30), ' ') + c.s + (com.empty() ? "" : w.chance(1, 2) ? "/" + com : " / " + com), 80);
        break;
    }
    case 6: { // free format string
        c = card_string(key, "v/'" + std::to_string(w.draw(50)));
        c.text = pad(pad(key, 8) + "= " + std::string(w.draw(12), ' ') + quote(c.s, 0) + (com.empty() ? "" : " /" + com), 80);
        break;
    }
    case 7: { c.key = key; c.kind = K_UNDEF; c.text = with_comment(pad(key, 8) + "=", com); break; }
    case 8: {
        static const std::vector<std::string> t = {" plain text", " it's 5/3 = more", "", "  'quoted' / x", " END", "x = 5"};
        c = card_commentary(w.chance(1, 2) ? "HISTORY" : "COMMENT", w.pick(t));
        break;
    }
    case 9: {
        static const std::vector<std::string> t = {"", "blank keyword text", "  END", "/ 'x"};
        c = card_commentary("", w.pick(t));
        break;
    }
    }
    if (c.kind != K_COMMENTARY) used.insert(c.key);
    return c;
}
static void finish_header(Tape& w, MHdu& h, const GenOpt& o) {
    std::set<std::string> used;
    for (auto& c : h.cards) used.insert(c.key);
    uint32_t extra = o.many_cards ? 60 + w.draw(300) : w.skewed(o.small ? 6 : 40);
    int n = 0;
    for (uint32_t i = 0; i < extra; i++) {
        MCard c = gen_extra(w, ++n, used);
        // in front of the last structural cards never: extra cards follow the mandatory ones
        h.cards.push_back(c);
    }
    uint32_t al = o.align ? w.draw(6) : 0;
    size_t target = al == 4 ? 0 : al == 5 ? 1 : 99; // END closes a record / END opens a record
    if (target != 99) while ((h.cards.size() + 1) % 36 != target) h.cards.push_back(card_commentary("COMMENT", fmt(" filler %d", ++n)));
    for (size_t i = 0; i < h.cards.size(); i++)
        for (size_t j = i + 1; j < h.cards.size(); j++) if (h.cards[i].key == h.cards[j].key) h.cards[i].last_of_key = false;
}
MHdu gen_primary(Tape& w, const GenOpt& o) {
    MHdu h;
    h.kind = H_PRIMARY;
    h.name = "primary_hdu";
    h.cards.push_back(card_logical("SIMPLE", true, w.chance(1, 2) ? "conforms" : ""));
    static const std::vector<int> bp = {8, 16, 32, -32, -64};
    h.bitpix = w.pick(bp);
    if (o.primary_data) {
        uint32_t shape = w.draw(10);
        uint32_t lim = o.small ? 12 : 60;
        size_t es = h.elem_size();
        if (o.big_image) { // around and beyond the pieces in which data is read
            size_t bytes = ((size_t)(1 + w.draw(2)) << 20) + (w.chance(1, 2) ? w.draw(64) : w.draw(1 << 19)) - w.draw(32);
            size_t n = bytes / es, d = w.chance(1, 2) ? 1 : 2 + w.draw(600);
            h.naxis = {n / d, d};
        }
        else if (o.many_axes) { uint32_t nd = 6 + w.draw(20); for (uint32_t i = 0; i < nd; i++) h.naxis.push_back(w.draw(6) == 5 ? 2 : 1); }
        else if (shape == 0) {}
        else if (shape <= 2) h.naxis = {1 + w.skewed(lim * 4)};
        else if (shape <= 5) h.naxis = {1 + w.skewed(lim), 1 + w.skewed(lim)};
        else if (shape == 6) h.naxis = {1 + w.skewed(12), 1 + w.skewed(12), 1 + w.skewed(6)};
        else if (shape == 7) { // exactly one or more whole records
            size_t total = 2880 / es * (1 + w.draw(o.small ? 1 : 4));
            static const std::vector<size_t> dv = {1, 2, 3, 5, 8, 9, 10, 36};
            size_t d = w.pick(dv);
            if (total % d) d = 1;
            h.naxis = {total / d, d};
        }
        else if (shape == 8) h.naxis = {w.draw(3), w.draw(3), 1 + w.draw(2)}; // zero lengths
        else h.naxis = {1 + w.draw(3), 1 + w.draw(3), 1 + w.draw(3), 1 + w.draw(3), 1};
    }
    h.cards.push_back(card_int("BITPIX", h.bitpix, w.chance(1, 3) ? "bits per pixel" : ""));
    h.cards.push_back(card_int("NAXIS", (long long)h.naxis.size()));
    for (size_t i = 0; i < h.naxis.size(); i++) h.cards.push_back(card_int(fmt("NAXIS%zu", i + 1), (long long)h.naxis[i]));
    if (w.draw(4) != 3) { h.has_extend = true; h.extend = w.draw(4) != 3; h.cards.push_back(card_logical("EXTEND", h.extend)); }
    h.data = content(w.draw(1 << 16), h.elements() * h.elem_size());
    if (h.bitpix == -32) quiet_nans(h.data, 4);
    if (h.bitpix == -64) quiet_nans(h.data, 8);
    finish_header(w, h, o);
    return h;
}
static void ext_head(Tape& w, MHdu& h, const std::string& x) {
    h.name = x;
    h.cards.push_back(card_string("XTENSION", x, w.chance(1, 3) ? "extension / type" : ""));
    h.cards.push_back(card_int("BITPIX", h.bitpix));
    h.cards.push_back(card_int("NAXIS", (long long)h.naxis.size()));
    for (size_t i = 0; i < h.naxis.size(); i++) h.cards.push_back(card_int(fmt("NAXIS%zu", i + 1), (long long)h.naxis[i]));
    h.cards.push_back(card_int("PCOUNT", (long long)h.pcount));
    h.cards.push_back(card_int("GCOUNT", (long long)h.gcount));
}
static void col_cards(Tape& w, MHdu& h) {
    h.cards.push_back(card_int("TFIELDS", (long long)h.cols.size()));
    for (size_t i = 0; i < h.cols.size(); i++) {
        MCol& c = h.cols[i];
        std::vector<MCard> cs;
        if (c.named) cs.push_back(card_string(fmt("TTYPE%zu", i + 1), c.name, w.chance(1, 4) ? "label" : ""));
        if (h.kind == H_ASCII) cs.push_back(card_int(fmt("TBCOL%zu", i + 1), (long long)c.tbcol));
        cs.push_back(card_string(fmt("TFORM%zu", i + 1), c.form, w.chance(1, 4) ? "format" : ""));
        if (c.has_unit) cs.push_back(card_string(fmt("TUNIT%zu", i + 1), c.unit));
        if (c.has_scal) cs.push_back(card_real(fmt("TSCAL%zu", i + 1), c.scal == 2.5 ? "2.5" : "1.0E2", c.scal));
        if (c.has_zero) cs.push_back(card_real(fmt("TZERO%zu", i + 1), c.zero == 32768 ? "32768.0" : "-1.5", c.zero));
        if (c.has_disp) cs.push_back(card_string(fmt("TDISP%zu", i + 1), c.disp));
        if (c.has_dim) cs.push_back(card_string(fmt("TDIM%zu", i + 1), c.dim));
        if (w.chance(1, 3)) std::reverse(cs.begin(), cs.end());
        for (auto& x : cs) h.cards.push_back(x);
    }
}
static void col_meta(Tape& w, MCol& c, size_t i) {
    static const std::vector<std::string> nm = {"col", "RA", "DEC", "flux err", "TIME", "id/x", "it's", "counts"};
    c.named = w.draw(8) != 7;
    if (c.named) {
        uint32_t style = w.draw(8);
        static const std::vector<std::string> kw = {"NAXIS", "COMMENT", "OBJECT", "TFIELDS", "HISTORY", "KEY", "BITPIX", "END", "XTENSION", "TFORM1", "GCOUNT", "EXPTIME", "E", "TTYPE1", "EXTNAME"};
        if (style <= 3 || (style == 5 && i > 40)) c.name = w.pick(nm) + std::to_string(i);
        else if (style == 4) c.name = (i % 2 ? "FLUX" : "flux") + std::to_string(i / 2); // names differing in case only
        else if (style == 7 && i < kw.size()) c.name = kw[i]; // columns named like keywords of the header
        else if (style >= 6) c.name = "a column with a long name " + std::to_string(i);
        else c.name = std::string(i + 1, 'A'); // names that begin alike
    }
    c.has_unit = w.chance(1, 3); if (c.has_unit) c.unit = w.chance(1, 3) ? "erg/s/cm**2/Angstrom" : w.chance(1, 2) ? "m/s" : "deg";
    c.has_scal = w.chance(1, 4); if (c.has_scal) c.scal = w.chance(1, 2) ? 2.5 : 100;
    c.has_zero = w.chance(1, 4); if (c.has_zero) c.zero = w.chance(1, 2) ? 32768 : -1.5;
}
MHdu gen_binary(Tape& w, const GenOpt& o, int index) {
    MHdu h;
    h.kind = H_BINARY;
    h.bitpix = 8;
    size_t nc = w.draw(12) == 11 ? 0 : 1 + w.skewed(o.small ? 3 : 9);
    if (o.many_cols) nc = 9 + w.draw(w.chance(1, 3) ? 120 : 12);
    static const char types[] = "JILBAEDCMPX";
    size_t rot = o.shared_names ? w.draw(5) : 0;
    size_t off = 0;
    for (size_t i = 0; i < nc; i++) {
        MCol c;
        c.type = types[w.draw(11)];
        if (o.favourite && i % 3 != 2) c.type = types[o.favourite % 11];
        uint32_t rm = w.draw(6);
        c.repeat = rm <= 1 ? 1 : rm == 5 ? 0 : 1 + w.skewed(o.small ? 6 : 20);
        if (c.type == 'P' && c.repeat > 1) c.repeat = w.draw(3) + 1;
        static const std::map<char, size_t> sz = {{'L', 1}, {'X', 1}, {'B', 1}, {'I', 2}, {'J', 4}, {'A', 1}, {'E', 4}, {'D', 8}, {'C', 8}, {'M', 16}, {'P', 8}};
        c.elements = c.type == 'X' ? (c.repeat + 7) / 8 : c.repeat;
        c.width = c.elements * sz.at(c.type);
        c.form = (rm == 0 ? std::string() : std::to_string(c.repeat)) + c.type;
        if (rm == 0) { c.repeat = 1; c.elements = 1; c.width = sz.at(c.type); }
        if (c.type == 'P') c.form += fmt("%c(%u)", "JBE"[w.draw(3)], w.draw(200));
        c.offset = off;
        c.tbcol = off;
        off += c.width;
        if (o.many_rows && off > 12) { off -= c.width; nc = i; break; } // narrow rows
        col_meta(w, c, i);
        if (o.shared_names && c.named) c.name = fmt("S%zu", (i + rot) % std::max<size_t>(nc, 5));
        c.has_disp = w.chance(1, 4); if (c.has_disp) c.disp = "F8.2";
        c.has_dim = w.chance(1, 5); if (c.has_dim) c.dim = w.chance(1, 3) ? "(1,2,3,4,5,6,7,8,9,10)" : "(1,2)";
        h.cols.push_back(c);
    }
    size_t rows = w.draw(10) == 9 ? 0 : 1 + w.skewed(o.small ? 6 : o.max_rows);
    if (o.many_cols && rows > 8) rows = 8;
    if (o.many_rows) rows = o.tall || w.chance(1, 8) ? 32760 + w.draw(40000) : 250 + w.draw(1500);
    h.naxis = {off, rows};
    if (o.heap && w.chance(1, 4)) {
        h.pcount = 1 + w.skewed(o.small ? 60 : 3000);
        if (w.chance(1, 3)) h.pcount = up2880(off * rows + 1) - off * rows; // the data ends with its record
    } else if (off && w.chance(1, 6)) { // rows that exactly fill records
        size_t g = 2880, a = off;
        while (a) { size_t t = g % a; g = a; a = t; }
        if (2880 / g <= 320) h.naxis[1] = rows = 2880 / g;
    }
    uint32_t seed = w.draw(1 << 16);
    h.cells.assign(off ? rows : 0, std::vector<std::string>(nc));
    for (size_t r = 0; r < h.cells.size(); r++) for (size_t c = 0; c < nc; c++) h.cells[r][c] = gen_cell(seed, h.cols[c], true, r * 131 + c);
    h.heap = content(seed, h.pcount);
    h.rebuild_data();
    ext_head(w, h, "BINTABLE");
    col_cards(w, h);
    if (w.chance(1, 2)) { h.has_extname = true; h.extname = fmt("BIN%d", index); h.cards.push_back(card_string("EXTNAME", h.extname)); }
    finish_header(w, h, o);
    h.edited.assign(h.cells.size(), std::vector<char>(nc, 0));
    return h;
}
MHdu gen_ascii(Tape& w, const GenOpt& o, int index) {
    MHdu h;
    h.kind = H_ASCII;
    h.bitpix = 8;
    size_t nc = 1 + w.skewed(o.small ? 3 : 7);
    if (o.many_cols) nc = 9 + w.draw(w.chance(1, 3) ? 100 : 12);
    if (o.many_rows) nc = 1;
    size_t rot = o.shared_names ? w.draw(5) : 0;
    size_t off = 0;
    for (size_t i = 0; i < nc; i++) {
        MCol c;
        c.type = "IAFED"[w.draw(5)];
        off += w.chance(1, 2) ? 0 : w.draw(4); // gap
        switch (c.type) {
        case 'I': c.width = 1 + w.draw(14); c.form = fmt("I%zu", c.width); break;
        case 'A': c.width = 1 + w.draw(24); c.form = fmt("A%zu", c.width); break;
        case 'F': c.width = 7 + w.draw(10); c.decimals = 3; c.form = fmt("F%zu.%d", c.width, c.decimals); break;
        default: c.width = 9 + w.draw(10); c.decimals = 4; c.form = fmt("%c%zu.%d", c.type, c.width, c.decimals); break;
        }
        c.repeat = 1;
        c.elements = 0;
        c.offset = off;
        off += c.width;
        col_meta(w, c, i);
        if (o.shared_names && c.named) c.name = fmt("S%zu", (i + rot) % std::max<size_t>(nc, 5));
        h.cols.push_back(c);
    }
    off += w.draw(3) == 2 ? w.draw(5) : 0;
    // field order in the header need not be the order in the row
    if (nc > 1 && w.chance(1, 4)) std::swap(h.cols[0], h.cols[nc - 1]);
    for (auto& c : h.cols) c.tbcol = c.offset + 1;
    size_t rows = w.draw(10) == 9 ? 0 : 1 + w.skewed(o.small ? 6 : o.max_rows);
    if (w.chance(1, 6)) {
        size_t d = off;
        while (d < 2880 && 2880 % d) d++;
        if (2880 / d <= 320) { off = d; rows = 2880 / d; }
    }
    if (o.many_cols && rows > 8) rows = 8;
    if (o.many_rows) rows = o.tall || w.chance(1, 8) ? 32760 + w.draw(40000) : 250 + w.draw(1500);
    h.naxis = {off, rows};
    uint32_t seed = w.draw(1 << 16);
    bool fill_gaps = w.chance(1, 4);
    h.cells.assign(rows, std::vector<std::string>(nc));
    for (size_t r = 0; r < rows; r++) for (size_t c = 0; c < nc; c++) h.cells[r][c] = gen_cell(seed, h.cols[c], false, r * 131 + c);
    h.rebuild_data();
    if (fill_gaps) { // bytes between the fields belong to no cell
        std::string used(off, 0);
        for (auto& c : h.cols) for (size_t i = 0; i < c.width; i++) used[c.offset + i] = 1;
        for (size_t r = 0; r < rows; r++) for (size_t i = 0; i < off; i++) if (!used[i]) h.data[r * off + i] = '|';
    }
    ext_head(w, h, "TABLE");
    col_cards(w, h);
    if (w.chance(1, 2)) { h.has_extname = true; h.extname = fmt("ASC%d", index); h.cards.push_back(card_string("EXTNAME", h.extname)); }
    finish_header(w, h, o);
    h.edited.assign(h.cells.size(), std::vector<char>(nc, 0));
    return h;
}
MHdu gen_other(Tape& w, const GenOpt& o, int index) {
    MHdu h;
    h.kind = H_OTHER;
    static const std::vector<int> bp = {8, 16, 32, -32, -64};
    h.bitpix = w.pick(bp);
    uint32_t k = w.draw(4);
    size_t nd = w.draw(4);
    for (size_t i = 0; i < nd; i++) h.naxis.push_back(w.draw(8) == 7 ? 0 : 1 + w.skewed(o.small ? 8 : 30));
    if (k == 3 && nd) { h.pcount = w.draw(40); h.gcount = 1 + w.draw(3); }
    ext_head(w, h, k <= 1 ? "IMAGE" : k == 2 ? "FOREIGN" : "A3DTABLE");
    h.data = content(w.draw(1 << 16), h.elements() * h.elem_size());
    (void)index;
    finish_header(w, h, o);
    return h;
}
size_t draw_row(Tape& w, size_t n) {
    if (n > 200 && w.chance(1, 2)) {
        static const std::vector<size_t> at = {127, 128, 255, 256, 32767, 32768, 65535, 65536};
        size_t r = w.draw(4) == 3 ? n - 1 : w.pick(at);
        if (r < n) return r;
    }
    return w.draw((uint32_t)n);
}
MFile gen_file(Tape& w, const GenOpt& opt) {
    MFile f;
    GenOpt o = opt;
    bool many_hdus = false;
    if (o.scale && w.draw((uint32_t)o.scale) == (uint32_t)o.scale - 1) {
        o.scale = 0;
        o.max_ext = 2;
        switch (w.draw(12)) {
        case 0: case 1: case 2: o.many_cards = true; break;
        case 3: case 4: case 5: o.many_cols = true; break;
        case 6: case 7: many_hdus = true; o.small = true; break;
        case 8: case 9: o.many_axes = true; break;
        case 10: o.many_rows = true; break;
        case 11: o.big_image = o.primary_data; break;
        }
    }
    f.hdus.push_back(gen_primary(w, o));
    uint32_t n = many_hdus ? 5 + w.draw(30) : w.skewed(o.max_ext);
    if ((o.many_cols || o.many_rows) && n == 0) n = 1;
    if (o.need_table && n == 0) n = 1;
    bool have_table = false;
    for (uint32_t i = 0; i < n; i++) {
        std::vector<int> k;
        if (o.binary) { k.push_back(H_BINARY); k.push_back(H_BINARY); }
        if (o.ascii) { k.push_back(H_ASCII); k.push_back(H_ASCII); }
        if (o.other && !(o.need_table && !have_table && i + 1 == n)) k.push_back(H_OTHER);
        switch (w.pick(k)) {
        case H_BINARY: f.hdus.push_back(gen_binary(w, o, i)); have_table = true; break;
        case H_ASCII: f.hdus.push_back(gen_ascii(w, o, i)); have_table = true; break;
        default: f.hdus.push_back(gen_other(w, o, i));
        }
    }
    f.layout();
    return f;
}

// ---- decoder ---------------------------------------------------------------------------------------
std::string DHdu::get(const std::string& key) const {
    std::string k = pad(key, 8), v;
    for (auto& c : cards) if (c.substr(0, 8) == k && c.substr(8, 2) == "= ") {
        v = c.substr(10);
        size_t a = v.find_first_not_of(' ');
        if (a != std::string::npos && v[a] == '\'') {
            std::string r;
            size_t i = a + 1;
            for (; i < v.size(); i++) { if (v[i] == '\'') { if (i + 1 < v.size() && v[i + 1] == '\'') i++; else break; } r += v[i]; }
            v = rtrim_blank(r);
        } else v = trim(v.substr(0, v.find('/')));
    }
    return v;
}
std::string decode(const std::string& b, std::vector<DHdu>& out) {
    out.clear();
    if (b.size() % 2880) return fmt("file length %zu is not a whole number of 2880-byte records", b.size());
    size_t p = 0;
    while (p < b.size()) {
        DHdu h;
        size_t start = p;
        bool end = false;
        while (p + 80 <= b.size()) {
            std::string c = b.substr(p, 80);
            p += 80;
            if (c == pad("END", 80)) { end = true; break; }
            for (char ch : c) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) return fmt("HDU at %zu: card with a non-text byte: %s", start, printable(c).c_str());
            h.cards.push_back(c);
        }
        if (!end) return fmt("HDU at %zu: no END card", start);
        size_t e = up2880(p);
        for (; p < e; p++) if (b[p] != ' ') return fmt("HDU at %zu: header not padded with blanks", start);
        if (h.cards.empty()) return fmt("HDU at %zu: empty header", start);
        h.primary = h.cards[0].substr(0, 8) == "SIMPLE  ";
        if (start == 0 && !h.primary) return "the first header is not a primary header";
        h.xtension = h.get("XTENSION");
        h.ascii = h.xtension == "TABLE";
        long bp = atol(h.get("BITPIX").c_str());
        size_t nax = (size_t)atol(h.get("NAXIS").c_str());
        size_t n = nax ? 1 : 0;
        for (size_t i = 1; i <= nax; i++) n *= strtoull(h.get(fmt("NAXIS%zu", i)).c_str(), nullptr, 10);
        if (!h.primary && nax) n = strtoull(h.get("GCOUNT").c_str(), nullptr, 10) * (strtoull(h.get("PCOUNT").c_str(), nullptr, 10) + n);
        size_t len = n * (size_t)(labs(bp) / 8);
        if (len > b.size() - p) return fmt("HDU at %zu declares %zu data bytes, the file has %zu", start, len, b.size() - p);
        h.data = b.substr(p, len);
        p += len;
        e = up2880(p);
        char padc = h.ascii ? ' ' : '\0';
        for (; p < e; p++) if (b[p] != padc) return fmt("HDU at %zu: data not padded with %s", start, h.ascii ? "blanks" : "zeros");
        out.push_back(h);
    }
    return "";
}
std::string same_cell(const MHdu& h, size_t r, size_t c, const std::string& got) {
    const std::string& want = h.cells[r][c];
    bool ok;
    if (h.kind == H_ASCII && h.edited[r][c]) {
        char* e = nullptr;
        std::string g = trim(got);
        std::replace(g.begin(), g.end(), 'D', 'E');
        double d = strtod(g.c_str(), &e);
        ok = !g.empty() && *e == 0 && d == strtod(want.c_str(), nullptr);
    } else ok = h.kind == H_ASCII ? trim(got) == want : got == want;
    if (ok) return "";
    return fmt("cell (row %zu, column %zu %s) is %s instead of %s", r, c, h.cols[c].form.c_str(),
               h.kind == H_ASCII ? ("\"" + printable(got) + "\"").c_str() : sim::hex(got).c_str(),
               h.kind == H_ASCII ? ("\"" + printable(want) + "\"").c_str() : sim::hex(want).c_str());
}
std::string compare_saved(const std::vector<DHdu>& got, const std::vector<const MHdu*>& want) {
    if (got.size() != want.size()) return fmt("file holds %zu HDUs instead of %zu", got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++) {
        const DHdu& g = got[i];
        const MHdu& w = *want[i];
        if (g.cards.size() != w.cards.size()) return fmt("HDU %zu has %zu cards instead of %zu", i, g.cards.size(), w.cards.size());
        for (size_t k = 0; k < g.cards.size(); k++) if (g.cards[k] != w.cards[k].text) return fmt("HDU %zu card %zu is \"%s\" instead of \"%s\"", i, k, printable(g.cards[k]).c_str(), printable(w.cards[k].text).c_str());
        if (w.kind == H_ASCII) {
            if (g.data.size() != w.naxis[0] * w.naxis[1]) return fmt("HDU %zu holds %zu bytes", i, g.data.size());
            for (size_t r = 0; r < w.cells.size(); r++)
                for (size_t c = 0; c < w.cols.size(); c++) {
                    std::string e = same_cell(w, r, c, g.data.substr(r * w.naxis[0] + w.cols[c].offset, w.cols[c].width));
                    if (!e.empty()) return fmt("saved HDU %zu: ", i) + e;
                }
        } else if (w.kind == H_BINARY) {
            size_t rw = w.naxis[0];
            if (g.data.size() != rw * w.naxis[1] + w.heap.size()) return fmt("HDU %zu holds %zu data bytes", i, g.data.size());
            for (size_t r = 0; r < w.cells.size(); r++)
                for (size_t c = 0; c < w.cols.size(); c++) {
                    std::string e = same_cell(w, r, c, g.data.substr(r * rw + w.cols[c].offset, w.cols[c].width));
                    if (!e.empty()) return fmt("saved HDU %zu: ", i) + e;
                }
            if (g.data.substr(rw * w.naxis[1]) != w.heap) return fmt("saved HDU %zu: heap differs", i);
        } else if (g.data != w.data) {
            size_t k = 0;
            while (k < g.data.size() && k < w.data.size() && g.data[k] == w.data[k]) k++;
            return fmt("saved HDU %zu: data differs from byte %zu on (sizes %zu, %zu)", i, k, g.data.size(), w.data.size());
        }
    }
    return "";
}
} // namespace model

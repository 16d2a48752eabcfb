// Reference model of FITS files: generator, byte layout, strict decoder. Uses nothing of the library.
#ifndef VERIF_MODEL_HPP
#define VERIF_MODEL_HPP
#include "sim.hpp"
#include <cstring>
#include <string>
#include <vector>

namespace model {
using sim::Tape;

inline std::string trim(const std::string& s) {
    size_t a = 0, b = s.size();
    auto sp = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; };
    while (a < b && sp(s[a])) a++;
    while (b > a && sp(s[b - 1])) b--;
    return s.substr(a, b - a);
}
inline std::string rtrim_blank(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
inline std::string pad(std::string s, size_t n) { if (s.size() < n) s.resize(n, ' '); return s; }
inline size_t up2880(size_t n) { return (n + 2879) / 2880 * 2880; }

enum CardKind { K_LOGICAL, K_INT, K_REAL, K_STRING, K_UNDEF, K_COMMENTARY, K_END };
struct MCard {
    std::string text; // 80 characters
    std::string key;
    CardKind kind = K_COMMENTARY;
    bool b = false;
    long long i = 0;
    double d = 0;
    std::string s; // string value, or the value's text
    bool last_of_key = true;
};

MCard card_int(const std::string& key, long long v, const std::string& comment = "");
MCard card_logical(const std::string& key, bool v, const std::string& comment = "");
MCard card_string(const std::string& key, const std::string& v, const std::string& comment = "");
MCard card_real(const std::string& key, const std::string& text, double v, const std::string& comment = "");
MCard card_commentary(const std::string& key, const std::string& text);
MCard card_end();

enum HduKind { H_PRIMARY, H_ASCII, H_BINARY, H_OTHER };
struct MCol {
    char type = 'J';
    size_t repeat = 1;     // binary: repeat count as written
    size_t elements = 1;   // what total_elements() is
    size_t width = 4;      // bytes of one cell
    size_t offset = 0;     // byte offset in the row
    bool named = true;
    std::string name, form, unit, disp, dim;
    bool has_unit = false, has_scal = false, has_zero = false, has_disp = false, has_dim = false;
    double scal = 1, zero = 0;
    size_t tbcol = 1;      // ASCII
    int decimals = 0;
};
struct MHdu {
    HduKind kind = H_PRIMARY;
    std::string name;       // primary_hdu / XTENSION value
    std::vector<MCard> cards; // without END
    int bitpix = 8;
    std::vector<size_t> naxis;
    size_t pcount = 0, gcount = 1;
    bool has_extend = false, extend = false;
    std::string extname; bool has_extname = false;
    std::string data;       // exactly the declared bytes, before padding
    // tables
    std::vector<MCol> cols;
    std::vector<std::vector<std::string>> cells; // binary: raw bytes, ASCII: text without surrounding blanks
    std::vector<std::vector<char>> edited;       // ASCII: cell holds a number stored by an edit (compare as number)
    std::string heap;

    size_t elem_size() const { return bitpix < 0 ? -bitpix / 8 : bitpix / 8; }
    size_t elements() const; // data elements including PCOUNT/GCOUNT
    std::string header_text() const; // cards + END, unpadded
    std::string header_bytes() const;
    std::string data_bytes() const; // padded
    const MCard* find(const std::string& key) const;
    void rebuild_data();    // from cells and heap
    size_t rows() const { return naxis.size() > 1 ? naxis[1] : 0; }
    std::string describe() const;
    size_t header_pos = 0, data_pos = 0; // in the file, after layout()
};
struct MFile {
    std::vector<MHdu> hdus;
    std::string bytes() const;
    void layout();
    std::string describe() const;
};

struct GenOpt {
    int max_ext = 4;
    bool other = true, ascii = true, binary = true, heap = true;
    bool primary_data = true;
    int max_rows = 40;
    bool small = false;      // small contents (for fault enumeration)
    bool need_table = false;
    bool align = true;
    int scale = 0;           // one file in so many is large in one respect
    uint32_t favourite = 0;  // not 0: most columns have this type
    bool shared_names = false; // the columns of all tables have the same few names, in other orders
    // what is large in this file
    bool many_cards = false, many_cols = false, many_axes = false, many_rows = false, tall = false, big_image = false;
};
MFile gen_file(Tape& w, const GenOpt& o = GenOpt());
size_t draw_row(Tape& w, size_t n); // a row of n, of tall tables often where counters overflow
MHdu gen_primary(Tape& w, const GenOpt& o);
MHdu gen_binary(Tape& w, const GenOpt& o, int index);
MHdu gen_ascii(Tape& w, const GenOpt& o, int index);
MHdu gen_other(Tape& w, const GenOpt& o, int index);
std::string content(uint32_t seed, size_t n); // deterministic bytes, many flavours (0: zeros)
std::string gen_cell(uint32_t seed, const MCol& c, bool binary, size_t salt); // conforming cell content
void quiet_nans(std::string& s, size_t size);

// ---- strict decoder ------------------------------------------------------------------------------
struct DHdu {
    std::vector<std::string> cards; // 80-character texts without END
    std::string data;               // declared bytes
    bool ascii = false, primary = false;
    std::string xtension;
    std::string get(const std::string& key) const; // raw value field of the (last) card, trimmed; "" if absent
};
// Returns "" and the HDUs, or what is malformed.
std::string decode(const std::string& bytes, std::vector<DHdu>& out);
// Compares decoded HDUs with what they should hold ("" if equal).
std::string compare_saved(const std::vector<DHdu>& got, const std::vector<const MHdu*>& want);
std::string same_cell(const MHdu& h, size_t row, size_t col, const std::string& got); // "" if equal
} // namespace model
#endif

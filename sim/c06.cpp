// C06: damaged bytes never cause memory errors, hangs or crashes. Built with AddressSanitizer and
// UndefinedBehaviorSanitizer: a memory error or abort ends the run's process, which the runner reports.
#include "lib.hpp"
#include <set>
static const char* PATH = "/sim/damaged.fits";
static void put_card(std::string& b, size_t at, const std::string& text) { b.replace(at, 80, pad(text.substr(0, 80), 80)); }
// Positions of the header cards of the file (from the undamaged layout).
static std::vector<size_t> card_positions(const MFile& f) {
    std::vector<size_t> v;
    for (auto& h : f.hdus) for (size_t i = 0; i <= h.cards.size(); i++) v.push_back(h.header_pos + 80 * i);
    return v;
}
static std::string extreme_number() {
    static const std::vector<std::string> x = {"0", "1", "-1", "2", "3", "7", "999", "1000", "2879", "2880", "2881", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649",
        "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "99999999999999999999999999", "1000000", "100000000",
        "8", "16", "32", "64", "-32", "-64", "12", "T", "F", "", "'8'", "8.5", "1E3", "abc", "6148914691236517206", "3074457345618258603", "NaN", "-0", "+5", "0x10"};
    if (F().chance(1, 3)) { // sizes that come back to where they started in narrower arithmetic
        static const std::vector<int> bits = {16, 31, 32, 62, 63, 64};
        unsigned __int128 v = (unsigned __int128)1 << F().pick(bits);
        static const std::vector<uint32_t> unit = {1, 2, 4, 8, 80, 2880};
        uint64_t off = (uint64_t)F().pick(unit) * F().draw(6);
        v = F().chance(3, 4) ? v - off : v + off;
        std::string s;
        do s.insert(s.begin(), (char)('0' + (int)(v % 10))); while (v /= 10);
        return s;
    }
    return F().pick(x);
}
static std::string extreme_form() {
    static const std::vector<std::string> x = {"", "A", "J", "1J", "0J", "I", "I0", "I1", "A0", "A1", "A99999", "F", "F.", "F.2", "F8.", "E12.99", "D", "D0.0", ".", "..", "1.2", "99999999999999999999J", "18446744073709551615B",
        "9223372036854775807M", "2305843009213693952D", "1152921504606846976M", "4611686018427387904J", "16X", "0X", "18446744073709551615X", "18446744073709551609X", "1P", "1PB(9)", "0P", "Z", "1Z", "K", "1K", "Q", "-1J", " J", "1 J", "J1", "A-1", "A18446744073709551615", "A18446744073709551616", "'", "''", "1\x80J", "\x80", "1\xffX"};
    return F().pick(x);
}
static void damage(std::string& b, const MFile& f) {
    std::vector<size_t> cards = card_positions(f);
    uint32_t n = 1 + F().skewed(5);
    for (uint32_t i = 0; i < n && !b.empty(); i++) {
        uint32_t k = F().draw(14);
        size_t c = F().pick(cards);
        if (c + 80 > b.size()) c = b.size() >= 80 ? b.size() / 80 * 80 - 80 : 0;
        if (b.size() < 80) k = 0;
        count_fault(k < 3 ? F_BYTE_DAMAGE : F_BLOCK_DAMAGE);
        log_event("damage %u at card %zu", k, c);
        switch (k) {
        case 0: { uint32_t m = 1 + F().draw(8); for (uint32_t j = 0; j < m; j++) b[F().draw((uint32_t)b.size())] ^= (char)(1 << F().draw(8)); break; }
        case 1: { b[c + F().draw(80)] ^= (char)(1 << F().draw(8)); break; }
        case 2: { size_t at = F().draw((uint32_t)b.size()), l = F().draw(300); std::string x = content(2 + 8 * F().draw(50) + F().draw(3), l); b.replace(at, std::min(l, b.size() - at), x.substr(0, std::min(l, b.size() - at))); break; }
        case 3: case 4: { // extreme value of a keyword that matters
            static const std::vector<std::string> keys = {"BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "PCOUNT", "GCOUNT", "TFIELDS", "TBCOL", "TFORM", "TTYPE", "TSCAL", "XTENSION", "SIMPLE", "EXTEND", "TDIM"};
            std::string want = F().pick(keys);
            std::vector<size_t> hit;
            for (size_t p : cards) if (p + 80 <= b.size() && b.compare(p, want.size(), want) == 0) hit.push_back(p);
            if (hit.empty()) break;
            size_t p = F().pick(hit);
            std::string key = b.substr(p, 8), v;
            if (want == "TFORM") { v = extreme_form(); if (F().draw(8) != 7) v = "'" + v + "'"; }
            else if (want == "XTENSION") { static const std::vector<std::string> xs = {"'TABLE   '", "'BINTABLE'", "'IMAGE   '", "TABLE", "'", "''", "'TABLE", "T", "'BINTABLE' / '"}; v = F().pick(xs); }
            else v = extreme_number();
            if (F().draw(6) == 5) v = extreme_number();
            put_card(b, p, key + "= " + std::string(F().draw(3) == 2 ? F().draw(30) : 0, ' ') + v);
            break;
        }
        case 5: b.erase(c, 80); break;
        case 6: b.insert(c, b.substr(c, 80)); break;
        case 7: { size_t d = F().pick(cards); if (d + 80 > b.size()) break; std::string x = b.substr(c, 80), y = b.substr(d, 80); b.replace(c, 80, y); b.replace(d, 80, x); break; }
        case 8: { size_t blocks = b.size() / 2880; if (!blocks) break; size_t at = F().draw((uint32_t)blocks) * 2880; if (F().draw(2)) b.erase(at, 2880); else b.insert(at, b.substr(at, 2880)); break; }
        case 9: { size_t blocks = b.size() / 2880; if (blocks < 2) break; size_t x = F().draw((uint32_t)blocks) * 2880, y = F().draw((uint32_t)blocks) * 2880; std::string p = b.substr(x, 2880), q = b.substr(y, 2880); b.replace(x, 2880, q); b.replace(y, 2880, p); break; }
        case 10: { count_fault(F_TRUNCATE); b.resize(F().draw((uint32_t)b.size() + 1)); break; }
        case 11: { auto& h = F().pick(f.hdus); size_t e = h.header_pos + 80 * h.cards.size(); if (e + 80 <= b.size()) { if (F().draw(2)) b.replace(e, 3, "ENF"); else b.erase(e, 80); } break; }
        case 12: put_card(b, c, F().draw(2) ? std::string(80, (char)F().draw(256)) : content(2 + 8 * F().draw(40), 80)); break;
        case 13: { // quotes, slashes, and what follows them
            static const std::vector<std::string> xs = {"'", "''", "'''", "''''", "'/", "/'", "/", " /", "'a''", "'abc", "'a'/'b'", "=", "= ", "'" + std::string(69, 'x'), "'" + std::string(68, '\'') , std::string(70, '/')};
            std::string key = b.substr(c, 8);
            put_card(b, c, key + "= " + F().pick(xs));
            break;
        }
        }
    }
}
// Everything that was returned, and every exception, in one number: it may depend on the bytes of the file only.
static uint64_t g_digest;
static void note_bytes(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) g_digest = (g_digest ^ c[i]) * 1099511628211ull; }
template <class T> static void note(const T& v) { note_bytes(&v, sizeof v); }
static void note(bool v) { unsigned char c; memcpy(&c, &v, 1); note_bytes(&c, 1); }
static void note(const std::string& v) { note_bytes(v.data(), v.size()); note_bytes("", 1); }
template <class A, class B> static void note(const std::pair<A, B>& v) { note(v.first); note(v.second); }
template <class T> static void note(const std::vector<T>& v) { note(v.size()); for (size_t i = 0; i < v.size(); i++) { T x = v[i]; note(x); } }
template <class F> static Outcome look(F f) { Outcome o = attempt(f); note_bytes(o.raised ? "x" : ".", 1); return o; }
template <class T> static void query(Header& h, const std::string& key) { look([&] { T v = h.value_of<T>(key); note(v); }); op(); }
static void walk_header(const Header& from, const std::set<std::string>& keys) {
    std::unique_ptr<Header> h;
    if (!look([&] { h.reset(new Header(from)); })) return;
    look([&] { note((int)h->bitpix()); note(h->all_naxis()); note(h->total_dimensions()); note(h->card_count()); });
    look([&] { note(h->data_size()); });
    look([&] { note(std::string(h->get_hdu_name())); });
    for (size_t i = 0; i < 4; i++) look([&] { note(h->naxis(i)); });
    look([&] { note((bool)(*h == from)); });
    unsigned salt = 0;
    for (auto& k : keys) {
        look([&] { note((bool)h->contains_keyword(k)); });
        switch (salt++ % 12) {
        case 0: query<std::string>(*h, k); break;
        case 1: query<long long>(*h, k); break;
        case 2: query<double>(*h, k); break;
        case 3: query<bool>(*h, k); break;
        case 4: query<std::complex<double>>(*h, k); break;
        case 5: query<std::size_t>(*h, k); break;
        case 6: query<int>(*h, k); break;
        case 7: query<float>(*h, k); break;
        case 8: query<unsigned int>(*h, k); break;
        case 9: query<std::complex<int>>(*h, k); break;
        case 10: query<std::complex<float>>(*h, k); break;
        case 11: query<std::complex<std::size_t>>(*h, k); break;
        }
        query<std::string>(*h, k);
    }
    Lib l; h.reset();
}
template <io::bitpix BP> static void walk_image(const io::primary_hdu& p) {
    look([&] {
        auto img = p.get_data<BP>();
        size_t n = img.size(), wd = 0;
        if (n) { Header h = p.get_header(); wd = h.total_dimensions() ? h.naxis(1) : n; }
        if (!wd) return;
        volatile double sum = 0;
        for (size_t i = 0; i < n; i++) { auto x = img(i / wd, i % wd); note(x); sum = sum + (double)x; }
        img.max(); img.min(); img.mean(); img.median(); img.std_dev();
        probe("pixels_walked", n);
    });
}
template <class T, class Tab> static void walk_view(Tab& t, const std::string& name) {
    look([&] {
        auto& v = t.template get_column<T>(name);
        int n = (int)v.get_row_count();
        note(v.get_column_number()); note(n);
        for (int i = -1; i <= n; i++) look([&] { T x = v[i]; note(x); });
        look([&] { for (auto it = v.begin(); it != v.end(); ++it) { T x = *it; note(x); } });
        probe("columns_walked");
    });
    op();
}
template <class T, class Tab> static void both_views(Tab& t, const std::string& n) { walk_view<T>(t, n); walk_view<std::vector<T>>(t, n); }
template <class Tab> static std::vector<std::string> names_of(const Tab& t, const MFile& f, const std::set<std::string>& more) {
    std::set<std::string> s(more.begin(), more.end());
    for (auto& h : f.hdus) for (auto& c : h.cols) s.insert(c.name);
    std::vector<std::string> v;
    for (auto& n : s) { Outcome o = look([&] { io::column c = t.get_column_metadata(n); note(c.TFORM()); note(c.total_elements()); note(c.TBCOL()); note(c.TUNIT()); note(c.TDISP()); note(c.TDIM()); note(c.TSCAL()); note(c.TZERO()); }); if (!o.raised) v.push_back(n); }
    return v;
}
static void walk(Reader& r, const MFile& f, const std::set<std::string>& keys, const std::set<std::string>& names) {
    size_t n = 0;
    look([&] { auto l = r.get_hdu_list(); n = l.size(); });
    look([&] { auto c = r.get_control_block_info(); note(c.total_hdus()); });
    for (auto& x : {"primary_hdu", "TABLE", "BINTABLE", "IMAGE"}) look([&] { note(r[std::string(x)].which()); });
    for (int i = -1; i <= (int)n; i++) {
        Ext* e = nullptr;
        if (!look([&] { e = &r[i]; })) continue;
        if (e->which() == 1) {
            auto& p = io::fits::convert_to<io::primary_hdu>(*e);
            walk_header(p.get_header(), keys);
            look([&] { note((bool)p.is_simple()); note((bool)p.is_extended()); });
            walk_image<io::bitpix::B8>(p); walk_image<io::bitpix::B16>(p); walk_image<io::bitpix::B32>(p); walk_image<io::bitpix::_B32>(p); walk_image<io::bitpix::_B64>(p);
        } else if (e->which() == 2) {
            auto& t = io::fits::convert_to<io::binary_table>(*e);
            walk_header(t.get_header(), keys);
            size_t total = 0;
            look([&] { for (auto& row : t.get_data()) for (auto& c : row) { total += c.size(); note(c); } });
            for (auto& nm : names_of(t, f, names)) {
                both_views<bool>(t, nm); both_views<boost::int16_t>(t, nm); both_views<boost::int32_t>(t, nm); both_views<float>(t, nm); both_views<double>(t, nm);
                both_views<std::pair<boost::int32_t, boost::int32_t>>(t, nm); both_views<std::complex<float>>(t, nm); both_views<std::complex<double>>(t, nm); both_views<std::uint8_t>(t, nm); both_views<char>(t, nm);
            }
            look([&] { io::binary_table copy(t); });
        } else if (e->which() == 3) {
            auto& t = io::fits::convert_to<io::ascii_table>(*e);
            walk_header(t.get_header(), keys);
            size_t total = 0;
            look([&] { for (auto& row : t.get_data()) for (auto& c : row) { total += c.size(); note(c); } });
            for (auto& nm : names_of(t, f, names)) { walk_view<std::string>(t, nm); walk_view<long long>(t, nm); walk_view<float>(t, nm); walk_view<double>(t, nm); }
            look([&] { io::ascii_table copy(t); });
        }
        probe("hdus_walked");
    }
    Outcome o = look([&] { r.write_to("/sim/resaved.fits"); });
    probe(o.raised ? "save_raised" : "save_returned");
    if (!o.raised) note(disk_get("/sim/resaved.fits"));
    if (!o.raised) look([&] { Reader again = io::fits::open("/sim/resaved.fits"); });
}
static void run() {
    GenOpt g;
    g.scale = 200;
    g.max_ext = 3;
    g.small = W().draw(4) != 3;
    g.need_table = W().chance(2, 3);
    MFile f = gen_file(W(), g);
    log_event("file: %s", f.describe().c_str());
    std::string b = f.bytes();
    damage(b, f);
    if (W().draw(30) == 29) b = content(2 + 8 * W().draw(100) + W().draw(4), W().draw(20000));
    disk_put(PATH, b);
    draw_chunking();
    set_memory_cap(256ull << 20);
    uint8_t dirt = (uint8_t)F().draw(256);
    bool twice = W().draw(4) == 3;
    if (twice && b.size() > 300000) twice = false;
    set_budget(600 * b.size() + 800000, 800 * b.size() + 40000000, 6000ull << 20);
    std::set<std::string> keys, names;
    for (size_t i = 0; i + 80 <= b.size() && keys.size() < 60; i += 80) { // keywords of the damaged file
        bool text = true;
        for (size_t j = 0; j < 80; j++) if (b[i + j] < 32 || b[i + j] > 126) text = false;
        if (!text) continue;
        keys.insert(trim(b.substr(i, 8)));
        if (b.compare(i, 5, "TTYPE") == 0) { size_t q = b.find('\'', i), e = q == std::string::npos ? q : b.find('\'', q + 1); if (e != std::string::npos && e < i + 80) names.insert(rtrim_blank(b.substr(q + 1, e - q - 1))); }
    }
    names.insert("");
    uint64_t seen[2][2] = {{0, 0}, {0, 0}};
    bool in_steps[2] = {W().chance(1, 3), W().chance(1, 3)};
    for (int time = 0; time < (twice ? 2 : 1); time++)
    for (int full = 0; full < 2; full++) {
        g_digest = 1469598103934665603ull;
        set_dirty((uint8_t)(time ? ~dirt : dirt)); // other content of fresh memory
        std::unique_ptr<Reader> r;
        Outcome o;
        if (in_steps[full]) { // what a failed reading leaves behind is walked, too
            o = look([&] { r.reset(new Reader(PATH)); if (full) r->read_entire_hdus(); else r->read_only_headers(); });
        } else o = look([&] { r.reset(new Reader(io::fits::open(PATH, full ? io::reading_options::read_entire_hdus : io::reading_options::read_only_headers))); });
        op();
        stats.checks++;
        log_event("opening %s", o.raised ? "raised" : "returned");
        probe(o.raised ? "open_raised" : "open_returned");
        if (r) walk(*r, f, keys, names);
        seen[time][full] = g_digest;
        { Lib l; r.reset(); }
        if (time) require(seen[0][full] == seen[1][full], "not-a-function-of-the-file", fmt("opening the same damaged file twice (%s) gives different results", full ? "everything" : "headers only"));
    }
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C06", run); }

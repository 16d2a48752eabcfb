// C10: header queries are independent of what was asked before.
#include "edit.hpp"
static const int NTYPES = 12;
template <class T> static std::string show(const T& v) { NotLib nl; return fmt("%.17g", (double)v); }
static std::string show(const std::string& v) { NotLib nl; return "\"" + v + "\""; }
static std::string show(bool v) { NotLib nl; return v ? "T" : "F"; }
static std::string show(long long v) { NotLib nl; return fmt("%lld", v); }
static std::string show(std::size_t v) { NotLib nl; return fmt("%zu", v); }
template <class T> static std::string show(const std::complex<T>& v) { return show((T)v.real()) + "," + show((T)v.imag()); }
struct Answer { bool raised = false, oom = false; std::string text; };
template <class T> static Answer ask_as(Header& h, const std::string& key) {
    Answer a;
    Outcome o = attempt([&] { T v = h.value_of<T>(key); a.text = show(v); });
    a.raised = o.raised; a.oom = o.oom;
    if (a.raised) a.text = "(exception)";
    return a;
}
static Answer ask(Header& h, const std::string& key, int type) {
    switch (type) {
    case 0: return ask_as<std::string>(h, key);
    case 1: return ask_as<long long>(h, key);
    case 2: return ask_as<double>(h, key);
    case 3: return ask_as<bool>(h, key);
    case 4: return ask_as<int>(h, key);
    case 5: return ask_as<std::size_t>(h, key);
    case 6: return ask_as<float>(h, key);
    case 7: return ask_as<unsigned int>(h, key);
    case 8: return ask_as<std::complex<double>>(h, key);
    case 9: return ask_as<std::complex<float>>(h, key);
    case 10: return ask_as<std::complex<int>>(h, key);
    default: return ask_as<std::complex<std::size_t>>(h, key);
    }
}
static const char* type_name(int t) { static const char* n[] = {"string", "long long", "double", "bool", "int", "size_t", "float", "unsigned", "complex<double>", "complex<float>", "complex<int>", "complex<size_t>"}; return n[t]; }
// What the header text says; "" when it leaves the answer open.
static std::string expected(const MHdu& m, const std::string& key, int type) {
    const MCard* c = m.find(key);
    if (key == "END") return "";
    if (!c) return "(exception)";
    if (c->kind == K_COMMENTARY || c->kind == K_END) return "";
    bool integral = type == 1 || type == 4 || type == 5 || type == 7;
    switch (c->kind) {
    case K_LOGICAL: return type == 3 ? (c->b ? "T" : "F") : type == 0 ? show(c->s) : type < 8 ? "(exception)" : "";
    case K_INT:
        if (type == 0) return show(c->s);
        if (type == 3) return "(exception)";
        if (type == 2) return show(c->d);
        if (type == 6) return show((float)c->d);
        if (!integral || (c->i < 0 && (type == 5 || type == 7))) return "";
        if (type == 4 && (c->i > 2147483647ll || c->i < -2147483648ll)) return "(exception)";
        if (type == 7 && c->i > 4294967295ll) return "(exception)";
        return type == 4 ? show((int)c->i) : type == 7 ? show((unsigned)c->i) : fmt("%lld", c->i);
    case K_REAL:
        if (type == 0) return show(c->s);
        if (type == 2) return show(c->d);
        if (type == 6) return show((float)c->d);
        return type == 3 ? "(exception)" : "";
    case K_STRING: return type == 0 ? show(c->s) : type == 3 ? "(exception)" : "";
    case K_UNDEF: return type == 0 ? "\"\"" : type < 8 ? "(exception)" : "";
    default: return "";
    }
}
static void run() {
    GenOpt g;
    g.scale = 60;
    g.max_ext = 2;
    g.small = true;
    MFile f = gen_file(W(), g);
    disk_put("/sim/in.fits", f.bytes());
    size_t which = W().draw((uint32_t)f.hdus.size());
    const MHdu& m = f.hdus[which];
    log_event("header: %s", m.describe().c_str());
    auto read = [&](Header& h) {
        must("reading a header", [&] { io::fits_stream in; in.set_file("/sim/in.fits"); in.set_reading_pos(m.header_pos); h.read_header(in); });
    };
    std::vector<std::unique_ptr<Header>> pool;
    { std::unique_ptr<Header> h; must("constructing", [&] { h.reset(new Header()); }); read(*h); pool.push_back(std::move(h)); }
    Header untouched;
    read(untouched);
    // a header that differs in one card only
    Header other;
    {
        MHdu d = m;
        std::vector<size_t> at;
        for (size_t i = 0; i < d.cards.size(); i++) if (d.cards[i].kind == K_COMMENTARY || i > 2 + d.naxis.size()) at.push_back(i);
        if (at.empty() || W().draw(4) == 3) d.cards.insert(d.cards.end(), card_commentary("COMMENT", "one more"));
        else {
            std::string& t = d.cards[W().pick(at)].text;
            size_t end = t.find_last_not_of(' ');
            size_t p = end == 79 || W().chance(1, 2) ? std::min<size_t>(end, 79) : end + 2 > 79 ? 79 : end + 2; // its last character, or one behind it
            if (p < 10) p = 79;
            t[p] = t[p] == '/' ? ' ' : '/';
        }
        disk_put("/sim/other.fits", d.header_bytes());
        if (attempt([&] { io::fits_stream in; in.set_file("/sim/other.fits"); other.read_header(in); }).raised) violate("unexpected-exception", "a header that differs in one card cannot be read");
    }
    std::vector<std::string> keys;
    for (auto& c : m.cards) keys.push_back(c.key);
    keys.push_back("END");
    for (auto k : {"NO-SUCH", "", "SIMPLE ", "naxis", "NAXIS999", "TFORM999"}) if (!m.find(k)) keys.push_back(k);
    bool focus = W().chance(1, 2); // ask a few keywords again and again
    if (focus) { std::vector<std::string> s; for (int i = 0; i < 3; i++) s.push_back(W().pick(keys)); keys = s; }
    uint32_t steps = 4 + W().draw(40);
    for (uint32_t i = 0; i < steps; i++) {
        size_t pi = W().draw((uint32_t)pool.size());
        Header& h = *pool[pi];
        uint32_t k = W().draw(14);
        op();
        if (k < 9) {
            std::string key = W().pick(keys);
            int type = (int)W().draw(NTYPES);
            bool starve = F().draw(5) == 4;
            if (starve) arm_alloc(F().draw(6), F().chance(1, 2));
            Answer a = ask(h, key, type);
            bool fired = alloc_fired();
            disarm_alloc();
            log_event("ask #%zu %s as %s -> %s%s", pi, key.c_str(), type_name(type), printable(a.text).c_str(), fired ? " (memory ran out)" : "");
            if (fired && a.raised) { probe("starved_query"); continue; }
            Header fresh;
            read(fresh);
            Answer b = ask(fresh, key, type);
            { Lib l; fresh = Header(); }
            require(a.raised == b.raised && a.text == b.text, "history-dependent-answer", fmt("%s as %s: %s, asked of a fresh header: %s", key.c_str(), type_name(type), printable(a.text).c_str(), printable(b.text).c_str()));
            std::string want = expected(m, key, type);
            if (!want.empty()) require(a.text == want, "wrong-answer", fmt("%s as %s: %s instead of %s", key.c_str(), type_name(type), printable(a.text).c_str(), printable(want).c_str()));
            if (a.raised) probe("query_raised");
        } else if (k == 9) {
            std::string key = W().pick(keys);
            if (key == "END") continue;
            bool got = false;
            must("contains_keyword", [&] { got = h.contains_keyword(key); });
            require(got == (m.find(key) != nullptr), "presence", fmt("presence of %s is wrong", key.c_str()));
        } else if (k == 10) { // copies
            std::unique_ptr<Header> n;
            bool assign = W().chance(1, 2) && pool.size() > 1;
            size_t other = W().draw((uint32_t)pool.size());
            if (assign) { must("assigning a header", [&] { *pool[other] = h; }); }
            else if (pool.size() < 5) { must("copying a header", [&] { n.reset(new Header(h)); }); pool.push_back(std::move(n)); }
            probe("copied");
        } else if (k == 11) {
            must("comparing", [&] { require(h == untouched && untouched == h, "header-changed", "a queried header differs from an unqueried copy"); require(!(h == other) && !(other == h), "different-headers-equal", "headers that differ in one card compare equal"); });
        } else if (k == 12) {
            must("writing a header", [&] {
                io::fits_stream out;
                if (!out.create_file("/sim/h")) violate("unexpected-failure", "create_file failed");
                h.write_header(out);
                if (!out.close()) violate("unexpected-failure", "close failed");
            });
            require(disk_get("/sim/h") == m.header_bytes(), "saved-header", "a queried header is saved as other bytes");
            probe("header_written");
        } else {
            must("structure", [&] {
                require(h.bitpix() == to_bitpix(m.bitpix) && h.all_naxis() == m.naxis && h.card_count() == m.cards.size() && h.data_size() == m.elements() && h.get_hdu_name() == m.name && h.total_dimensions() == m.naxis.size(), "structure", "what the header says of its structure changed");
                for (size_t n = 0; n < m.naxis.size(); n++) require(h.naxis(n + 1) == m.naxis[n], "structure", "naxis() changed");
            });
            require(attempt([&] { h.naxis(m.naxis.size() + 1); }).raised, "structure", "an axis that does not exist has a length");
        }
    }
    for (auto& h : pool) must("comparing", [&] { require(*h == untouched, "header-changed", "a queried header differs from an unqueried copy"); require_same(check_header(*h, m, W().draw(24)), "header-changed"); });
    Lib l;
    other = Header();
    pool.clear();
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C10", run); }

// C11: a card always shows its last successful edit, whole.
#include "lib.hpp"
enum Kind { B, I, R, C, Q, T }; // logical, integer, real, complex, string, commentary
struct Want {
    bool text = false;          // false: nothing was put into the card yet
    std::string key;
    Kind kind = T;
    bool b = false; long long i = 0; double re = 0, im = 0; std::string s;
    std::string comment; bool comment_known = true;
};
static std::string strip(const std::string& s) { size_t a = s.find_first_not_of(' '), b = s.find_last_not_of(' '); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
// Independent reading of a card text. Returns "" or what is wrong.
static std::string parse_against(const std::string& raw, const Want& w) {
    if (raw.size() != 80) return fmt("the text has %zu characters", raw.size());
    if (strip(raw.substr(0, 8)) != w.key) return "the keyword in the text is " + raw.substr(0, 8);
    if (w.kind == T) {
        if (raw.substr(8, 2) == "= ") return "a commentary card with a value indicator";
        if (strip(raw.substr(8)) != strip(w.s)) return "commentary text differs";
        return "";
    }
    if (raw.substr(8, 2) != "= ") return "no value indicator";
    size_t p = raw.find_first_not_of(' ', 10), e;
    std::string val;
    if (p == std::string::npos) return "no value";
    if (raw[p] == '\'') {
        for (e = p + 1;; e++) {
            if (e >= 80) return "the string is not closed";
            if (raw[e] != '\'') { val += raw[e]; continue; }
            if (e + 1 < 80 && raw[e + 1] == '\'') { val += '\''; e++; continue; }
            break;
        }
        e++;
        if (w.kind != Q) return "a quoted value";
        size_t q = val.find_last_not_of(' ');
        val = q == std::string::npos ? "" : val.substr(0, q + 1);
        std::string want = w.s;
        q = want.find_last_not_of(' ');
        want = q == std::string::npos ? "" : want.substr(0, q + 1);
        if (val != want) return "the string in the text is \"" + val + "\"";
    } else {
        if (w.kind == Q) return "an unquoted string";
        e = raw.find('/', p);
        if (e == std::string::npos) e = 80;
        val = strip(raw.substr(p, e - p));
        char* rest;
        if (w.kind == B) { if (val != (w.b ? "T" : "F")) return "the logical value in the text is " + val; }
        else if (w.kind == I) { long long x = strtoll(val.c_str(), &rest, 10); if (*rest || x != w.i) return "the integer in the text is " + val; }
        else if (w.kind == R) { double x = strtod(val.c_str(), &rest); if (*rest || x != w.re) return "the number in the text is " + val; }
        else { double x = strtod(val.c_str(), &rest), y = strtod(rest, &rest); if (*rest || x != w.re || y != w.im) return "the complex number in the text is " + val; }
    }
    std::string tail = raw.substr(e);
    size_t sl = tail.find_first_not_of(' ');
    std::string com;
    if (sl != std::string::npos) { if (tail[sl] != '/') return "text behind the value"; com = strip(tail.substr(sl + 1)); }
    if (w.comment_known && com != strip(w.comment)) return "the comment in the text is \"" + com + "\"";
    return "";
}
struct Obj { std::unique_ptr<Card> c; Want w; };
static void check(Obj& o, const char* when) {
    if (!o.w.text) return;
    std::string raw, key;
    must("reading the text", [&] { raw = o.c->raw_card(); key = o.c->keyword(); });
    require_same(parse_against(raw, o.w), "card-text", fmt("%s, card \"%s\"", when, printable(raw).c_str()));
    require(key == o.w.key, "card-keyword", fmt("%s: keyword() is %s instead of %s", when, key.c_str(), o.w.key.c_str()));
}
static bool as_float(double d) { return d == 0 || (std::abs(d) < 1e37 && std::abs(d) > 1e-37); }
static void read_value(Obj& o, uint32_t k) {
    if (!o.w.text) return;
    const Want& w = o.w;
    std::string err;
    auto bad = [&](const char* t) { NotLib nl; err = fmt("reading as %s gives another value", t); };
    bool starve = F().draw(6) == 5;
    if (starve) arm_alloc(F().draw(5), F().chance(1, 2));
    bool expect_raise = false;
    Outcome r = attempt([&] {
        Card& c = *o.c;
        switch (w.kind) {
        case B:
            if (k % 3 == 0) { if (c.value<bool>() != w.b) bad("bool"); }
            else if (k % 3 == 1) { if (c.value<std::string>() != (w.b ? "T" : "F")) bad("string"); }
            else { expect_raise = true; c.value<long long>(); }
            break;
        case I:
            if (k % 6 == 0) { if (c.value<long long>() != w.i) bad("long long"); }
            else if (k % 6 == 1) { if (w.i >= -2147483648ll && w.i <= 2147483647ll) { if (c.value<int>() != (int)w.i) bad("int"); } else { expect_raise = true; c.value<int>(); } }
            else if (k % 6 == 2) { if (c.value<double>() != (double)w.i) bad("double"); }
            else if (k % 6 == 3) { if (c.value<std::string>() != std::to_string(w.i)) bad("string"); }
            else if (k % 6 == 4) { if (w.i >= 0 && c.value<std::size_t>() != (std::size_t)w.i) bad("size_t"); }
            else { expect_raise = true; c.value<bool>(); }
            break;
        case R:
            if (k % 3 == 0) { if (c.value<double>() != w.re) bad("double"); }
            else if (k % 3 == 1) { if (as_float(w.re) && c.value<float>() != (float)w.re) bad("float"); }
            else { expect_raise = true; c.value<bool>(); }
            break;
        case C:
            if (k % 2 == 0 || !as_float(w.re) || !as_float(w.im)) { auto v = c.value<std::complex<double>>(); if (v.real() != w.re || v.imag() != w.im) bad("complex<double>"); }
            else { auto v = c.value<std::complex<float>>(); if (v.real() != (float)w.re || v.imag() != (float)w.im) bad("complex<float>"); }
            break;
        case Q:
            if (k % 3 == 2) { expect_raise = true; c.value<bool>(); }
            else { std::string v = c.value<std::string>(); NotLib nl; std::string want = w.s; size_t q = want.find_last_not_of(' '); want = q == std::string::npos ? "" : want.substr(0, q + 1); if (v != want) err = "reading as string gives \"" + v + "\" instead of \"" + want + "\""; }
            break;
        case T: { std::string v = c.value<std::string>(); NotLib nl; if (strip(v) != strip(w.s)) err = "the commentary text reads as \"" + v + "\""; break; }
        }
        if (k % 5 == 4) { std::string v = c.value_with_comment(); NotLib nl; if (strip(c.raw_card().substr(10)) != v) err = "value_with_comment() is \"" + v + "\""; }
    });
    bool fired = alloc_fired();
    disarm_alloc();
    op();
    if (fired && r.raised) { probe("starved_read"); return; }
    require_same(err, "card-value", fmt("card \"%s\"", printable(o.c->raw_card()).c_str()));
    if (r.raised != expect_raise) violate("card-value", fmt("card \"%s\": reading kind %d as type %u %s", printable(o.c->raw_card()).c_str(), w.kind, k, r.raised ? ("raised " + r.what).c_str() : "returned"));
    stats.checks++;
}
static std::string draw_text(size_t max) {
    static const std::vector<std::string> base = {"a", "", "it's", "''", "'", "a/b", " / ", "  lead", "trail  ", "a  b", "/'/", "'quoted'", "km/s", "=", "= ", "x'/y'z", "M31 / NGC 224", "'''"};
    std::string s = W().pick(base);
    if (W().draw(4) == 3) { uint32_t n = W().draw((uint32_t)max + 1); static const char cs[] = "ab'/ =,x."; for (uint32_t i = 0; i < n; i++) s += cs[W().draw(9)]; }
    return s;
}
static std::string draw_key() { static const std::vector<std::string> k = {"A", "KEY", "TARGET", "EXPTIME", "TELESCOP", "NAXIS12", "DATE-OBS", "K_1"}; return W().pick(k); }
static double draw_real() { static const std::vector<double> d = {0, 1.5, -2.25, 100000, 1e-10, -3.5e20, 0.125, 12345, -1e300, 2.5e-300, 99999.5}; return W().pick(d); }
static double draw_real_f() { static const std::vector<double> d = {0, 1.5, -2.25, 100000, 0.125, 12345, -3.5, 1024}; return W().pick(d); }
static long long draw_int() { static const std::vector<long long> d = {0, 1, -1, 42, 2147483647, 2147483648ll, -2147483648ll, 9223372036854775807ll, -9223372036854775807ll - 1, 1000000, -77}; return W().pick(d); }
static size_t quoted(const std::string& s) { size_t n = 2; for (char c : s) n += c == '\'' ? 2 : 1; return n; }
static void run() {
    std::vector<Obj> pool(1);
    must("constructing a card", [&] { pool[0].c.reset(new Card()); });
    uint32_t steps = 3 + W().draw(30);
    for (uint32_t i = 0; i < steps; i++) {
        size_t oi = W().draw((uint32_t)pool.size());
        Obj& o = pool[oi];
        uint32_t k = W().draw(12);
        if (k == 1 && o.w.text) { read_value(o, W().draw(30)); check(o, "after reading"); continue; }
        if (k == 2) { // copies
            if (pool.size() < 4 && W().chance(1, 2)) { Obj n; n.w = o.w; must("copying a card", [&] { n.c.reset(new Card(*o.c)); }); pool.push_back(std::move(n)); }
            else { Obj& d = pool[W().draw((uint32_t)pool.size())]; must("assigning a card", [&] { *d.c = *o.c; }); d.w = o.w; check(d, "after assignment"); }
            probe("copied");
            continue;
        }
        if (k == 3 && o.w.text) { for (int j = 0; j < 4; j++) read_value(o, W().draw(30)); continue; }
        if (k == 4 && W().chance(1, 3)) { // more text than a card holds
            std::string text = o.w.text && o.w.kind != T ? o.c->raw_card() : std::string("LONGTEXT=                    1") + std::string(50, ' ');
            text += W().chance(1, 2) ? std::string(1 + W().draw(3), ' ') : content(3, 1 + W().draw(40));
            std::string before = o.w.text ? o.c->raw_card() : "";
            Outcome r = attempt([&] { *o.c = Card(text); });
            op();
            count_fault(F_REJECTED_EDIT);
            if (!r.raised && o.w.text) { std::string raw = o.c->raw_card(); require(raw.size() == 80, "impossible-edit-returned", fmt("a card of %zu characters was accepted", raw.size())); }
            require(r.raised, "impossible-edit-returned", fmt("a card was made from %zu characters", text.size()));
            if (o.w.text) require(o.c->raw_card() == before, "card-after-failed-edit", "the rejected text changed the card");
            check(o, "after a rejected text");
            continue;
        }
        // an edit
        Want n;
        n.text = true;
        n.key = draw_key();
        n.kind = (Kind)W().draw(6);
        bool set = o.w.text && W().chance(1, 3) && n.kind != T;
        uint32_t variant = W().draw(4);
        n.b = W().chance(1, 2);
        n.i = draw_int();
        n.re = draw_real(); n.im = draw_real();
        n.s = draw_text(n.kind == T ? 80 : 75);
        n.comment = W().chance(1, 2) ? draw_text(70) : "";
        if (n.kind == T) n.comment = "";
        if (n.kind == I && variant == 1) n.i = (int)n.i;
        if ((n.kind == R || n.kind == C) && variant == 1) { n.re = draw_real_f(); n.im = draw_real_f(); }
        if (n.kind == C && variant == 2) { n.re = W().draw(2000); n.im = W().draw(2000); n.re -= 1000; }
        if (set) { n.key = o.w.key; n.comment = ""; n.comment_known = false; }
        if (W().draw(10) == 9 && !set) n.key = W().chance(1, 2) ? "NINECHARS" : "TOOLONGKEY"; // rejected
        size_t vlen = n.kind == Q ? quoted(n.s) : n.kind == C ? 40 : 20;
        bool fits = n.key.size() <= 8 && (n.kind == T ? 9 + n.s.size() <= 80 : 10 + vlen + (n.comment.empty() ? 0 : 2 + n.comment.size()) <= 80);
        bool cannot = n.key.size() > 8 || (n.kind == T ? strip(n.s).size() > 72 : n.kind == Q ? 10 + 2 + (quoted(strip(n.s)) - 2) + (strip(n.comment).empty() ? 0 : 1 + strip(n.comment).size()) > 80 : false);
        std::string before;
        if (o.w.text) before = o.c->raw_card();
        bool starve = F().chance(1, 4);
        log_event("card %zu: %s kind %d key %s \"%s\" / \"%s\"%s", oi, set ? "set" : "create", n.kind, n.key.c_str(), n.s.c_str(), n.comment.c_str(), fits ? "" : " (does not fit)");
        if (starve) arm_alloc(F().draw(10), F().chance(1, 3));
        Outcome r = attempt([&] {
            Card& c = *o.c;
            switch (n.kind) {
            case B: set ? c.set_value(n.b) : c.create_card(n.key, n.b, n.comment); break;
            case I: if (variant == 1) { int v = (int)n.i; set ? c.set_value(v) : c.create_card(n.key, v, n.comment); } else set ? c.set_value(n.i) : c.create_card(n.key, n.i, n.comment); break;
            case R: if (variant == 1) { float v = (float)n.re; set ? c.set_value(v) : c.create_card(n.key, v, n.comment); } else set ? c.set_value(n.re) : c.create_card(n.key, n.re, n.comment); break;
            case C:
                if (variant == 1) { std::complex<float> v((float)n.re, (float)n.im); set ? c.set_value(v) : c.create_card(n.key, v, n.comment); }
                else if (variant == 2) { std::complex<int> v((int)n.re, (int)n.im); set ? c.set_value(v) : c.create_card(n.key, v, n.comment); }
                else { std::complex<double> v(n.re, n.im); set ? c.set_value(v) : c.create_card(n.key, v, n.comment); }
                break;
            case Q:
                if (variant == 1) { set ? c.set_value(n.s.c_str()) : c.create_card(n.key, n.s.c_str(), n.comment); }
                else if (variant == 2 && !set) { c = Card(n.key, n.s, n.comment); }
                else set ? c.set_value(n.s) : c.create_card(n.key, n.s, n.comment);
                break;
            case T: c.create_commentary_card(n.key, n.s); break;
            }
        });
        bool fired = alloc_fired();
        disarm_alloc();
        op();
        if (r.raised) {
            if (!fits) { count_fault(F_REJECTED_EDIT); probe("rejected_edit"); } else if (fired) probe("starved_edit");
            require(fired || !fits, "unexpected-exception", fmt("an edit that fits raised: %s", r.what.c_str()));
            if (o.w.text) require(o.c->raw_card() == before, "card-after-failed-edit", fmt("the failed edit left \"%s\" instead of \"%s\"", printable(o.c->raw_card()).c_str(), printable(before).c_str()));
            else { std::string raw = o.c->raw_card(); require(strip(raw).empty(), "card-after-failed-edit", fmt("the failed edit left \"%s\" in an empty card", printable(raw).c_str())); }
        } else {
            require(!cannot, "impossible-edit-returned", fmt("an edit that cannot fit returned; card \"%s\"", printable(o.c->raw_card()).c_str()));
            o.w = n;
            probe("edit");
        }
        check(o, r.raised ? "after a failed edit" : "after an edit");
        if (W().chance(1, 2)) read_value(o, W().draw(30));
        // nobody else changed
        for (auto& x : pool) check(x, "another card");
        // the text alone gives the same card again
        if (o.w.text && W().draw(6) == 5 && o.w.kind != T) {
            Obj again;
            again.w = o.w;
            must("constructing a card from its text", [&] { again.c.reset(new Card(o.c->raw_card())); require(*again.c == *o.c, "card-from-text", "a card constructed from the text differs"); });
            check(again, "constructed from text");
            read_value(again, W().draw(30));
            Lib l; again.c.reset();
        }
    }
    for (auto& o : pool) { check(o, "at the end"); for (int j = 0; j < 6; j++) read_value(o, (uint32_t)j); }
    Lib l;
    pool.clear();
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C11", run); }

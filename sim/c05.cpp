// C05: truncated, torn or unreadable files are never read as if they were whole.
#include "edit.hpp"
static const char* PATH = "/sim/in.fits";
// What was returned must be exactly the HDUs that begin in the first n bytes, all of them wholly there.
static std::string check_prefix(Reader& r, const MFile& f, size_t n, bool full) {
    size_t begin = 0;
    for (auto& h : f.hdus) if (h.header_pos < n) begin++;
    size_t have = hdu_count(r);
    if (have != begin) { NotLib nl; return fmt("returned %zu HDUs although %zu begin in the %zu bytes there are", have, begin, n); }
    for (size_t i = 0; i < have; i++) {
        const MHdu& h = f.hdus[i];
        if (h.header_pos + h.header_text().size() > n) { NotLib nl; return fmt("returned HDU %zu whose header is cut off at %zu", i, n); }
        if (full && h.data_pos + h.data.size() > n && !h.data.empty()) { NotLib nl; return fmt("returned HDU %zu whose data is cut off at %zu", i, n); }
        std::string e = check_hdu(r[(int)i], h, full ? WITH_DATA : NO_DATA);
        if (!e.empty()) { NotLib nl; return fmt("HDU %zu: ", i) + e; }
    }
    return "";
}
static void budget(size_t n) { set_budget(60 * n + 4000, 60 * n + 200000, 4000 * n + (64ull << 20)); }
static io::reading_options mode(bool full) { return full ? io::reading_options::read_entire_hdus : io::reading_options::read_only_headers; }
static void open_cut(const MFile& f, const std::string& bytes, bool full, const char* what) {
    disk_put(PATH, bytes);
    budget(bytes.size());
    op();
    Outcome o = attempt([&] {
        Reader r = io::fits::open(PATH, mode(full));
        NotLib nl;
        probe("cut_file_returned_something");
        must("reading what was returned", [&] { require_same(check_prefix(r, f, bytes.size(), full), what); });
    });
    if (o.raised) probe("cut_file_raised");
    stats.checks++;
    log_event("cut at %zu: %s", bytes.size(), o.raised ? "raised" : "returned");
}
static size_t draw_cut(const MFile& f, size_t size) {
    switch (F().draw(6)) {
    case 0: return F().draw((uint32_t)size + 1);
    case 1: return std::min<size_t>(size, F().draw((uint32_t)size / 2880 + 1) * 2880 + F().draw(3));
    case 2: { size_t x = F().draw((uint32_t)size / 80 + 1) * 80 + F().draw(3); return std::min(size, x ? x - 1 : 0); }
    case 3: { auto& h = f.hdus[F().draw((uint32_t)f.hdus.size())]; size_t x = h.data_pos + F().draw(3); return std::min(size, x ? x - 1 : 0); }
    case 4: { auto& h = f.hdus[F().draw((uint32_t)f.hdus.size())]; size_t x = h.data_pos + h.data.size() + F().draw(3); return std::min(size, x ? x - 1 : 0); }
    default: { auto& h = f.hdus[F().draw((uint32_t)f.hdus.size())]; size_t x = h.header_pos + h.header_text().size() + F().draw(3); return std::min(size, x ? x - 1 : 0); }
    }
}
static void run() {
    GenOpt g;
    g.scale = 100;
    g.max_ext = 3;
    g.small = W().chance(1, 2);
    MFile f = gen_file(W(), g);
    std::string bytes = f.bytes();
    log_event("file: %s", f.describe().c_str());
    uint32_t what = W().draw(10);
    draw_chunking();
    if (what <= 2) { // cuts
        uint32_t n = 1 + F().draw(6);
        for (uint32_t i = 0; i < n; i++) {
            size_t cut = draw_cut(f, bytes.size());
            count_fault(F_TRUNCATE);
            bool full = W().chance(1, 2);
            open_cut(f, bytes.substr(0, cut), full, "cut-file");
        }
    } else if (what == 3) { // a header that declares far more than there is
        MFile h;
        h.hdus.push_back(f.hdus[0]);
        MHdu& p = h.hdus[0];
        static const std::vector<std::pair<size_t, size_t>> dims = {{1000000, 1000000}, {100000, 20000}, {4294967296ull, 3}, {3000, 1}, {2147483648ull, 2147483648ull}, {70000, 70000}};
        auto d = W().pick(dims);
        p.naxis = {d.first, d.second};
        std::vector<MCard> cs;
        for (auto& c : p.cards) if (c.key.compare(0, 5, "NAXIS") != 0 || c.key == "NAXIS00") cs.push_back(c);
        p.cards.clear();
        for (auto& c : cs) { p.cards.push_back(c); if (c.key == "BITPIX") { p.cards.push_back(card_int("NAXIS", 2)); p.cards.push_back(card_int("NAXIS1", (long long)d.first)); p.cards.push_back(card_int("NAXIS2", (long long)d.second)); } }
        p.data.clear();
        std::string b = p.header_bytes() + content(2, F().draw(9000));
        disk_put(PATH, b);
        budget(b.size());
        count_fault(F_TRUNCATE);
        op();
        size_t need = p.elements() * p.elem_size();
        Outcome o = attempt([&] { Reader r = io::fits::open(PATH); });
        require(o.raised || p.header_bytes().size() + need <= b.size(), "invented-data", fmt("opening a file that lacks most of its %zu data bytes returned", need));
        Outcome o2 = attempt([&] {
            Reader r = io::fits::open(PATH, io::reading_options::read_only_headers);
            require(hdu_count(r) >= 1, "missing-hdu", "no HDU returned");
            auto hd = io::fits::convert_to<io::primary_hdu>(r[0]).get_header();
            require(hd.all_naxis() == p.naxis, "wrong-header", "axes differ");
        });
        (void)o2;
        probe("huge_declared_size");
    } else if (what == 4) { // crash while saving
        disk_put(PATH, bytes);
        std::unique_ptr<Reader> r;
        must("opening", [&] { r.reset(new Reader(io::fits::open(PATH))); });
        uint32_t edits = W().skewed(3);
        for (uint32_t i = 0; i < edits; i++) random_edit(W(), *r, f);
        std::string old = bytes, target = W().chance(1, 2) ? "/sim/other.fits" : PATH;
        if (target != PATH) { if (W().chance(1, 2)) disk_put(target, old); else old = ""; }
        must("saving", [&] { r->write_to("/sim/whole.fits"); });
        std::string whole = disk_get("/sim/whole.fits");
        MFile s = saved_form(f);
        reset_counts();
        arm_sys(F_CRASH, F().draw(40), F().draw(1 << 14));
        attempt([&] { r->write_to(target); });
        bool crashed = self().crashed;
        { Lib l; r.reset(); } // the process is gone
        self().crashed = false;
        disarm_sys();
        op();
        if (!crashed) return;
        probe("crash_during_save");
        std::string left = disk_get(target);
        log_event("after the crash %zu of %zu bytes are there", left.size(), whole.size());
        for (int full = 0; full < 2; full++) {
            if (left == whole.substr(0, left.size())) open_cut(s, left, full, "torn-save");
            else { budget(left.size()); attempt([&] { Reader q = io::fits::open(target, mode(full)); }); }
        }
    } else if (what >= 8) { // the file is cut, or still growing, while it is being read
        bool full = W().chance(1, 2), grows = what == 9;
        disk_put(PATH, bytes);
        reset_counts();
        must("opening", [&] { Reader r = io::fits::open(PATH, mode(full)); });
        uint64_t calls = self().sys_count;
        uint32_t n = 1 + F().draw(6);
        for (uint32_t i = 0; i < n; i++) {
            size_t cut = draw_cut(f, bytes.size());
            std::string part = bytes.substr(0, cut);
            disk_put(PATH, grows ? part : bytes);
            uint64_t at = F().draw((uint32_t)calls + 1);
            budget(bytes.size());
            arm_file_change(at, grows ? bytes : part, grows);
            op();
            Outcome o = attempt([&] {
                Reader r = io::fits::open(PATH, mode(full));
                NotLib nl;
                disarm_sys();
                must("reading what was returned", [&] {
                    size_t have = hdu_count(r), begin = 0;
                    for (auto& h : f.hdus) if (h.header_pos < cut) begin++;
                    require(have >= begin && have <= f.hdus.size(), "file-changed-while-open", fmt("%zu HDUs although %zu begin in the %zu bytes that were there all the time", have, begin, cut));
                    require_same(check_reader(r, f, full ? WITH_DATA : NO_DATA, 0, have), "file-changed-while-open");
                });
                probe("changing_file_returned_something");
            });
            if (o.raised) probe("changing_file_raised");
            disarm_sys();
            disk_put(PATH, bytes);
            must("opening the whole file", [&] { Reader r = io::fits::open(PATH, mode(full)); require_same(check_reader(r, f, full ? WITH_DATA : NO_DATA), "re-opened"); });
        }
    } else { // read errors
        disk_put(PATH, bytes);
        bool full = W().chance(1, 2);
        reset_counts();
        must("opening", [&] { Reader r = io::fits::open(PATH, mode(full)); });
        uint64_t calls = self().sys_count;
        static const std::vector<FaultKind> kinds = {F_EIO_READ, F_EIO_READ_STICKY, F_SEEK_EIO, F_OPEN_EACCES, F_OPEN_EMFILE, F_OPEN_EIO};
        uint32_t n = 1 + F().draw(6);
        for (uint32_t i = 0; i < n; i++) {
            FaultKind k = F().pick(kinds);
            uint64_t at = F().draw((uint32_t)calls + 1);
            budget(bytes.size());
            arm_sys(k, at);
            op();
            Outcome o = attempt([&] {
                Reader r = io::fits::open(PATH, mode(full));
                NotLib nl;
                bool fired = sys_fired();
                NoFaults nf;
                if (fired) probe("read_error_but_returned");
                must("reading what was returned", [&] { require_same(check_reader(r, f, full ? WITH_DATA : NO_DATA), "read-error"); });
            });
            bool fired = sys_fired();
            disarm_sys();
            require(!o.raised || fired, "unexpected-exception", "opening raised without a fault: " + o.what);
            if (fired && o.raised) probe("read_error_raised");
            must("opening again once the storage works", [&] { Reader r = io::fits::open(PATH, mode(full)); require_same(check_reader(r, f, full ? WITH_DATA : NO_DATA), "re-opened"); });
            require(open_descriptors() == 0, "descriptor-leak", "a descriptor stays open");
        }
    }
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C05", run); }

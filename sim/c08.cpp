// C08: a reader can be re-used and stays consistent after failures.
#include "edit.hpp"
#include <set>
struct Source { std::string path; MFile f; size_t present; bool known; bool missing; }; // known: content follows the model (up to `present` bytes)

// What the reader shows must be the first n HDUs of the source and nothing else.
static void check_state(Reader& r, const Source& s, bool full, bool complete, const char* when) {
    NoFaults nf;
    size_t n = 0;
    must("listing HDUs", [&] { n = hdu_count(r); });
    if (complete && s.known) { must("reading a re-used reader", [&] { require_same(check_reader(r, s.f, full ? WITH_DATA : NO_DATA), "re-used-reader", when); }); }
    if (s.missing) require(n == 0, "left-over-hdus", fmt("%s: %zu HDUs although the file cannot be opened", when, n));
    if (s.known) {
        require(n <= s.f.hdus.size(), "left-over-hdus", fmt("%s: %zu HDUs, the file has %zu", when, n, s.f.hdus.size()));
        for (size_t i = 0; i < n; i++) {
            const MHdu& m = s.f.hdus[i];
            require(m.header_pos + m.header_text().size() <= s.present, "left-over-hdus", fmt("%s: HDU %zu was never read from this file", when, i));
            must("reading an HDU after a failure", [&] { require_same(check_hdu(r[(int)i], m, full ? WITH_DATA : NO_DATA), "hdu-after-failure", fmt("%s: HDU %zu", when, i)); });
        }
    }
    require(attempt([&] { r[(int)n]; }).raised, "index-past-end", fmt("%s: index %zu of %zu does not raise", when, n, n));
    require(attempt([&] { r[-1]; }).raised, "index-past-end", fmt("%s: index -1 does not raise", when));
    io::control_block cb;
    must("asking for the file information", [&] { cb = r.get_control_block_info(); });
    require(cb.total_hdus() == n, "hdu-count", fmt("%s: %zu HDUs counted, %zu there", when, cb.total_hdus(), n));
    require(cb.filepath.empty() || cb.filepath == s.path, "file-path", fmt("%s: path is %s", when, cb.filepath.c_str()));
    if (complete) require(cb.filepath == s.path, "file-path", fmt("%s: path is %s", when, cb.filepath.c_str()));
    for (std::string name : {"primary_hdu", "TABLE", "BINTABLE", "IMAGE", "A3DTABLE", "FOREIGN", "NO_SUCH"}) {
        size_t last = (size_t)-1;
        if (s.known) for (size_t i = 0; i < n; i++) if (s.f.hdus[i].name == name) last = i;
        const Ext* e = nullptr;
        Outcome o = attempt([&] { e = &r[name]; });
        stats.checks++;
        if (o.raised) { if (last != (size_t)-1) violate("lookup-by-name", fmt("%s: %s was read but cannot be found by name", when, name.c_str())); continue; }
        size_t idx = (size_t)-1;
        for (size_t i = 0; i < n; i++) if (&r[(int)i] == e) idx = i;
        if (idx == (size_t)-1) violate("lookup-by-name", fmt("%s: %s gives an HDU that is not in the list", when, name.c_str()));
        if (s.known && idx != last) violate("lookup-by-name", fmt("%s: %s gives HDU %zu instead of %zd", when, name.c_str(), idx, (ssize_t)last));
    }
    for (auto& kv : cb.hdus_info) {
        require(kv.second.hdu_index < n, "dangling-name", fmt("%s: name %s points at HDU %zu of %zu", when, kv.first.c_str(), kv.second.hdu_index, n));
        if (s.known) { const MHdu& m = s.f.hdus[kv.second.hdu_index]; require(kv.first == m.name && kv.second.header_location == m.header_pos && kv.second.data_location == m.data_pos, "name-information", fmt("%s: the information for %s is not that of HDU %zu", when, kv.first.c_str(), kv.second.hdu_index)); }
    }
}
static Source draw_source(int index) {
    GenOpt g;
    g.scale = 400;
    g.max_ext = 4;
    g.small = W().draw(4) != 3;
    Source s;
    s.path = fmt("/sim/f%d.fits", index);
    s.f = gen_file(W(), g);
    std::string b = s.f.bytes();
    s.present = b.size();
    s.known = true;
    s.missing = false;
    switch (W().draw(6)) {
    case 3: s.present = F().draw((uint32_t)b.size()); b.resize(s.present); count_fault(F_TRUNCATE); break;
    case 4: { // damaged header somewhere: what is in front of it stays good
        size_t h = F().draw((uint32_t)s.f.hdus.size());
        size_t at = s.f.hdus[h].header_pos + 80 * F().draw(4) + F().draw(20);
        if (at < b.size()) b[at] ^= 0x15;
        s.known = false;
        count_fault(F_BYTE_DAMAGE);
        break;
    }
    case 5: s.missing = W().chance(1, 2); if (!s.missing) { s.present = s.f.hdus.back().header_pos + F().draw(2880); b.resize(s.present); count_fault(F_TRUNCATE); } break;
    default: break;
    }
    if (!s.missing) disk_put(s.path, b);
    log_event("source %d: %zu bytes%s%s: %s", index, b.size(), s.missing ? " missing" : "", s.known ? "" : " damaged", s.f.describe().c_str());
    return s;
}
static void header_reuse() {
    GenOpt g;
    g.max_ext = 4;
    g.small = true;
    MFile f = gen_file(W(), g);
    log_event("file: %s", f.describe().c_str());
    disk_put("/sim/h.fits", f.bytes());
    std::unique_ptr<Header> h;
    must("constructing a header", [&] { h.reset(new Header()); });
    io::fits_stream in;
    must("opening", [&] { in.set_file("/sim/h.fits"); });
    draw_chunking();
    uint32_t steps = 2 + W().draw(6);
    for (uint32_t i = 0; i < steps; i++) {
        const MHdu& m = W().pick(f.hdus);
        uint32_t k = W().draw(5);
        if (k == 4) { // a reading that fails part-way
            size_t at = F().chance(1, 2) ? m.header_pos + 80 * F().draw((uint32_t)m.cards.size()) : F().draw((uint32_t)f.bytes().size());
            attempt([&] { in.set_reading_pos(at); h->read_header(in); });
            log_event("reading a header from the middle, at %zu", at);
            must("re-opening", [&] { in.set_file("/sim/h.fits"); });
            probe("header_read_from_middle");
        } else if (k == 3) {
            arm_alloc(F().draw(150), F().chance(1, 3));
            Outcome o = attempt([&] { in.set_reading_pos(m.header_pos); h->read_header(in); });
            bool fired = alloc_fired();
            disarm_alloc();
            require(!o.raised || fired, "unexpected-exception", "reading a header raised: " + o.what);
            probe("header_read_starved");
            must("re-opening", [&] { in.set_file("/sim/h.fits"); });
            if (!o.raised) { must("querying", [&] { require_same(check_header(*h, m, i), "re-read-header"); }); }
        } else {
            Header fresh;
            must("reading a header", [&] {
                in.set_reading_pos(m.header_pos);
                h->read_header(in);
                require_same(check_header(*h, m, i), "re-read-header");
                in.set_reading_pos(m.header_pos);
                fresh.read_header(in);
                require(*h == fresh && fresh == *h, "re-read-header", "a re-read header differs from a freshly read one");
                for (auto& o : f.hdus) for (auto& c : o.cards) if (!m.find(c.key) && h->contains_keyword(c.key)) { NotLib nl; violate("left-over-keyword", c.key + " is left over from another header"); }
                for (auto& o : f.hdus) for (auto& c : o.cards) if (!m.find(c.key)) { bool raised = false; try { h->value_of<std::string>(c.key); } catch (std::out_of_range&) { raised = true; } if (!raised) { NotLib nl; violate("left-over-keyword", c.key + " still has a value"); } }
            });
            { Lib l; fresh = Header(); }
            op();
            probe("header_reread");
        }
    }
    Lib l; h.reset();
}
static void run() {
    if (W().draw(6) == 5) { header_reuse(); return; }
    int ns = 2 + (int)W().draw(3);
    std::vector<Source> src;
    for (int i = 0; i < ns; i++) src.push_back(draw_source(i));
    std::unique_ptr<Reader> r;
    bool opened = false;
    must("constructing a reader", [&] { r.reset(new Reader()); });
    draw_chunking();
    uint32_t steps = 2 + W().draw(6);
    for (uint32_t i = 0; i < steps; i++) {
        const Source& s = src[W().draw((uint32_t)ns)];
        bool full = W().chance(1, 2), whole = s.known && !s.missing && s.present == s.f.bytes().size();
        uint32_t how = W().draw(4), fk = F().draw(4);
        log_event("point the reader at %s, %s", s.path.c_str(), full ? "full" : "headers");
        std::string when = fmt("step %u", i);
        // size of the whole thing, for placing faults
        uint64_t calls = 20, allocs = 500;
        if (fk >= 2 && !s.missing) {
            reset_counts();
            attempt([&] { Reader dry(s.path); if (full) dry.read_entire_hdus(); else dry.read_only_headers(); });
            calls = self().sys_count; allocs = self().alloc_count;
        }
        if (fk == 2) { static const std::vector<FaultKind> ks = {F_EIO_READ, F_EIO_READ_STICKY, F_SEEK_EIO, F_OPEN_EACCES, F_OPEN_EMFILE}; arm_sys(F().pick(ks), F().draw((uint32_t)calls + 1)); }
        if (fk == 3) arm_alloc(F().draw((uint32_t)allocs + 1), F().chance(1, 4));
        Outcome o;
        bool pointed = true;
        if (how == 3) { // assigned from a fresh one: on failure the old content stays
            o = attempt([&] { *r = io::fits::open(s.path, full ? io::reading_options::read_entire_hdus : io::reading_options::read_only_headers); });
            if (o.raised) pointed = false;
            probe("assigned");
        } else {
            o = attempt([&] { r->initialize(s.path); if (full) r->read_entire_hdus(); else r->read_only_headers(); });
            probe("re_initialized");
        }
        bool fired = sys_fired() || alloc_fired();
        disarm_sys();
        disarm_alloc();
        op();
        log_event("%s", o.raised ? "raised" : "returned");
        if (o.raised && whole) require(fired, "unexpected-exception", "opening raised: " + o.what);
        if (s.missing) require(o.raised, "missing-file-opened", "a missing file was opened");
        if (o.raised) probe(fired ? "failed_by_fault" : "failed_by_file");
        if (!pointed) { if (!opened) continue; must("listing", [&] { hdu_count(*r); }); must("pointing the reader elsewhere", [&] { *r = Reader(); }); continue; }
        opened = true;
        check_state(*r, s, full, !o.raised && whole, when.c_str());
        if (s.known && W().chance(1, 4)) { // saving what is there
            size_t n = hdu_count(*r);
            Outcome so = attempt([&] { r->write_to("/sim/out.fits"); });
            if (full && n == s.f.hdus.size()) require(!so.raised, "unexpected-exception", "saving raised: " + so.what);
            if (!so.raised) { MFile p; for (size_t j = 0; j < n; j++) p.hdus.push_back(s.f.hdus[j]); require_same(check_saved_file("/sim/out.fits", p), "saved-after-reuse"); }
        }
        require(open_descriptors() <= 1, "descriptor-leak", fmt("%d descriptors open", open_descriptors()));
    }
    // in the end a good file is presented completely
    MFile g = gen_file(W());
    disk_put("/sim/final.fits", g.bytes());
    Source fin{"/sim/final.fits", g, g.bytes().size(), true, false};
    bool full = W().chance(1, 2);
    must("pointing a re-used reader at a good file", [&] { r->initialize("/sim/final.fits"); if (full) r->read_entire_hdus(); else r->read_only_headers(); });
    check_state(*r, fin, full, true, "final");
    { Lib l; r.reset(); }
    require(open_descriptors() == 0, "descriptor-leak", "a descriptor stays open");
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C08", run); }

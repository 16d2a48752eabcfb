// C12: running out of memory is survivable at every point.
#include "edit.hpp"
#include <memory>
static const char* PATH = "/sim/in.fits";
struct World { // everything one attempt works on; made without faults
    MFile f, want;          // want: content expected in memory after the operation succeeded
    std::unique_ptr<Reader> r, other;
    std::unique_ptr<Card> card;
    std::unique_ptr<Header> header;
    std::unique_ptr<std::deque<Ext>> list;
    std::string text;
};
struct Scenario {
    const char* name;
    std::function<void(World&)> prepare, act, verify;   // verify: the operation returned
    std::function<void(World&)> after_failure;          // what must hold after it raised
};
static Reader open_it(bool full) { return io::fits::open(PATH, full ? io::reading_options::read_entire_hdus : io::reading_options::read_only_headers); }
static void verify_reader(Reader& r, const MFile& f, bool full, const char* what) { must("reading the result", [&] { require_same(check_reader(r, f, full ? WITH_DATA | META : NO_DATA | META), what); }); }
static void drop(World& w) { Lib l; w.r.reset(); w.other.reset(); w.card.reset(); w.header.reset(); w.list.reset(); }

static void run() {
    GenOpt g;
    g.max_ext = 2;
    g.small = true;
    g.max_rows = 6;
    g.need_table = W().chance(3, 4);
    MFile f = gen_file(W(), g);
    log_event("file: %s", f.describe().c_str());
    disk_put(PATH, f.bytes());
    MFile f2 = gen_file(W(), g);
    disk_put("/sim/other.fits", f2.bytes());
    size_t eh = 0, er = 0, ec = 0;
    bool have_target = draw_target(W(), f, eh, er, ec);
    NewValue nv;
    if (have_target) nv = draw_value(W(), f.hdus[eh], ec);
    bool alt = W().chance(1, 2), full = W().chance(1, 2);
    unsigned salt = W().draw(24);
    uint32_t what = W().draw(12);
    Scenario s;
    auto unchanged = [&](World& w) { if (w.r) verify_reader(*w.r, f, true, "object-after-failure"); };
    switch (what) {
    case 0: case 1:
        s = {"opening a file", [&](World&) {}, [&](World& w) { w.r.reset(new Reader(open_it(full))); }, [&](World& w) { verify_reader(*w.r, f, full, "result"); }, [](World&) {}};
        break;
    case 2:
        s = {"reading a header and asking it", [&](World&) {}, [&](World& w) {
            io::fits_stream in;
            in.set_file(PATH);
            w.header.reset(new Header());
            w.header->read_header(in);
            std::string e = check_header(*w.header, f.hdus[0], salt);
            if (!e.empty()) violate("result", e);
        }, [&](World& w) { must("asking", [&] { require_same(check_header(*w.header, f.hdus[0], salt + 1), "result"); }); }, [](World&) {}};
        break;
    case 3:
        s = {"reading columns", [&](World& w) { w.r.reset(new Reader(open_it(true))); }, [&](World& w) { std::string e = check_reader(*w.r, f, WITH_DATA | TYPED, salt); if (!e.empty()) violate("result", e); }, [](World&) {}, unchanged};
        break;
    case 4: case 5:
        if (!have_target) return;
        s = {"editing a cell", [&](World& w) { w.r.reset(new Reader(open_it(true))); if (alt) check_reader(*w.r, f, WITH_DATA | TYPED, salt); },
            [&](World& w) { lib_set((*w.r)[(int)eh], f.hdus[eh], er, ec, nv, alt); },
            [&](World& w) { MFile n = f; model_set(n.hdus[eh], er, ec, nv); verify_reader(*w.r, n, true, "result"); }, unchanged};
        break;
    case 6:
        s = {"saving", [&](World& w) { w.r.reset(new Reader(open_it(true))); }, [&](World& w) { w.r->write_to("/sim/out.fits"); }, [&](World&) { require_same(check_saved_file("/sim/out.fits", f), "result"); }, unchanged};
        break;
    case 7:
        s = {"copying", [&](World& w) { w.r.reset(new Reader(open_it(true))); }, [&](World& w) { w.list.reset(new std::deque<Ext>(w.r->get_hdu_list())); },
            [&](World& w) { must("reading the copy", [&] { for (size_t i = 0; i < f.hdus.size(); i++) require_same(check_hdu((*w.list)[i], f.hdus[i], WITH_DATA | META, salt), "result"); }); }, unchanged};
        break;
    case 8: // an HDU assigned over another one
        s = {"assigning an HDU", [&](World& w) { w.r.reset(new Reader(open_it(true))); w.other.reset(new Reader(io::fits::open("/sim/other.fits"))); }, [&](World& w) { (*w.other)[0] = (*w.r)[(int)eh]; },
            [&](World& w) { must("reading the copy", [&] { require_same(check_hdu((*w.other)[0], f.hdus[eh], WITH_DATA | META, salt), "result"); }); }, unchanged};
        break;
    case 9: {
        uint32_t k = W().draw(4);
        s = {"editing a card", [&](World& w) { w.card.reset(new Card()); w.card->create_card("OLDKEY", std::string("the old value"), "old comment"); w.text = w.card->raw_card(); },
            [&, k](World& w) {
                if (k == 0) w.card->create_card("NEWKEY", std::string("a new value that does not fit into a short string"), "new");
                else if (k == 1) w.card->create_card("NEWKEY", 12.5, "a comment that is long enough to need memory");
                else if (k == 2) w.card->set_value(std::string("another value that is long enough"));
                else w.card->create_commentary_card("HISTORY", "some text that is long enough to need memory of its own");
            },
            [&, k](World& w) { must("reading the card", [&] {
                if (k == 0) require(w.card->value<std::string>() == "a new value that does not fit into a short string" && w.card->keyword() == "NEWKEY", "result", "the card is not what was created");
                else if (k == 1) require(w.card->value<double>() == 12.5, "result", "the card is not what was created");
                else if (k == 2) require(w.card->value<std::string>() == "another value that is long enough", "result", "the card is not what was set");
                else require(w.card->value<std::string>() == "some text that is long enough to need memory of its own", "result", "the card is not what was created");
            }); },
            [&](World& w) { require(w.card->raw_card() == w.text, "object-after-failure", "the failed edit changed the card"); }};
        break;
    }
    case 10: {
        if (!have_target) return;
        s = {"replacing a table's data", [&](World& w) { w.r.reset(new Reader(open_it(true))); w.want = f; MHdu& m = w.want.hdus[eh]; for (size_t a = 0; a < m.cells.size(); a++) for (size_t b = 0; b < m.cols.size(); b++) { m.cells[a][b] = gen_cell(salt * 17 + 3, m.cols[b], m.kind == H_BINARY, a * 31 + b); m.edited[a][b] = 0; } m.rebuild_data(); w.text = m.data; },
            [&](World& w) { if (f.hdus[eh].kind == H_BINARY) io::fits::convert_to<io::binary_table>((*w.r)[(int)eh]).set_data(w.text); else io::fits::convert_to<io::ascii_table>((*w.r)[(int)eh]).set_data(w.text); },
            [&](World& w) { verify_reader(*w.r, w.want, true, "result"); }, unchanged};
        break;
    }
    case 11:
        s = {"pointing a reader at another file", [&](World& w) { w.r.reset(new Reader(io::fits::open("/sim/other.fits"))); }, [&](World& w) { w.r->initialize(PATH); if (full) w.r->read_entire_hdus(); else w.r->read_only_headers(); }, [&](World& w) { verify_reader(*w.r, f, full, "result"); }, [](World&) {}};
        break;
    }
    // something uninvolved
    std::unique_ptr<Reader> bystander;
    must("opening", [&] { bystander.reset(new Reader(io::fits::open("/sim/other.fits"))); });
    int fds = open_descriptors();
    uint64_t allocs = 0;
    for (int warm = 0; warm < 2; warm++) { // how many allocations the operation makes
        World w;
        must("preparing", [&] { s.prepare(w); });
        reset_counts();
        must(s.name, [&] { s.act(w); });
        allocs = self().alloc_count;
        s.verify(w);
        drop(w);
    }
    if (allocs == 0) return;
    uint32_t rounds = 1 + F().draw(10);
    uint64_t next = F().draw((uint32_t)allocs);
    bool sweep = F().chance(1, 2);
    for (uint32_t i = 0; i < rounds; i++) {
        uint64_t k = sweep ? (next + i) % allocs : F().draw((uint32_t)allocs);
        bool sticky = F().chance(1, 3);
        size_t leaked[2];
        int leaked_fd[2];
        int repeats = 1;
        for (int rep = 0; rep < repeats; rep++) {
            size_t live = live_lib_allocations();
            {
                World w;
                must("preparing", [&] { s.prepare(w); });
                disk_remove("/sim/out.fits");
                arm_alloc(k, sticky);
                Outcome o = attempt([&] { s.act(w); });
                bool fired = alloc_fired();
                disarm_alloc();
                op();
                log_event("%s: allocation %llu of %llu%s: %s", s.name, (unsigned long long)k, (unsigned long long)allocs, sticky ? " and later" : "", o.raised ? "raised" : "returned");
                if (o.raised) {
                    require(fired, "unexpected-exception", fmt("%s raised: %s", s.name, o.what.c_str()));
                    probe(s.name);
                    s.after_failure(w);
                } else { if (fired) probe("returned_in_spite"); s.verify(w); }
                // the same again, with memory
                must("repeating with memory available", [&] { s.act(w); });
                s.verify(w);
                drop(w);
            }
            leaked[rep] = live_lib_allocations() - live;
            leaked_fd[rep] = open_descriptors() - fds;
            if (rep == 0 && (leaked[0] || leaked_fd[0])) { repeats = 2; fds = open_descriptors(); } // only what happens every time counts
        }
        stats.checks++;
        if (repeats == 2) {
            if (leaked[1]) violate("memory-leak", fmt("%s: %zu allocations are never freed after allocation %llu failed", s.name, leaked[1], (unsigned long long)k));
            if (leaked_fd[1]) violate("descriptor-leak", fmt("%s: a file stays open after allocation %llu failed", s.name, (unsigned long long)k));
        }
    }
    must("reading the bystander", [&] { require_same(check_reader(*bystander, f2, WITH_DATA | META | TYPED), "bystander"); });
    Lib l;
    bystander.reset();
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C12", run); }

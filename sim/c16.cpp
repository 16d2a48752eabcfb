// C16: copies of HDUs and tables are independent values.
#include "handles.hpp"
#include <deque>
struct List { std::unique_ptr<std::deque<Ext>> l; std::vector<MHdu> m; std::vector<Slot> hs; int id = 0; };
static bool has_rows(const MHdu& m) { return (m.kind == H_BINARY || m.kind == H_ASCII) && !m.cells.empty() && !m.cols.empty(); }
static std::vector<size_t> columns(const MHdu& m) { std::vector<size_t> c; for (size_t i = 0; i < m.cols.size(); i++) if (editable(m, i)) c.push_back(i); return c; }
static void forget(List& x, size_t hdu) { for (size_t i = 0; i < x.hs.size();) if (x.hs[i].h->hdu == hdu) { Lib l; x.hs.erase(x.hs.begin() + i); } else i++; }
static int next_id;
static void check_list(List& x, const char* when, int what, unsigned salt) {
    must("reading", [&] {
        require(x.l->size() == x.m.size(), "hdu-count", fmt("list %d has %zu HDUs instead of %zu", x.id, x.l->size(), x.m.size()));
        for (size_t i = 0; i < x.m.size(); i++) { std::string e = check_hdu((*x.l)[i], x.m[i], what, salt + (unsigned)i); NotLib nl; require_same(e, "content", fmt("%s, list %d HDU %zu", when, x.id, i)); }
    });
    op();
}
static void run() {
    next_id = 0;
    GenOpt g;
    g.scale = 300;
    g.max_ext = 3;
    g.small = true;
    g.max_rows = 6;
    g.need_table = true;
    g.shared_names = W().chance(2, 3);
    if (g.shared_names && W().chance(1, 2)) g.favourite = 1 + W().draw(11);
    std::vector<List> pool;
    std::unique_ptr<Reader> readers[2];
    MFile files[2];
    uint32_t nf = 1 + W().draw(2);
    set_dirty((uint8_t)F().draw(256));
    for (uint32_t i = 0; i < nf; i++) {
        files[i] = gen_file(W(), g);
        log_event("file %u: %s", i, files[i].describe().c_str());
        std::string p = fmt("/sim/in%u.fits", i);
        disk_put(p, files[i].bytes());
        must("opening", [&] { readers[i].reset(new Reader(io::fits::open(p))); });
        List x;
        x.id = next_id++;
        x.m = files[i].hdus;
        must("copying the HDU list", [&] { x.l.reset(new std::deque<Ext>(readers[i]->get_hdu_list())); });
        pool.push_back(std::move(x));
    }
    uint32_t steps = 4 + W().draw(20);
    for (uint32_t i = 0; i < steps && !pool.empty(); i++) {
        size_t at = W().draw((uint32_t)pool.size());
        List& x = pool[at];
        bool arm = F().chance(1, 5);
        uint64_t k = arm ? F().skewed(150) : 0;
        bool sticky = arm && F().chance(1, 3);
        auto doit = [&](const char* what, const std::function<void()>& fn) -> bool {
            if (arm) arm_alloc(k, sticky);
            Outcome o = attempt(fn);
            bool fired = alloc_fired();
            disarm_alloc();
            op();
            if (o.raised) { require(arm && fired, "unexpected-exception", fmt("%s raised: %s", what, o.what.c_str())); probe("failed_for_memory"); return false; }
            return true;
        };
        auto pick_hdu = [&](List& l) { return (size_t)W().draw((uint32_t)l.m.size()); };
        uint32_t what = W().draw(16);
        if (x.m.empty() && what != 0 && what != 9) continue;
        switch (what) {
        case 0: { // a copy of the whole list
            if (pool.size() > 5) break;
            List c;
            c.m = x.m;
            if (doit("copying an HDU list", [&] { c.l.reset(new std::deque<Ext>(*x.l)); })) { c.id = next_id++; log_event("list %d = copy of list %d", c.id, x.id); pool.push_back(std::move(c)); probe("list_copied"); }
            break;
        }
        case 1: { // a copy of one HDU put at the end of a list
            size_t h = pick_hdu(x), to = W().draw((uint32_t)pool.size());
            List& t = pool[to];
            if (t.m.size() > 6) break;
            log_event("list %d gets a copy of list %d HDU %zu", t.id, x.id, h);
            if (doit("copying an HDU", [&] { t.l->push_back((*x.l)[h]); })) { MHdu m = x.m[h]; t.m.push_back(m); probe("hdu_copied"); }
            break;
        }
        case 2: case 3: { // one HDU assigned over another
            size_t to = W().draw((uint32_t)pool.size());
            List& t = pool[to];
            if (t.m.empty()) break;
            size_t h = pick_hdu(x), d = pick_hdu(t);
            log_event("list %d HDU %zu := list %d HDU %zu", t.id, d, x.id, h);
            forget(t, d);
            if (doit("assigning an HDU", [&] { (*t.l)[d] = (*x.l)[h]; })) { MHdu m = x.m[h]; t.m[d] = m; probe(to == at && h == d ? "self_assigned" : "hdu_assigned"); }
            else { // the target is unspecified: replaced by nothing
                must("resetting", [&] { (*t.l)[d] = boost::blank(); });
                t.m[d] = MHdu(); t.m[d].kind = H_OTHER;
            }
            break;
        }
        case 4: { // tables assigned directly
            std::vector<std::pair<size_t, size_t>> same;
            size_t h = pick_hdu(x);
            for (size_t a = 0; a < pool.size(); a++) for (size_t b = 0; b < pool[a].m.size(); b++) if (pool[a].m[b].kind == x.m[h].kind && !(a == at && b == h)) same.push_back({a, b});
            if (same.empty() || x.m[h].kind == H_OTHER) break;
            auto q = W().pick(same);
            List& t = pool[q.first];
            log_event("table of list %d HDU %zu := table of list %d HDU %zu", t.id, q.second, x.id, h);
            forget(t, q.second);
            bool ok = doit("assigning", [&] {
                Ext &to = (*t.l)[q.second], &from = (*x.l)[h];
                if (x.m[h].kind == H_BINARY) io::fits::convert_to<io::binary_table>(to) = io::fits::convert_to<io::binary_table>(from);
                else if (x.m[h].kind == H_ASCII) io::fits::convert_to<io::ascii_table>(to) = io::fits::convert_to<io::ascii_table>(from);
                else io::fits::convert_to<io::primary_hdu>(to) = io::fits::convert_to<io::primary_hdu>(from);
            });
            if (ok) { MHdu m = x.m[h]; t.m[q.second] = m; probe("table_assigned"); }
            else { must("resetting", [&] { (*t.l)[q.second] = boost::blank(); }); t.m[q.second] = MHdu(); t.m[q.second].kind = H_OTHER; }
            break;
        }
        case 5: case 6: { // an edit through a handle
            if (x.hs.empty()) break;
            Slot& s = x.hs[W().draw((uint32_t)x.hs.size())];
            MHdu& m = x.m[s.h->hdu];
            size_t row = W().draw((uint32_t)m.cells.size());
            NewValue v = slot_value(W(), s, m);
            log_event("list %d HDU %zu row %zu col %zu edited through %s", x.id, s.h->hdu, row, s.h->col, s.h->how.c_str());
            bool it = W().chance(1, 4);
            if (doit("editing through a handle", [&] { if (it) s.h->write_iter(row, v); else s.h->write(row, v); })) model_set(m, row, s.h->col, v);
            probe("handle_edit");
            break;
        }
        case 7: { // a plain edit
            size_t h = pick_hdu(x);
            MHdu& m = x.m[h];
            if (!has_rows(m)) break;
            auto cs = columns(m);
            if (cs.empty()) break;
            size_t c = W().pick(cs), row = W().draw((uint32_t)m.cells.size());
            NewValue v = draw_value(W(), m, c);
            bool alt = W().chance(1, 2), raw = W().chance(1, 4);
            log_event("list %d HDU %zu row %zu col %zu edited%s", x.id, h, row, c, raw ? " raw" : "");
            if (doit("editing a cell", [&] {
                Ext& e = (*x.l)[h];
                if (!raw) lib_set(e, m, row, c, v, alt);
                else if (m.kind == H_BINARY) io::fits::convert_to<io::binary_table>(e).get_data()[row][c] = v.cell;
                else io::fits::convert_to<io::ascii_table>(e).get_data()[row][c] = v.cell;
            })) model_set(m, row, c, v);
            probe("edit");
            break;
        }
        case 8: { // data replaced
            size_t h = pick_hdu(x);
            MHdu n = x.m[h];
            if (!has_rows(n)) break;
            for (size_t a = 0; a < n.cells.size(); a++) for (size_t b = 0; b < n.cols.size(); b++) { n.cells[a][b] = gen_cell(W().draw(1 << 10), n.cols[b], n.kind == H_BINARY, a * 31 + b); n.edited[a][b] = 0; }
            n.rebuild_data();
            if (n.data.empty()) break;
            std::string data = n.data;
            log_event("list %d HDU %zu: data replaced", x.id, h);
            if (doit("replacing the data", [&] { if (n.kind == H_BINARY) io::fits::convert_to<io::binary_table>((*x.l)[h]).set_data(data); else io::fits::convert_to<io::ascii_table>((*x.l)[h]).set_data(data); })) x.m[h] = n;
            probe("data_replaced");
            break;
        }
        case 9: { // a list destroyed
            if (pool.size() < 2) break;
            log_event("list %d destroyed", x.id);
            { Lib l; x.hs.clear(); x.l.reset(); }
            pool.erase(pool.begin() + at);
            probe("list_destroyed");
            break;
        }
        case 10: case 11: { // a handle
            size_t h = pick_hdu(x);
            if (!has_rows(x.m[h])) break;
            auto cs = columns(x.m[h]);
            if (cs.empty()) break;
            x.hs.push_back(make_slot(W(), (*x.l)[h], x.m[h], h, W().pick(cs)));
            break;
        }
        case 12: { // one HDU moved into another list; the source is only destroyed afterwards
            size_t to = W().draw((uint32_t)pool.size()), h = pick_hdu(x);
            List& t = pool[to];
            if (t.m.size() > 6) break;
            bool assign = W().chance(1, 2) && !t.m.empty();
            size_t d = assign ? pick_hdu(t) : t.m.size();
            if (assign && to == at && d == h) break;
            log_event("list %d HDU %zu moved to list %d HDU %zu", x.id, h, t.id, d);
            forget(x, h);
            if (assign) forget(t, d);
            arm = false;
            if (doit("moving an HDU", [&] { if (assign) (*t.l)[d] = std::move((*x.l)[h]); else t.l->push_back(std::move((*x.l)[h])); (*x.l)[h] = boost::blank(); })) {
                MHdu m = x.m[h];
                if (assign) t.m[d] = m; else t.m.push_back(m);
                x.m[h] = MHdu(); x.m[h].kind = H_OTHER;
                probe("hdu_moved");
            }
            break;
        }
        case 13: { // swapped
            size_t to = W().draw((uint32_t)pool.size()), h = pick_hdu(x);
            List& t = pool[to];
            if (t.m.empty()) break;
            size_t d = pick_hdu(t);
            if (to == at && d == h) break;
            log_event("list %d HDU %zu and list %d HDU %zu swapped", x.id, h, t.id, d);
            forget(x, h);
            forget(t, d);
            arm = false;
            if (doit("swapping HDUs", [&] { std::swap((*x.l)[h], (*t.l)[d]); })) std::swap(x.m[h], t.m[d]);
            probe("hdus_swapped");
            break;
        }
        case 14: { // saved
            MFile f;
            f.hdus = x.m;
            bool first = true, conforming = true; // one primary HDU, at the start
            for (auto& m : x.m) if (m.kind != H_OTHER) { if ((m.kind == H_PRIMARY) != first) conforming = false; first = false; }
            if (!conforming || first) break;
            log_event("list %d saved", x.id);
            if (doit("saving a list", [&] {
                io::fits_stream out;
                if (!out.create_file("/sim/out.fits")) throw std::runtime_error("create");
                Manager::writer_visitor<io::fits_stream> v(out);
                for (auto& e : *x.l) boost::apply_visitor(v, e);
                if (!out.close()) throw std::runtime_error("close");
            })) require_same(check_saved_file("/sim/out.fits", f), "saved-list");
            probe("saved");
            break;
        }
        case 15: { // the whole list assigned
            size_t to = W().draw((uint32_t)pool.size());
            List& t = pool[to];
            log_event("list %d := list %d", t.id, x.id);
            { Lib l; t.hs.clear(); }
            if (doit("assigning a list", [&] { *t.l = *x.l; })) { if (to != at) t.m = x.m; probe("list_assigned"); }
            else { must("clearing", [&] { t.l->clear(); }); t.m.clear(); }
            break;
        }
        }
        // every list still holds its own content
        for (auto& y : pool) {
            check_list(y, "after a step", WITH_DATA, i);
            for (auto& s : y.hs) { MHdu& m = y.m[s.h->hdu]; require(s.h->rows() == m.cells.size(), "row-count", "a handle shows another number of rows"); check_slot(s, m, i % m.cells.size(), false); }
        }
    }
    for (auto& y : pool) check_list(y, "at the end", WITH_DATA | META | TYPED, 1);
    for (uint32_t i = 0; i < nf; i++) must("reading the opened files", [&] { require_same(check_reader(*readers[i], files[i], WITH_DATA | META | TYPED), "opened-file"); });
    // what the reader handed out stays as it is when the reader is pointed elsewhere
    if (W().chance(1, 2)) {
        uint32_t i = W().draw(nf);
        std::string e;
        bool same = false;
        must("keeping what a reader handed out", [&] {
            const auto& list = readers[i]->get_hdu_list();
            const auto& info = readers[i]->get_control_block_info();
            disk_put("/sim/empty.fits", "");
            readers[i]->initialize("/sim/empty.fits");
            readers[i]->read_entire_hdus();
            if (list.size() != files[i].hdus.size()) e = "another number of HDUs";
            for (size_t h = 0; h < list.size() && e.empty(); h++) { Ext x(list[h]); e = check_hdu(x, files[i].hdus[h], WITH_DATA, (unsigned)h); }
            same = info.hdus_info.size() > 0;
        });
        require(e.empty() && same, "handed-out-list", "the list a reader handed out changed when the reader was pointed elsewhere: " + e);
        probe("handed_out_list_kept");
    }
    Lib l;
    for (auto& y : pool) y.hs.clear();
    pool.clear();
    for (auto& r : readers) r.reset();
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C16", run); }

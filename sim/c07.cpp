// C07: column edits are seen by every reader of the table and survive saving.
#include "handles.hpp"
static void run() {
    GenOpt g;
    g.scale = 150;
    g.max_ext = 3;
    g.small = true;
    g.need_table = true;
    g.other = false;
    if (W().draw(1000) == 999) { g.scale = 0; g.many_rows = g.tall = true; g.max_ext = 1; }
    MFile f = gen_file(W(), g);
    log_event("file: %s", f.describe().c_str());
    disk_put("/sim/in.fits", f.bytes());
    std::unique_ptr<Reader> r;
    must("opening", [&] { r.reset(new Reader(io::fits::open("/sim/in.fits"))); });
    std::vector<Slot> hs;
    auto want = [&](const Slot& s, size_t row) { return handle_want(s, f.hdus[s.h->hdu], row); };
    auto check_handle = [&](const Slot& s, size_t row, bool iter) { check_slot(s, f.hdus[s.h->hdu], row, iter); };
    auto new_handle = [&]() {
        size_t h, row, c;
        if (!draw_target(W(), f, h, row, c)) return;
        hs.push_back(make_slot(W(), (*r)[(int)h], f.hdus[h], h, c));
    };
    auto check_all = [&](const char* when) {
        must("reading everything", [&] { require_same(check_reader(*r, f, WITH_DATA), "other-cells", when); });
        for (auto& s : hs) for (size_t row = 0; row < f.hdus[s.h->hdu].cells.size() && row < 4; row++) check_handle(s, row, false);
    };
    new_handle();
    if (hs.empty()) return;
    uint32_t steps = 3 + W().draw(20);
    for (uint32_t i = 0; i < steps; i++) {
        uint32_t k = W().draw(12);
        if (k == 1) { new_handle(); continue; }
        Slot& s = hs[W().draw((uint32_t)hs.size())];
        MHdu& m = f.hdus[s.h->hdu];
        size_t row = draw_row(W(), m.cells.size()), col = s.h->col;
        NewValue v = slot_value(W(), s, m);
        bool oom = false;
        auto edit = [&](const char* what, const std::function<void()>& fn, bool can_fail) -> bool {
            bool arm = can_fail && F().chance(1, 3);
            if (arm) arm_alloc(F().draw(12), F().chance(1, 3));
            Outcome o = attempt(fn);
            oom = arm && alloc_fired();
            disarm_alloc();
            op();
            if (o.raised) {
                require(oom, "unexpected-exception", fmt("%s raised: %s", what, o.what.c_str()));
                probe("edit_failed");
                check_all("after a failed edit");
                return false;
            }
            return true;
        };
        switch (k) {
        case 0: case 2: case 3:
            log_event("write hdu %zu row %zu col %zu", s.h->hdu, row, col);
            if (edit("a column edit", [&] { s.h->write(row, v); }, true)) model_set(m, row, col, v);
            probe("write_by_index");
            break;
        case 4:
            log_event("write by iterator hdu %zu row %zu col %zu", s.h->hdu, row, col);
            if (edit("an edit by iterator", [&] { s.h->write_iter(row, v); }, true)) model_set(m, row, col, v);
            probe("write_by_iterator");
            break;
        case 5: {
            std::string seen;
            size_t from = draw_row(W(), m.cells.size());
            if (m.kind == H_ASCII && s.atype != A_STRING && s.atype != A_LL) break; // the text of a float is formatted anew, with 6 digits
            log_event("cell to cell hdu %zu col %zu: %zu <- %zu", s.h->hdu, col, row, from);
            if (edit("a cell-to-cell assignment", [&] { seen = s.h->copy_cell(row, from); }, true)) { std::string c = m.cells[from][col]; char e = m.edited[from][col]; if (m.kind == H_ASCII && s.atype != A_STRING) e = 1; if (m.kind == H_BINARY) c = canon_cell(m.cols[col].type, c); m.cells[row][col] = c; m.edited[row][col] = e; if (m.kind == H_BINARY) require(seen == want(s, row), "held-field-shows-other-value", "a field assigned from another field shows another value"); }
            probe("cell_to_cell");
            break;
        }
        case 6: {
            std::string seen;
            log_event("held proxy hdu %zu row %zu col %zu", s.h->hdu, row, col);
            if (edit("an edit through a held field", [&] { seen = s.h->held(row, v); }, false)) {
                model_set(m, row, col, v);
                if (m.kind == H_BINARY) require(seen == want(s, row), "held-field-shows-other-value", "a field assigned through its proxy shows another value");
            }
            probe("held_proxy");
            break;
        }
        case 7:
            log_event("raw write hdu %zu row %zu col %zu", s.h->hdu, row, col);
            must("raw cell write", [&] { if (m.kind == H_BINARY) io::fits::convert_to<io::binary_table>((*r)[(int)s.h->hdu]).get_data()[row][col] = v.cell; else io::fits::convert_to<io::ascii_table>((*r)[(int)s.h->hdu]).get_data()[row][col] = v.cell; });
            model_set(m, row, col, v);
            probe("raw_write");
            break;
        case 8: { // the whole data replaced
            MHdu n = m;
            bool big = n.cells.size() * n.cols.size() > 400;
            uint32_t seed = big ? W().draw(1 << 12) : 0;
            for (size_t a = 0; a < n.cells.size(); a++) for (size_t b = 0; b < n.cols.size(); b++) {
                n.cells[a][b] = gen_cell(big ? seed : W().draw(1 << 12), n.cols[b], n.kind == H_BINARY, a * 31 + b);
                n.edited[a][b] = 0;
            }
            n.rebuild_data();
            std::string data = n.data;
            log_event("set_data hdu %zu", s.h->hdu);
            if (edit("replacing the data", [&] { if (n.kind == H_BINARY) io::fits::convert_to<io::binary_table>((*r)[(int)s.h->hdu]).set_data(data); else io::fits::convert_to<io::ascii_table>((*r)[(int)s.h->hdu]).set_data(data); }, true)) { size_t hp = m.header_pos, dp = m.data_pos; m = n; m.header_pos = hp; m.data_pos = dp; }
            probe("set_data");
            break;
        }
        case 9: { Slot c = s; c.h = s.h->copy(); hs.push_back(c); probe("handle_copied"); break; }
        case 10: { // saved and re-opened
            if (W().chance(1, 3)) draw_chunking();
            must("saving", [&] { r->write_to("/sim/out.fits"); });
            clear_chunking();
            require_same(check_saved_file("/sim/out.fits", f), "saved-edits");
            MFile sf = saved_form(f);
            must("re-opening", [&] { Reader q = io::fits::open("/sim/out.fits"); require_same(check_reader(q, sf, WITH_DATA), "reopened-edits"); });
            probe("saved_and_reopened");
            break;
        }
        case 11: check_all("between edits"); break;
        }
        // seen by every handle on that cell, and the neighbours unchanged
        for (auto& o : hs) if (o.h->hdu == hs[0].h->hdu || W().chance(1, 2)) {
            MHdu& om = f.hdus[o.h->hdu];
            require(o.h->rows() == om.cells.size(), "row-count", "a handle shows another number of rows");
            if (!om.cells.empty()) check_handle(o, row % om.cells.size(), W().chance(1, 4));
        }
    }
    check_all("at the end");
    must("saving", [&] { r->write_to("/sim/out.fits"); });
    require_same(check_saved_file("/sim/out.fits", f), "saved-edits");
    hs.clear();
    Lib l;
    r.reset();
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C07", run); }

// C15: table column metadata mirrors the header.
#include "handles.hpp"
struct Item { std::unique_ptr<Ext> own; Ext* e; MHdu m; bool data; }; // one live table (owned copy or HDU of the reader)
static bool is_table(const MHdu& m) { return m.kind == H_BINARY || m.kind == H_ASCII; }
template <class Fn> static void on_table(Ext& e, const MHdu& m, Fn fn) { if (m.kind == H_BINARY) fn(io::fits::convert_to<io::binary_table>(e)); else fn(io::fits::convert_to<io::ascii_table>(e)); }
struct CheckMeta { const MHdu& m; std::string err; template <class T> void operator()(T& t) { err = check_metadata(t, m); } };
static void check_item(Item& x, const char* when) {
    must("asking for column metadata", [&] { std::string e; if (x.m.kind == H_BINARY) e = check_metadata(io::fits::convert_to<io::binary_table>(*x.e), x.m); else e = check_metadata(io::fits::convert_to<io::ascii_table>(*x.e), x.m); require_same(e, "metadata", when); });
    op();
}
// A name that no column of the table has.
static std::string absent_name(const MHdu& m) {
    std::vector<std::string> names;
    for (auto& c : m.cols) if (c.named) names.push_back(c.name);
    for (int i = 0; i < 8; i++) {
        std::string n;
        switch (W().draw(7)) {
        case 0: n = "NO_SUCH_COLUMN"; break;
        case 1: if (!names.empty()) { n = W().pick(names); if (!n.empty()) n.pop_back(); } break;
        case 2: if (!names.empty()) n = W().pick(names) + "X"; break;
        case 3: n = "TFORM1"; break;
        case 4: n = "TTYPE1"; break;
        case 5: n = "1"; break;
        case 6: n = "QZX"; break;
        }
        if (n.empty()) continue; // columns without a name
        bool there = false;
        for (auto& k : names) if (k == n) there = true;
        if (!there) return n;
    }
    return "NO SUCH COLUMN AT ALL";
}
static void run() {
    set_dirty((uint8_t)F().draw(256));
    GenOpt g;
    g.scale = 80;
    g.max_ext = 3;
    g.small = W().chance(3, 4);
    g.need_table = true;
    g.max_rows = 12;
    MFile f = gen_file(W(), g);
    log_event("file: %s", f.describe().c_str());
    disk_put("/sim/in.fits", f.bytes());
    bool full = !W().chance(1, 3);
    if (F().chance(1, 3)) draw_chunking();
    std::unique_ptr<Reader> r;
    must("opening", [&] { r.reset(new Reader(io::fits::open("/sim/in.fits", full ? io::reading_options::read_entire_hdus : io::reading_options::read_only_headers))); });
    clear_chunking();
    std::vector<Item> live;
    for (size_t i = 0; i < f.hdus.size(); i++) if (is_table(f.hdus[i])) live.push_back(Item{nullptr, &(*r)[(int)i], f.hdus[i], full});
    if (live.empty()) return;
    for (auto& x : live) check_item(x, "after opening");
    std::vector<Slot> hs; // handles carry metadata of their own
    uint32_t steps = W().draw(12);
    for (uint32_t i = 0; i < steps; i++) {
        size_t at = W().draw((uint32_t)live.size());
        Item& x = live[at];
        bool arm = F().chance(1, 3);
        uint64_t k = arm ? F().skewed(200) : 0;
        bool sticky = arm && F().chance(1, 3);
        auto doit = [&](const char* what, const std::function<void()>& fn) -> bool {
            if (arm) arm_alloc(k, sticky);
            Outcome o = attempt(fn);
            bool fired = alloc_fired();
            disarm_alloc();
            op();
            if (o.raised) { require(arm && fired, "unexpected-exception", fmt("%s raised: %s", what, o.what.c_str())); probe("failed_for_memory"); return false; }
            return true;
        };
        uint32_t what = W().draw(9);
        switch (what) {
        case 0: { // a copy
            log_event("copy table %zu", at);
            std::unique_ptr<Ext> c;
            if (doit("copying a table", [&] { c.reset(new Ext(*x.e)); })) { Ext* p = c.get(); bool d = x.data; MHdu m = x.m; live.push_back(Item{std::move(c), p, m, d}); probe("copied"); }
            break;
        }
        case 1: { // built anew from its header
            log_event("table %zu built anew from header", at);
            std::unique_ptr<Ext> c;
            MHdu m = x.m;
            m.rebuild_data();
            for (auto& row : m.edited) for (auto& e : row) e = 0;
            bool with = W().chance(1, 2) && !m.data.empty();
            std::string data = m.data;
            if (doit("building a table from its header", [&] {
                on_table(*x.e, x.m, [&](auto& t) { Header h = t.get_header(); typename std::remove_reference<decltype(t)>::type n(h, with ? data : std::string()); c.reset(new Ext(n)); });
            })) { Ext* p = c.get(); live.push_back(Item{std::move(c), p, m, with}); probe("built_anew"); }
            break;
        }
        case 2: { // assigned over another
            size_t to = W().draw((uint32_t)live.size());
            if (!live[to].own) break;
            log_event("assign table %zu to %zu", at, to);
            Ext* e = live[to].e;
            if (doit("assigning a table", [&] { *e = *x.e; })) { live[to].m = x.m; live[to].data = x.data; probe("assigned"); }
            else { Lib l; live.erase(live.begin() + to); } // its content is unspecified now
            break;
        }
        case 3: { // data replaced
            MHdu n = x.m;
            bool big = n.cells.size() * n.cols.size() > 400;
            uint32_t seed = big ? W().draw(1 << 10) : 0;
            for (size_t a = 0; a < n.cells.size(); a++) for (size_t b = 0; b < n.cols.size(); b++) { n.cells[a][b] = gen_cell(big ? seed : W().draw(1 << 10), n.cols[b], n.kind == H_BINARY, a * 31 + b); n.edited[a][b] = 0; }
            n.rebuild_data();
            if (n.data.empty()) break;
            std::string data = n.data;
            log_event("replace data of table %zu", at);
            if (doit("replacing the data", [&] { on_table(*x.e, x.m, [&](auto& t) { t.set_data(data); }); })) { x.m = n; x.data = true; probe("data_replaced"); }
            break;
        }
        case 4: { // data that does not fit
            std::string data = x.m.data;
            size_t row_bytes = x.m.naxis[0] * x.m.naxis[1];
            if (row_bytes < 2) break;
            data.resize(1 + W().draw((uint32_t)row_bytes - 1));
            log_event("replace data of table %zu by %zu bytes", at, data.size());
            count_fault(F_REJECTED_EDIT);
            Outcome o = attempt([&] { on_table(*x.e, x.m, [&](auto& t) { t.set_data(data); }); });
            op();
            require(o.raised, "short-data-accepted", "data shorter than the header declares was accepted");
            probe("data_rejected");
            break;
        }
        case 5: { // a column that is not there
            std::string n = absent_name(x.m);
            uint32_t by = W().draw(3);
            log_event("ask table %zu for column \"%s\"", at, n.c_str());
            count_fault(F_REJECTED_EDIT);
            Outcome o = attempt([&] {
                if (by == 0) on_table(*x.e, x.m, [&](auto& t) { t.get_column_metadata(n); });
                else if (x.m.kind == H_BINARY) { auto& t = io::fits::convert_to<io::binary_table>(*x.e); if (by == 1) t.get_column<boost::int32_t>(n); else t.make_column_view<boost::int32_t, io::binary_data_converter>(n); }
                else { auto& t = io::fits::convert_to<io::ascii_table>(*x.e); if (by == 1) t.get_column<double>(n); else t.make_column_view<double, io::ascii_converter>(n); }
            });
            op();
            require(o.raised, "absent-column-found", fmt("column \"%s\" does not exist but was found", n.c_str()));
            probe("absent_column");
            break;
        }
        case 6: { // destroyed
            if (!x.own) break;
            log_event("destroy table %zu", at);
            { Lib l; x.own.reset(); }
            live.erase(live.begin() + at);
            break;
        }
        case 7: { // metadata asked while memory is short
            std::vector<std::string> names;
            for (auto& c : x.m.cols) if (c.named) names.push_back(c.name);
            if (names.empty()) break;
            std::string n = W().pick(names);
            doit("asking for metadata", [&] { on_table(*x.e, x.m, [&](auto& t) { io::column c = t.get_column_metadata(n); if (c.TTYPE() != n) violate("metadata", "another column's metadata"); }); });
            break;
        }
        case 8: { // what a column handle says of its column
            std::vector<size_t> cs;
            for (size_t c = 0; c < x.m.cols.size(); c++) if (editable(x.m, c)) cs.push_back(c);
            if (cs.empty()) break;
            size_t c = W().pick(cs);
            if (W().chance(1, 2) && x.data && !x.m.cells.empty()) { // an edit changes no metadata
                NewValue v = draw_value(W(), x.m, c);
                size_t row = W().draw((uint32_t)x.m.cells.size());
                log_event("edit table %zu row %zu col %zu", at, row, c);
                if (doit("editing a cell", [&] { lib_set(*x.e, x.m, row, c, v, false); })) model_set(x.m, row, c, v);
                probe("edited");
            }
            Slot s = make_slot(W(), *x.e, x.m, 0, c);
            require(s.h->number() == (int)c + 1, "metadata", fmt("a handle on column %zu says it is column %d", c + 1, s.h->number()));
            break;
        }
        }
        for (auto& y : live) check_item(y, "after a step");
        if (live.empty()) return;
    }
    for (auto& x : live) must("reading the table", [&] { require_same(check_hdu(*x.e, x.m, META | (x.data ? WITH_DATA : 0)), "table"); });
    Lib l;
    live.clear();
    r.reset();
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C15", run); }

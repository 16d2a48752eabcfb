// C01: opening a file returns exactly what it holds, however the storage delivers the bytes.
#include "lib.hpp"
static void run() {
    GenOpt g;
    g.scale = 60;
    MFile f = gen_file(W(), g);
    log_event("file: %s", f.describe().c_str());
    disk_put("/sim/in.fits", f.bytes());
    set_budget(60 * f.bytes().size() + 4000, 0, 0);
    draw_chunking();
    op();
    unsigned salt = W().draw(64);
    Outcome o = attempt([&] {
        Reader r = io::fits::open("/sim/in.fits", io::reading_options::read_entire_hdus);
        NotLib nl;
        op();
        must("reading the opened file", [&] { require_same(check_reader(r, f, WITH_DATA | TYPED, salt), "wrong-content"); });
    });
    if (o.raised) violate("unexpected-exception", "opening a conforming file raised: " + o.what);
    for (auto& h : f.hdus) {
        probe(h.kind == H_PRIMARY ? "primary" : h.kind == H_ASCII ? "ascii_table" : h.kind == H_BINARY ? "binary_table" : "unsupported_extension");
        if (h.header_text().size() % 2880 == 0) probe("header_ends_on_record");
        if (!h.data.empty() && h.data.size() % 2880 == 0) probe("data_ends_on_record");
        if (!h.heap.empty()) probe("heap");
        if (h.kind == H_PRIMARY && !h.data.empty()) probe(fmt("image_bitpix_%d", h.bitpix).c_str());
        for (auto& c : h.cols) probe(fmt("column_%s_%c", h.kind == H_ASCII ? "ascii" : "binary", c.type).c_str());
    }
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C01", run); }

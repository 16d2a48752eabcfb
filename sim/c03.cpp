// C03: a save that returns leaves a complete, equal, well-formed file.
#include "edit.hpp"
static void image_extension_case() { // image extensions are read and saved as HDUs of their own
    GenOpt g;
    MHdu m = gen_other(W(), g, 0);
    if (m.gcount != 1 || m.pcount != 0) return;
    MFile f;
    f.hdus.push_back(m);
    f.layout();
    log_event("image extension: %s", m.describe().c_str());
    disk_put("/sim/ext", f.bytes());
    draw_chunking();
    if (m.bitpix == -32) quiet_nans(f.hdus[0].data, 4);
    if (m.bitpix == -64) quiet_nans(f.hdus[0].data, 8);
    disk_put("/sim/ext", f.bytes());
    must("reading and saving an image extension", [&] {
        op();
        io::fits_stream in;
        in.set_file("/sim/ext");
        Header h;
        h.read_header(in);
        in.set_unit_end();
        io::image_extension x(h, in.read(m.data.size()));
        MHdu p = f.hdus[0];
        p.kind = H_PRIMARY;
        std::string e;
        switch (m.bitpix) {
        case 8: e = check_pixels(x.get_data<io::bitpix::B8>(), p); break;
        case 16: e = check_pixels(x.get_data<io::bitpix::B16>(), p); break;
        case 32: e = check_pixels(x.get_data<io::bitpix::B32>(), p); break;
        case -32: e = check_pixels(x.get_data<io::bitpix::_B32>(), p); break;
        default: e = check_pixels(x.get_data<io::bitpix::_B64>(), p);
        }
        require_same(e, "image-extension-content");
        io::fits_stream out;
        require(out.create_file("/sim/ext2"), "unexpected-failure", "create_file failed");
        x.write_to(out);
        op();
        require(out.close(), "unexpected-failure", "close failed");
        NotLib nl;
        require(disk_get("/sim/ext2") == f.bytes(), "image-extension-saved-bytes", "saved image extension differs");
        probe("image_extension");
    });
}
static void run() {
    if (W().draw(8) == 7) { image_extension_case(); return; }
    GenOpt g;
    g.scale = 80;
    g.max_ext = 4;
    MFile f = gen_file(W(), g);
    log_event("file: %s", f.describe().c_str());
    disk_put("/sim/in.fits", f.bytes());
    set_budget(400 * f.bytes().size() + 60000, 0, 0);
    std::unique_ptr<Reader> r;
    must("opening a conforming file", [&] { r.reset(new Reader(io::fits::open("/sim/in.fits"))); });
    uint32_t edits = W().skewed(12);
    for (uint32_t i = 0; i < edits; i++) if (random_edit(W(), *r, f)) probe("edit");
    uint32_t tk = W().draw(5);
    std::string target = "/sim/out.fits";
    if (tk == 1) disk_put(target, content(2 + 8 * W().draw(100), W().draw(80000)));
    if (tk == 2) { MFile o = gen_file(W(), g); disk_put(target, o.bytes() + o.bytes()); probe("overwrites_older_file"); }
    if (tk == 3) { target = "/sim/in.fits"; probe("saves_over_source"); }
    draw_chunking();
    must("saving", [&] { r->write_to(target); });
    op();
    require_same(check_saved_file(target, f), "saved-file");
    MFile s = saved_form(f);
    clear_chunking();
    must("re-opening the saved file", [&] {
        Reader again = io::fits::open(target);
        require_same(check_reader(again, s, WITH_DATA | META, 3), "re-opened-file");
        op();
        again.write_to("/sim/third.fits");
    });
    require(disk_get("/sim/third.fits") == disk_get(target), "re-saved-bytes", "saving the re-opened file gives other bytes");
    // the reader that saved still holds the same
    must("reading after the save", [&] { require_same(check_reader(*r, f, WITH_DATA), "memory-after-save"); });
    if (W().chance(1, 3)) { // save again after more edits
        if (random_edit(W(), *r, f)) {
            must("saving again", [&] { r->write_to(target); });
            require_same(check_saved_file(target, f), "saved-file");
            probe("second_save");
        }
    }
    Lib l;
    r.reset();
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C03", run); }

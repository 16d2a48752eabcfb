// C02: header-only opening agrees with full opening; published positions are those of the file.
#include "lib.hpp"
static std::string check_block(Reader& r, const MFile& f, const std::string& path) {
    io::control_block b = r.get_control_block_info();
    if (b.filepath != path) return "published path is " + b.filepath;
    if (b.total_hdus() != f.hdus.size()) { NotLib n; return fmt("total_hdus() is %zu instead of %zu", b.total_hdus(), f.hdus.size()); }
    std::map<std::string, size_t> last;
    for (size_t i = 0; i < f.hdus.size(); i++) last[f.hdus[i].name] = i;
    if (b.hdus_info.size() != last.size()) return "number of published names is wrong";
    for (auto& p : last) {
        auto it = b.hdus_info.find(p.first);
        if (it == b.hdus_info.end()) return "no entry for " + p.first;
        const MHdu& m = f.hdus[p.second];
        if (it->second.hdu_index != p.second) { NotLib n; return fmt("%s: index %zu instead of %zu", p.first.c_str(), it->second.hdu_index, p.second); }
        if (it->second.header_location != m.header_pos) { NotLib n; return fmt("%s: header at %zu instead of %zu", p.first.c_str(), it->second.header_location, m.header_pos); }
        if (it->second.data_location != m.data_pos) { NotLib n; return fmt("%s: data at %zu instead of %zu", p.first.c_str(), it->second.data_location, m.data_pos); }
        if (&r[p.first] != &r[(int)p.second]) return "lookup by name gives another HDU: " + p.first;
    }
    return "";
}
static bool same_header(Ext& a, Ext& b) {
    if (a.which() != b.which()) return false;
    switch (a.which()) {
    case 1: { auto x = boost::get<io::primary_hdu>(a).get_header(); auto y = boost::get<io::primary_hdu>(b).get_header(); return x == y; }
    case 2: { auto x = boost::get<io::binary_table>(a).get_header(); auto y = boost::get<io::binary_table>(b).get_header(); return x == y; }
    case 3: { auto x = boost::get<io::ascii_table>(a).get_header(); auto y = boost::get<io::ascii_table>(b).get_header(); return x == y; }
    }
    return true;
}
static void run() {
    GenOpt g;
    g.scale = 60;
    g.max_ext = 5;
    MFile f = gen_file(W(), g);
    log_event("file: %s", f.describe().c_str());
    const std::string path = "/sim/in.fits";
    disk_put(path, f.bytes());
    set_budget(120 * f.bytes().size() + 8000, 0, 0);
    unsigned salt = W().draw(64);
    bool full_first = W().chance(1, 2);
    must("opening a conforming file in both modes", [&] {
        std::unique_ptr<Reader> full, heads;
        for (int i = 0; i < 2; i++) {
            NotLib nl;
            draw_chunking();
            op();
            Lib l;
            if ((i == 0) == full_first) full.reset(new Reader(io::fits::open(path)));
            else heads.reset(new Reader(io::fits::open(path, io::reading_options::read_only_headers)));
        }
        require_same(check_reader(*heads, f, META | NO_DATA, salt), "header-only-content");
        require_same(check_block(*heads, f, path), "header-only-positions");
        require_same(check_reader(*full, f, META | WITH_DATA, salt), "full-content");
        require_same(check_block(*full, f, path), "full-positions");
        for (size_t i = 0; i < f.hdus.size(); i++) require(same_header((*heads)[(int)i], (*full)[(int)i]), "headers-differ", fmt("header of HDU %zu differs between the modes", i));
    });
    for (auto& h : f.hdus) {
        if (!h.data.empty() && h.data.size() % 2880 == 0) probe("data_ends_on_record");
        if (!h.heap.empty()) probe("heap");
        if (h.gcount > 1) probe("groups");
        if (h.data.size() > 8192) probe("data_beyond_buffer");
    }
    if (f.hdus.size() > 3) probe("many_hdus");
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C02", run); }

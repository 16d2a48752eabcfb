// C04: a save that cannot complete is reported, and can be retried.
#include "edit.hpp"
static void undescribable(Reader& r, MFile& f) {
    size_t h, row, c;
    if (!draw_target(W(), f, h, row, c)) return;
    MHdu& m = f.hdus[h];
    uint32_t k = W().draw(5);
    log_event("undescribable content %u in hdu %zu row %zu col %zu", k, h, row, c);
    auto& data = m.kind == H_BINARY ? io::fits::convert_to<io::binary_table>(r[(int)h]).get_data() : io::fits::convert_to<io::ascii_table>(r[(int)h]).get_data();
    auto keep = data;
    if (k == 0) data[row][c] = std::string(m.cols[c].width + 1 + W().draw(40), 'x');
    else if (k == 1 && m.kind == H_BINARY) data[row][c].pop_back();
    else if (k == 2) data.pop_back();
    else if (k == 4) { // one cell longer, another as much shorter: the sum is right
        size_t row2 = W().draw((uint32_t)data.size()), c2 = W().draw((uint32_t)m.cols.size());
        if ((row2 == row && c2 == c) || m.cols[c2].width == 0) return;
        std::string& other = data[row2][c2];
        size_t by = m.kind == H_BINARY ? 1 + W().draw((uint32_t)other.size()) : 1 + W().draw(5);
        if (m.kind == H_BINARY) { data[row][c] += other.substr(other.size() - by); other.resize(other.size() - by); }
        else { data[row][c] = std::string(m.cols[c].width + by, 'y'); if (other.size() > by) other.resize(other.size() - by); }
        probe("shifted_cells");
    }
    else data[row].pop_back();
    if (k == 1 && m.kind == H_ASCII) return;
    count_fault(F_REJECTED_EDIT);
    Outcome o = attempt([&] { r.write_to("/sim/out.fits"); });
    op();
    require(o.raised, "save-of-undescribable-content-returned", fmt("kind %u: the save returned normally", k));
    data = keep;
    must("saving after the content was repaired", [&] { r.write_to("/sim/out.fits"); });
    require_same(check_saved_file("/sim/out.fits", f), "retried-save");
    probe("undescribable");
}
static void run() {
    GenOpt g;
    g.scale = 200;
    g.small = true;
    g.max_ext = 3;
    bool big = W().draw(4) == 3;
    if (big) { g.small = false; }
    MFile f = gen_file(W(), g);
    log_event("file: %s", f.describe().c_str());
    disk_put("/sim/in.fits", f.bytes());
    std::unique_ptr<Reader> r;
    if (W().draw(8) == 7) { // only headers in memory: what they declare is missing
        must("opening", [&] { r.reset(new Reader(io::fits::open("/sim/in.fits", io::reading_options::read_only_headers))); });
        bool lacks = false;
        for (auto& h : f.hdus) if (h.kind != H_OTHER && !h.data.empty()) lacks = true;
        Outcome o = attempt([&] { r->write_to("/sim/out.fits"); });
        op();
        require(o.raised == lacks, "save-without-data", lacks ? "the data is missing but the save returned" : "save raised: " + o.what);
        probe("header_only_save");
        return;
    }
    must("opening", [&] { r.reset(new Reader(io::fits::open("/sim/in.fits"))); });
    uint32_t edits = W().skewed(4);
    for (uint32_t i = 0; i < edits; i++) random_edit(W(), *r, f);
    if (W().draw(6) == 5) { undescribable(*r, f); return; }
    draw_chunking();
    Chunking ch = self().chunk;
    reset_counts();
    must("saving without faults", [&] { r->write_to("/sim/dry.fits"); });
    uint64_t calls = self().sys_count, allocs = self().alloc_count;
    size_t size = disk_get("/sim/dry.fits").size();
    require_same(check_saved_file("/sim/dry.fits", f), "fault-free-save");
    set_budget(200 * (calls + 50) + 50 * size, 0, 0);
    static const std::vector<FaultKind> kinds = {F_EIO_WRITE, F_ENOSPC, F_DISK_FULL_AT, F_TORN_WRITE, F_CLOSE_LOST, F_OPEN_EACCES, F_OPEN_EMFILE, F_OPEN_EIO, F_EIO_WRITE_STICKY, F_SEEK_EIO};
    uint32_t rounds = 1 + F().draw(6);
    bool old_target = W().chance(1, 2);
    for (uint32_t i = 0; i < rounds; i++) {
        FaultKind k = F().pick(kinds);
        uint64_t at = F().draw((uint32_t)calls + 1), arg = F().draw(1 << 16);
        if (k == F_DISK_FULL_AT) { at = 0; arg = F().chance(1, 3) ? size - 1 - F().draw(std::min<uint32_t>(3000, (uint32_t)size)) : F().draw((uint32_t)size); }
        if (F().chance(1, 4)) at = calls - std::min<uint64_t>(calls, F().draw(4)); // the last calls: final flush and close
        if (old_target) disk_put("/sim/out.fits", content(7, 5000)); else disk_remove("/sim/out.fits");
        self().chunk = ch;
        arm_sys(k, at, arg);
        bool memory = F().draw(4) == 3; // memory runs out as well
        if (memory) { uint32_t s = F().draw(3); arm_alloc(F().draw((uint32_t)allocs + 1), s == 2); }
        Outcome o = attempt([&] { r->write_to("/sim/out.fits"); });
        bool fired = sys_fired() || (memory && alloc_fired());
        disarm_sys();
        disarm_alloc();
        op();
        log_event("save %s, fault %s", o.raised ? "raised" : "returned", fired ? "hit" : "missed");
        if (!o.raised) require_same(check_saved_file("/sim/out.fits", f), "incomplete-save-returned", fmt("%s at call %llu", fault_name[k], (unsigned long long)at));
        else {
            require(fired, "unexpected-exception", "save raised without a fault: " + o.what);
            probe("save_failed");
            must("reading after the failed save", [&] { require_same(check_reader(*r, f, WITH_DATA), "memory-after-failed-save"); });
        }
        must("retrying the save", [&] { r->write_to("/sim/out.fits"); });
        require_same(check_saved_file("/sim/out.fits", f), "retried-save");
        require(open_descriptors() <= 1, "descriptor-leak", fmt("%d descriptors open", open_descriptors()));
    }
    Lib l;
    r.reset();
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C04", run); }

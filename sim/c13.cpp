// C13: the file stream behaves as a positioned byte file and admits failure.
#include "lib.hpp"
struct S1 { // one stream and its model
    std::unique_ptr<io::fits_stream> s;
    bool open = false, writable = false;
    bool failed = false;       // it has said so: nothing more is promised until it is re-opened
    bool suspect = false;      // a fault hit it: end-of-file answers are open
    bool dirty_dir = false;    // last access was a read: seek before writing (as for any C++ file stream)
    bool last_write = false;
    std::string path;
    std::string bytes;         // model content
    size_t pos = 0;
};
static std::string content_of(const std::string& p) { return disk_exists(p) ? disk_get(p) : std::string(); }
static void report(S1& x, bool fired, const char* what, const std::string& why) {
    require(fired || x.suspect, "unexpected-failure", fmt("%s failed without a fault: %s", what, why.c_str()));
    x.failed = true;
    probe("failure_reported");
}
static size_t draw_pos(const S1& x) {
    size_t n = x.bytes.size();
    switch (W().draw(6)) {
    case 0: return W().draw((uint32_t)n + 1);
    case 1: return n;
    case 2: return 0;
    case 3: return std::min<size_t>(n, (size_t)W().draw(6) * 2880);
    case 4: return std::min<size_t>(n, (size_t)W().draw(6) * 2880 + 1);
    default: return n + W().draw(4000);
    }
}
static size_t draw_len() { static const std::vector<uint32_t> ls = {1, 80, 2880, 0, 2, 79, 2879, 2881, 8191, 8192, 9000, 20000}; return W().chance(1, 3) ? W().draw(5000) : W().pick(ls); }
static void run() {
    size_t ns = 1 + W().draw(2);
    std::vector<S1> st(ns);
    std::map<std::string, std::string> files; // content of files no stream has open for writing
    for (int i = 0; i < 3; i++) { std::string p = fmt("/sim/f%d", i), b = content(2 + 8 * W().draw(60) + W().draw(3), W().draw(12) == 11 ? 1100000 + W().draw(2000000) : draw_len() * (1 + W().draw(3))); disk_put(p, b); files[p] = b; }
    for (auto& x : st) must("constructing a stream", [&] { x.s.reset(new io::fits_stream()); });
    draw_chunking();
    Chunking ch = self().chunk;
    size_t total = 0;
    for (auto& kv : files) total += kv.second.size();
    if (total > 100000) { self().chunk.max_read = self().chunk.max_write = 0; ch = self().chunk; }
    set_budget(0, 0, 0);
    uint32_t steps = 4 + W().draw(40);
    bool faults = F().chance(1, 2);
    static const std::vector<FaultKind> kinds = {F_EIO_READ, F_EIO_WRITE, F_SEEK_EIO, F_ENOSPC, F_DISK_FULL_AT, F_TORN_WRITE, F_CLOSE_LOST, F_OPEN_EACCES, F_OPEN_EMFILE, F_EIO_READ_STICKY, F_EIO_WRITE_STICKY};
    bool armed = false;
    for (uint32_t i = 0; i < steps; i++) {
        size_t xi = W().draw((uint32_t)ns);
        S1& x = st[xi];
        io::fits_stream& s = *x.s;
        if (faults && !armed && F().draw(6) == 5) { FaultKind k = F().pick(kinds); arm_sys(k, F().draw(6), k == F_DISK_FULL_AT ? F().draw(9000) : F().draw(5000)); armed = true; }
        uint32_t k = W().draw(13);
        bool before = sys_fired();
        auto fired = [&] { return sys_fired(); };
        op();
        if (!x.open || x.failed || k == 0) { // (re-)open
            if (x.open && x.failed) probe("re_opened_after_failure");
            if (x.open && !x.failed && x.writable) k = 12; // close properly first: only an explicit close reports
            else {
                if (x.failed || W().chance(1, 2)) { disarm_sys(); armed = false; }
                if (x.open && x.writable) { must("closing", [&] { s.close(); }); files[x.path] = content_of(x.path); }
                x.open = false;
                bool create = W().chance(1, 2);
                std::string path = fmt("/sim/f%u", W().draw(4));
                bool busy = false;
                for (auto& y : st) if (&y != &x && y.open && (y.path == path)) busy = true;
                if (busy) continue;
                bool exists = files.count(path) != 0, ok = false;
                Outcome o = attempt([&] { if (create) ok = s.create_file(path); else { s.set_file(path); ok = true; } });
                log_event("stream %zu: %s %s -> %s", xi, create ? "create" : "open", path.c_str(), o.raised ? "raised" : ok ? "ok" : "false");
                bool good = ok && !o.raised;
                if (!good) {
                    require(fired() || (!create && !exists), "unexpected-failure", fmt("%s of %s failed without a fault", create ? "creating" : "opening", path.c_str()));
                    bool is = false;
                    must("is_open", [&] { is = s.is_open(); });
                    require(!is, "is-open", "a stream that could not be opened says it is open");
                    disarm_sys(); armed = false;
                    if (disk_exists(path)) files[path] = disk_get(path);
                    continue;
                }
                require(create || exists, "missing-file-opened", "a file that does not exist was opened");
                x.open = true; x.writable = create; x.failed = x.suspect = false; x.path = path; x.pos = 0; x.last_write = x.dirty_dir = false;
                x.bytes = create ? "" : files[path];
                if (fired()) x.suspect = true;
                probe(create ? "created" : "opened");
                continue;
            }
        }
        switch (k) {
        case 1: case 2: { // read
            size_t n = draw_len();
            if (x.pos < x.bytes.size() && W().chance(2, 3)) n = std::min(n, x.bytes.size() - x.pos);
            if (W().draw(8) == 7 && x.bytes.size() > 1000000) n = x.bytes.size() - std::min(x.bytes.size(), x.pos);
            if (x.last_write) { must("seeking", [&] { s.set_reading_pos(x.pos); }); x.last_write = false; }
            std::string got;
            Outcome o = attempt([&] { got = s.read(n); });
            log_event("stream %zu: read %zu at %zu -> %s", xi, n, x.pos, o.raised ? "raised" : "ok");
            bool there = x.pos <= x.bytes.size() && n <= x.bytes.size() - x.pos;
            if (o.raised) { if (there) report(x, fired(), "a read", o.what); else { x.failed = true; probe("short_read_raised"); } }
            else {
                require(n == 0 || there, "invented-bytes", fmt("read of %zu bytes at %zu of %zu returned", n, x.pos, x.bytes.size()));
                require(got == (n ? x.bytes.substr(x.pos, n) : ""), "wrong-bytes", fmt("read of %zu bytes at %zu gives other bytes", n, x.pos));
                x.pos += n;
            }
            x.dirty_dir = true;
            break;
        }
        case 3: { // one byte
            if (x.last_write) { must("seeking", [&] { s.set_reading_pos(x.pos); }); x.last_write = false; }
            unsigned char c = 0;
            Outcome o = attempt([&] { c = s.get(); });
            log_event("stream %zu: get at %zu -> %s %d", xi, x.pos, o.raised ? "raised" : "ok", c);
            if (o.raised) report(x, fired(), "get", o.what);
            else if (x.pos < x.bytes.size()) { require(c == (unsigned char)x.bytes[x.pos], "wrong-bytes", fmt("get at %zu gives %d", x.pos, c)); x.pos++; }
            else if (!x.suspect) require(c == 0, "invented-bytes", fmt("get at the end gives %d", c));
            x.dirty_dir = true;
            break;
        }
        case 4: case 5: { // seek
            size_t p = draw_pos(x);
            must("seeking", [&] { s.set_reading_pos(p); });
            log_event("stream %zu: seek %zu", xi, p);
            x.pos = p;
            x.last_write = x.dirty_dir = false;
            break;
        }
        case 6: case 7: { // write, here or elsewhere
            bool at = k == 7;
            size_t p = at ? draw_pos(x) : x.pos;
            std::string d = content(2 + 8 * W().draw(60), draw_len());
            if (!at && x.dirty_dir) { must("seeking", [&] { s.set_reading_pos(x.pos); }); x.dirty_dir = false; }
            bool ok = false;
            Outcome o = attempt([&] { ok = at ? s.write(d, p) : s.write(d); });
            log_event("stream %zu: write %zu at %zu -> %s", xi, d.size(), p, o.raised ? "raised" : ok ? "ok" : "false");
            if (!x.writable) {
                if (!d.empty()) require(o.raised || !ok, "write-on-read-only-stream", "a write on a stream opened for reading is reported as done");
                x.failed = true;
                probe("write_refused");
                break;
            }
            if (o.raised || !ok) { report(x, fired(), "a write", o.what); break; }
            if (p > x.bytes.size() && !d.empty()) x.bytes.resize(p, '\0');
            if (!d.empty()) x.bytes.replace(p, std::min(d.size(), x.bytes.size() - p), d);
            x.pos = p + d.size();
            x.last_write = true; x.dirty_dir = false;
            break;
        }
        case 8: { // position and record end
            size_t p = 0, e = 0;
            Outcome o = attempt([&] { p = s.get_current_pos(); e = s.find_unit_end(); });
            if (o.raised) { report(x, fired(), "the position query", o.what); break; }
            require(p == x.pos, "wrong-position", fmt("the position is %zu instead of %zu", p, x.pos));
            require(e == up2880(x.pos), "wrong-record-end", fmt("the record end of %zu is %zu", x.pos, e));
            break;
        }
        case 9: { // to the record end
            Outcome o = attempt([&] { s.set_unit_end(); });
            log_event("stream %zu: record end", xi);
            if (o.raised) { report(x, fired(), "seeking the record end", o.what); break; }
            x.pos = up2880(x.pos);
            x.last_write = x.dirty_dir = false;
            break;
        }
        case 10: { // end of file?
            if (x.last_write) { must("seeking", [&] { s.set_reading_pos(x.pos); }); x.last_write = false; }
            bool e = false;
            must("at_end", [&] { e = s.at_end(); });
            if (fired()) x.suspect = true;
            if (!x.suspect) {
                require(e == (x.pos >= x.bytes.size()), "end-of-file", fmt("at %zu of %zu bytes at_end() is %d", x.pos, x.bytes.size(), e));
                size_t p = 0;
                Outcome o = attempt([&] { p = s.get_current_pos(); });
                if (o.raised) { report(x, fired(), "the position query", o.what); break; }
                require(p == x.pos, "wrong-position", fmt("after at_end() the position is %zu instead of %zu", p, x.pos));
            }
            x.dirty_dir = true;
            break;
        }
        case 11: {
            bool is = false;
            must("is_open", [&] { is = s.is_open(); });
            require(is, "is-open", "an open stream says it is not open");
            break;
        }
        case 12: { // close
            bool ok = false;
            Outcome o = attempt([&] { ok = s.close(); });
            log_event("stream %zu: close -> %s", xi, o.raised ? "raised" : ok ? "ok" : "false");
            x.open = false;
            bool is = true;
            must("is_open", [&] { is = s.is_open(); });
            require(!is, "is-open", "a closed stream says it is open");
            if (o.raised || !ok) { if (!x.suspect) require(fired(), "unexpected-failure", "closing failed without a fault"); probe("close_reported"); }
            else if (x.writable) require(content_of(x.path) == x.bytes, "file-content", fmt("closed without complaint, but the file (%zu bytes) does not hold the %zu bytes written", content_of(x.path).size(), x.bytes.size()));
            if (x.writable) files[x.path] = content_of(x.path);
            require(x.writable || content_of(x.path) == files[x.path], "file-content", "a file that was only read changed");
            probe("closed");
            break;
        }
        }
        if (x.open && !before && fired()) x.suspect = true;
        if (sys_fired()) for (auto& y : st) if (&y == &x) y.suspect = true;
    }
    // once the storage works, every stream is fully usable again
    disarm_sys();
    self().chunk = ch;
    for (auto& x : st) {
        io::fits_stream& s = *x.s;
        std::string d = content(2 + 8 * W().draw(60), 1 + draw_len()), got;
        must("using the stream again", [&] {
            if (!s.create_file("/sim/again")) violate("not-usable-again", "create_file returns false");
            if (!s.write(d)) violate("not-usable-again", "write returns false");
            if (s.get_current_pos() != d.size()) violate("not-usable-again", "wrong position");
            if (!s.close()) violate("not-usable-again", "close returns false");
            s.set_file("/sim/again");
            got = s.read(d.size());
            if (!s.at_end()) violate("not-usable-again", "not at the end");
            if (!s.close()) violate("not-usable-again", "close returns false");
        });
        require(got == d && disk_get("/sim/again") == d, "not-usable-again", "other bytes");
    }
    { Lib l; st.clear(); }
    require(open_descriptors() == 0, "descriptor-leak", "a descriptor stays open");
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C13", run); }

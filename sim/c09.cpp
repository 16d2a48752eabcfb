// C09: independent readers and savers never influence each other. Built with -fsanitize-coverage=trace-pc:
// clients can be preempted at every basic block of the library, allocation and system call.
#include "edit.hpp"
struct Plan {
    uint32_t seed, ops, focus = 0, card = 0; // focus: the kind of operation most often made; card: likewise of cards
    int id;
    MFile own, shared;
    FaultKind sys = F_NONE;
    uint32_t sys_at = 0, alloc_at = 0, fault_op = 0;
    bool alloc = false, sticky = false;
    bool narrow = false; // places to park at are those of the operations behind the first opening
    Chunking chunk;
};
typedef std::vector<std::string> Transcript;
static std::string fnv(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; return fmt("%zu:%016llx", s.size(), (unsigned long long)h); }

struct Session {
    const Plan& p;
    Transcript& out;
    Tape t;
    MFile mem;                       // what the reader holds
    std::unique_ptr<Reader> r;
    bool full = false, counting = false;
    std::string dir;
    Session(const Plan& pl, Transcript& o) : p(pl), out(o) { t.state = mix(pl.seed); dir = fmt("/sim/c%d/", pl.id); }
    void say(const std::string& s) { out.push_back(s); }
    void result(const char* what, const Outcome& o, const std::string& more = "") { say(fmt("%s: %s %s", what, o.raised ? (o.oom ? "out of memory" : o.what.c_str()) : "ok", more.c_str())); }
    void open(const std::string& path, const MFile& f, bool fl) {
        Outcome o = attempt([&] { r.reset(); r.reset(new Reader(io::fits::open(path, fl ? io::reading_options::read_entire_hdus : io::reading_options::read_only_headers))); });
        std::string e;
        if (!o.raised) {
            mem = f;
            full = fl;
            NoFaults nf;
            Outcome c = attempt([&] { e = check_reader(*r, f, (fl ? WITH_DATA | TYPED : NO_DATA) | META, t.draw(8)); });
            if (c.raised) e = "check raised: " + c.what;
            if (e.empty()) {
                auto info = r->get_control_block_info();
                NotLib nl;
                std::map<std::string, size_t> last;
                for (size_t i = 0; i < f.hdus.size(); i++) last[f.hdus[i].name] = i;
                if (info.filepath != path || info.total_hdus() != f.hdus.size() || info.hdus_info.size() != last.size()) e = "the reader's file information is wrong";
                for (auto& x : last) if (!info.hdus_info.count(x.first) || info.hdus_info[x.first].hdu_index != x.second || info.hdus_info[x.first].header_location != f.hdus[x.second].header_pos) e = "the reader's information on " + x.first + " is wrong";
            }
            if (!e.empty()) violate("wrong-content", fmt("client %d reads wrong content: %s", p.id, e.c_str()));
            stats.checks++;
        } else { Lib l; r.reset(); }
        result("open", o);
    }
    void edits() { for (uint32_t n = p.focus == 3 ? 1 + t.draw(5) : 1; n; n--) edit(); }
    void edit() {
        if (!r || !full) return;
        size_t h, row, c;
        if (!draw_target(t, mem, h, row, c)) return;
        NewValue v = draw_value(t, mem.hdus[h], c);
        bool alt = t.chance(1, 2);
        Outcome o = attempt([&] { lib_set((*r)[(int)h], mem.hdus[h], row, c, v, alt); });
        if (!o.raised) model_set(mem.hdus[h], row, c, v);
        result("edit", o);
    }
    void save() {
        if (!r || !full) return;
        Outcome o = attempt([&] { r->write_to(dir + "out.fits"); });
        std::string e;
        if (!o.raised) { e = check_saved_file(dir + "out.fits", mem); if (!e.empty()) violate("wrong-saved-file", fmt("client %d saved a wrong file: %s", p.id, e.c_str())); }
        result("save", o, o.raised ? "" : fnv(disk_get(dir + "out.fits")));
        if (!o.raised && t.chance(1, 2)) open(dir + "out.fits", saved_form(mem), true);
    }
    void read_columns() {
        if (!r || !full) return;
        std::string e;
        Outcome o = attempt([&] { e = check_reader(*r, mem, WITH_DATA | TYPED, t.draw(16)); });
        bool soft = false; // a number stored in an ASCII cell may be read in its own type only
        for (auto& h : mem.hdus) for (auto& x : h.edited) for (char y : x) if (y) soft = true;
        if (!o.raised && !e.empty() && !soft) violate("wrong-content", fmt("client %d holds wrong content: %s", p.id, e.c_str()));
        result("read", o, e);
    }
    void queries() {
        if (!r) return;
        size_t h = t.draw((uint32_t)mem.hdus.size());
        const MHdu& m = mem.hdus[h];
        if (m.kind == H_OTHER) return;
        std::string e;
        unsigned salt = t.draw(24);
        Outcome o = attempt([&] { e = check_hdu((*r)[(int)h], m, 0, salt); });
        if (!o.raised && !e.empty()) violate("wrong-header", fmt("client %d: %s", p.id, e.c_str()));
        result("query", o);
        Outcome q = attempt([&] { Header hd; if (m.kind == H_PRIMARY) hd = io::fits::convert_to<io::primary_hdu>((*r)[(int)h]).get_header(); else if (m.kind == H_BINARY) hd = io::fits::convert_to<io::binary_table>((*r)[(int)h]).get_header(); else hd = io::fits::convert_to<io::ascii_table>((*r)[(int)h]).get_header(); hd.value_of<int>("NO-SUCH"); });
        if (!q.raised) violate("wrong-header", "an absent keyword has a value");
        result("absent", q);
    }
    void cards() {
        Outcome o;
        std::string raw, val, com;
        uint32_t k = t.chance(1, 3) ? 3 : t.draw(6);
        if (p.card && t.draw(4)) k = p.card - 1;
        uint32_t n = t.draw(1000000);
        o = attempt([&] {
            Card c;
            switch (k) {
            case 0: c.create_card("INT", (long long)n, "a comment"); val = std::to_string(c.value<long long>()); break;
            case 1: c.create_card("STR", std::string("it's / ") + std::to_string(n)); val = c.value<std::string>(); break;
            case 2: c.create_card("BOOL", n % 2 == 0); val = c.value<bool>() ? "T" : "F"; break;
            case 3: c.create_card("REAL", n / 8.0, "real"); { NotLib nl; val = fmt("%.9g", c.value<double>()); } break;
            case 5: c.create_card("COMPLEX", std::complex<double>(n % 1000, n / 1000)); { std::complex<double> z = c.value<std::complex<double>>(); NotLib nl; val = fmt("%.9g %.9g", z.real(), z.imag()); } break;
            default: c.create_commentary_card("COMMENT", "text " + std::to_string(n)); val = c.value<std::string>(); break;
            }
            c.value_with_comment();
            Card d = c;
            d.set_value((long long)n + 1);
            raw = c.raw_card() + d.raw_card() + c.keyword();
        });
        result("card", o, o.raised ? "" : raw + "|" + val);
        if (!o.raised) {
            static const char* keys[] = {"INT", "STR", "BOOL", "REAL", "COMMENT", "COMPLEX"};
            std::string want = k == 0 ? std::to_string(n) : k == 1 ? "it's / " + std::to_string(n) : k == 2 ? (n % 2 == 0 ? "T" : "F") : k == 3 ? "" : k == 5 ? fmt("%u %u", n % 1000, n / 1000) : "text " + std::to_string(n);
            if ((k != 3 && val != want) || raw.compare(0, strlen(keys[k]), keys[k]) != 0) violate("wrong-card", fmt("client %d: card %s has value %s instead of %s", p.id, raw.c_str(), val.c_str(), want.c_str()));
        }
    }
    void stream() {
        std::string a = content(2 + 8 * t.draw(50), 1 + t.draw(6000)), b = content(2 + 8 * t.draw(50), 1 + t.draw(200)), got;
        size_t at = t.draw((uint32_t)a.size()), end = 0;
        std::string path = dir + "raw";
        Outcome o = attempt([&] {
            io::fits_stream s;
            if (!s.create_file(path)) throw std::runtime_error("create");
            if (!s.write(a)) throw std::runtime_error("write");
            if (!s.write(b, at)) throw std::runtime_error("write at");
            end = s.find_unit_end();
            if (!s.close()) throw std::runtime_error("close");
            io::fits_stream in;
            in.set_file(path);
            in.set_reading_pos(at);
            got = in.read(b.size());
        });
        if (!o.raised && (got != b || end != up2880(at + b.size()))) violate("wrong-stream", fmt("client %d reads other bytes than it wrote", p.id));
        result("stream", o, o.raised ? "" : fnv(got));
    }
    void copies() {
        if (!r || !full) return;
        std::string e;
        Outcome o = attempt([&] {
            auto l = r->get_hdu_list();
            for (size_t i = 0; i < l.size() && e.empty(); i++) e = check_hdu(l[i], mem.hdus[i], WITH_DATA);
        });
        if (!o.raised && !e.empty()) violate("wrong-copy", fmt("client %d: %s", p.id, e.c_str()));
        result("copy", o);
    }
    void go() {
        disk_put(dir + "in.fits", p.own.bytes());
        self().chunk = p.chunk;
        if (!(p.focus >= 8 && t.chance(2, 3))) open(dir + "in.fits", p.own, t.draw(4) != 3);
        if (counting && p.narrow) count_places(true);
        for (uint32_t i = 0; i < p.ops; i++) {
            bool faulty = (p.sys != F_NONE || p.alloc) && i == p.fault_op;
            if (faulty) { if (p.sys != F_NONE) arm_sys(p.sys, p.sys_at, 100); if (p.alloc) arm_alloc(p.alloc_at, p.sticky); }
            uint32_t k = t.draw(10);
            if (p.focus && t.draw(4)) k = p.focus - 1; // many clients in the same code
            log_event("client %d op %u", p.id, k);
            switch (k) {
            case 0: open(dir + "in.fits", p.own, true); break;
            case 1: open(dir + "in.fits", p.own, false); break;
            case 2: case 3: edits(); break;
            case 4: save(); break;
            case 5: read_columns(); break;
            case 6: queries(); break;
            case 7: cards(); break;
            case 8: if (t.chance(1, 2)) stream(); else copies(); break;
            case 9: open("/sim/shared.fits", p.shared, t.chance(1, 2)); break;
            }
            op();
            if (faulty) { say(fmt("fault %s", sys_fired() || alloc_fired() ? "hit" : "missed")); if (sys_fired() || alloc_fired()) probe("client_fault_hit"); disarm_sys(); disarm_alloc(); }
        }
        if (!p.narrow) save();
        if (r && full) {
            std::string e;
            must("reading what a client holds in the end", [&] { e = check_reader(*r, mem, WITH_DATA); });
            if (!e.empty()) violate("wrong-content", fmt("client %d holds wrong content: %s", p.id, e.c_str()));
        }
        { Lib l; r.reset(); }
        say(disk_exists(dir + "out.fits") ? fnv(disk_get(dir + "out.fits")) : "no output");
    }
};
static void run() {
    uint32_t n = 2 + W().draw(3);
    GenOpt g;
    g.max_ext = 2;
    g.small = true;
    MFile shared = gen_file(W(), g);
    std::vector<Plan> plans(n);
    bool allocs_fail = false;
    uint32_t focus = W().chance(1, 2) ? 1 + W().draw(10) : 0;
    uint32_t card = 0;
    bool twins = W().draw(3) != 0; // short programs on files of one shape: clients in the same code
    if (twins) {
        g.other = g.primary_data = false;
        g.max_ext = 1;
        g.need_table = true;
        (W().chance(1, 2) ? g.ascii : g.binary) = false;
        static const uint32_t areas[] = {1, 3, 5, 5, 6, 7, 6, 8, 3, 3};
        focus = areas[W().draw(10)];
        if (focus == 8) card = 1 + W().draw(6);
        if (W().chance(2, 3)) g.favourite = 1 + W().draw(11);
        if (W().chance(1, 4)) g.ascii = g.binary = true;
    }
    bool narrow = twins && W().chance(1, 2);
    for (uint32_t i = 0; i < n; i++) {
        Plan& p = plans[i];
        p.narrow = narrow;
        p.id = (int)i + 1;
        p.own = gen_file(W(), g);
        p.shared = shared;
        p.focus = focus;
        p.card = card;
        p.seed = W().draw(1 << 30);
        p.ops = 1 + W().skewed(twins ? 2 : 7);
        draw_chunking();
        p.chunk = self().chunk;
        if (p.chunk.max_read && p.chunk.max_read < 512) p.chunk.max_read = 512; // long runs would bring no more interleavings
        if (p.chunk.max_write && p.chunk.max_write < 512) p.chunk.max_write = 512;
        uint32_t k = twins && F().draw(4) ? 0 : F().draw(4);
        if (k == 3) allocs_fail = true;
        p.fault_op = F().draw(p.ops);
        if (k == 2) { static const std::vector<FaultKind> ks = {F_EIO_READ, F_EIO_WRITE, F_ENOSPC, F_OPEN_EMFILE, F_OPEN_EACCES, F_SEEK_EIO, F_TORN_WRITE, F_CLOSE_LOST}; p.sys = F().pick(ks); p.sys_at = F().draw(30); }
        if (k == 3) { p.alloc = true; p.alloc_at = F().draw(600); p.sticky = F().chance(1, 3); }
        log_event("client %d: %s", p.id, p.own.describe().c_str());
    }
    clear_chunking();
    std::vector<Transcript> alone(n), together(n);
    uint64_t points = 0;
    // alone; the first pass only warms up what is made once, so that allocations have the same numbers
    for (int pass = allocs_fail ? 0 : 1; pass < 2; pass++) for (uint32_t i = 0; i < n; i++) {
        disk_put("/sim/shared.fits", shared.bytes());
        disk_remove(fmt("/sim/c%u/out.fits", i + 1));
        disk_remove(fmt("/sim/c%u/raw", i + 1));
        Transcript tr;
        if (pass == 1 && i == 0) count_places(true);
        uint64_t np = run_clients({[&] { Session s(plans[i], tr); s.counting = pass == 1 && i == 0; s.go(); }}, true);
        if (pass) { alone[i] = tr; points += np; }
    }
    for (uint32_t i = 0; i < n; i++) { disk_remove(fmt("/sim/c%u/out.fits", i + 1)); disk_remove(fmt("/sim/c%u/raw", i + 1)); }
    count_places(false);
    log_event("together");
    std::vector<std::function<void()>> bodies;
    for (uint32_t i = 0; i < n; i++) bodies.push_back([&, i] { Session s(plans[i], together[i]); s.go(); });
    run_clients(bodies, true, points);
    for (uint32_t i = 0; i < n; i++) {
        stats.checks++;
        if (alone[i] == together[i]) continue;
        size_t k = 0;
        while (k < alone[i].size() && k < together[i].size() && alone[i][k] == together[i][k]) k++;
        std::string a = k < alone[i].size() ? alone[i][k] : "(end)", b = k < together[i].size() ? together[i][k] : "(end)";
        violate("interference", fmt("client %u, result %zu: alone \"%s\", among others \"%s\"", i + 1, k, printable(a).c_str(), printable(b).c_str()));
    }
    require(disk_get("/sim/shared.fits") == shared.bytes(), "shared-file-changed", "a file that was only read changed");
    require(open_descriptors() == 0, "descriptor-leak", "a descriptor stays open");
    if (n > 2) probe("three_or_more_clients");
}
int main(int argc, char** argv) { return sim_main(argc, argv, "C09", run); }

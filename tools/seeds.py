# Planted changes: (id, property, [(file, old, new)], flags, demo body, needs, breaks). Development only; mkseeded.py writes /verif/seeded from it.
I = "include/boost/astronomy/io/"
C = "include/boost/astronomy/coordinate/"
S = []
def seed(id, prop, edits, demo, needs, breaks, flags="", pre=""):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, pre=pre))

seed("s01-null-logical", "C01", [(I + "binary_data_converter.hpp", "values.emplace_back(element == 'T');", "values.emplace_back(element != 'F');")],
r'''
    // a logical array column with an undefined (zero byte) element
    std::string cells("T\0F", 3); 
    put(d + "/a.fits", hdr(primary_cards(8, {})) + hdr(table_cards("BINTABLE", 3, 1, 1) + str("TFORM1", "3L") + str("TTYPE1", "FLAGS")) + rec(cells, '\0'));
    Reader r(d + "/a.fits"); r.read_entire_hdus();
    std::vector<bool> v = boost::get<BinTable>(r[1]).get_column<std::vector<bool>>("FLAGS")[0];
    check(v.size() == 3 && v[0] && !v[1] && !v[2], "undefined logical element read as true");
''', "a logical array column holding an undefined (zero byte) element", "an undefined logical is reported as true")

seed("s02-aligned-skip", "C02", [(I + "fits_reader.hpp", """                    file_reader.set_reading_pos(file_reader.get_current_pos() + (total_elements*element_size));
                    file_reader.set_unit_end();""", """                    auto data_bytes = total_elements * element_size;
                    file_reader.set_reading_pos(file_reader.get_current_pos() + (data_bytes / 2880 + 1) * 2880);""")],
r'''
    std::string f = hdr(primary_cards(8, {2880})) + std::string(2880, 'x') + hdr(table_cards("BINTABLE", 2, 1, 1) + str("TFORM1", "1I") + str("TTYPE1", "N")) + rec(std::string("\0\7", 2), '\0');
    f += hdr(table_cards("BINTABLE", 2, 1, 1) + str("TFORM1", "1I") + str("TTYPE1", "M")) + rec(std::string("\0\7", 2), '\0');
    put(d + "/a.fits", f);
    Reader a(d + "/a.fits"), b(d + "/a.fits");
    a.read_entire_hdus(); 
    try { b.read_only_headers(); } catch (std::exception& e) { fail(std::string("header-only opening failed: ") + e.what()); }
    check(a.get_hdu_list().size() == 3 && b.get_hdu_list().size() == 3, "header-only opening finds other HDUs");
''', "header-only opening of a file with a data unit that ends exactly on a record boundary", "the next HDU's header is skipped")

seed("s03-repeated-cards", "C03", [(I + "header.hpp", """        for (auto& header_card : this->cards) {
            temp_buffer += header_card.raw_card();""", """        for (auto& header_card : this->cards) {
            const std::string& text = header_card.raw_card();
            // A card that repeats the one before it says nothing new
            if (temp_buffer.size() >= 80 && !header_card.keyword().empty() && temp_buffer.compare(temp_buffer.size() - 80, 80, text) == 0) { continue; }
            temp_buffer += text;""")],
r'''
    std::string f = hdr(primary_cards(8, {}) + raw("HISTORY flat field applied") + raw("HISTORY flat field applied") + num("ANSWER", 42));
    put(d + "/a.fits", f);
    Reader r(d + "/a.fits"); r.read_entire_hdus(); r.write_to(d + "/b.fits");
    check(slurp(d + "/b.fits") == f, "cards were lost by saving");
''', "saving a header with two equal consecutive cards (HISTORY or COMMENT lines)", "repeated cards are dropped from the saved file")

seed("s04-write-clear", "C04", [(I + "fits_stream.hpp", """        bool write(const std::string& data) {
            this->file.write(data.c_str(), sizeof(char) * data.size());
            return this->file.good();""", """        bool write(const std::string& data) {
            this->file.write(data.c_str(), sizeof(char) * data.size());
            bool written = this->file.good();
            this->file.clear();
            return written;""")],
r'''
    put(d + "/a.fits", hdr(primary_cards(8, {201600})) + std::string(201600, 'p'));
    Reader r(d + "/a.fits"); r.read_entire_hdus();
    bool raised = false; fail_large = true; try { r.write_to(d + "/b.fits"); } catch (std::exception&) { raised = true; } fail_large = false;
    check(raised || slurp(d + "/b.fits") == slurp(d + "/a.fits"), "an incomplete save returned normally");
''', "a write error in the middle of a save (not at the final flush)", "the save returns normally leaving an incomplete file", pre="#include <cerrno>\n#include <sys/syscall.h>\n#include <sys/uio.h>\n#include <unistd.h>\n// the device refuses one large transfer\nstatic bool fail_large = false;\nextern \"C\" ssize_t write(int fd, const void* p, size_t n) { if (fail_large && n > 100000) { errno = EIO; return -1; } return syscall(SYS_write, fd, p, n); }\nextern \"C\" ssize_t writev(int fd, const struct iovec* v, int c) { size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; if (fail_large && n > 100000) { errno = EIO; return -1; } return syscall(SYS_writev, fd, v, c); }\n")

seed("s05-tail-swallowed", "C05", [(I + "fits_reader.hpp", """                auto header_loc = file_reader.get_current_pos();
                typename ExtensionsSupported::header_type hdu_header = extract_header();
                auto data_loc""", """                auto header_loc = file_reader.get_current_pos();
                typename ExtensionsSupported::header_type hdu_header;
                try { hdu_header = extract_header(); }
                catch (file_reading_exception&) {
                    if (hdu_list.empty()) { throw; }
                    break; // Special records behind the last HDU
                }
                auto data_loc""")],
r'''
    std::string f = hdr(primary_cards(8, {})) + hdr(table_cards("BINTABLE", 2, 1, 1) + str("TFORM1", "1I") + str("TTYPE1", "N")) + rec(std::string("\0\7", 2), '\0');
    put(d + "/a.fits", f.substr(0, 2880 + 500)); // cut in the header of the second HDU
    Reader r(d + "/a.fits"); bool raised = false;
    try { r.read_entire_hdus(); } catch (std::exception&) { raised = true; }
    check(raised, "a file cut inside its second header was read as if it were whole");
''', "a file cut, or a read error, inside the header of a later HDU", "the truncated file is presented as a complete, shorter one")

seed("s06-int-size", "C06", [(I + "fits_reader.hpp", """                    auto total_elements = hdu_header.data_size();
                    auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
                    file_reader.set_reading_pos(""", """                    int total_elements = static_cast<int>(hdu_header.data_size());
                    auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
                    file_reader.set_reading_pos(""")],
r'''
    // a damaged NAXIS1: 2^32 - 2880
    put(d + "/a.fits", hdr(primary_cards(8, {4294964416L})));
    struct rlimit l = {5, 5}; setrlimit(RLIMIT_CPU, &l); struct rlimit m = {1L << 30, 1L << 30}; setrlimit(RLIMIT_AS, &m);
    Reader r(d + "/a.fits");
    try { r.read_only_headers(); } catch (std::bad_alloc&) { fail("all memory was used up"); } catch (std::exception& e) { std::cout << "raised " << e.what() << std::endl; }
    check(r.get_hdu_list().size() <= 1, "HDUs that are not there");
''', "header-only opening of a file whose NAXIS1 is damaged to a number just below 2^32", "the position goes back to the same header again and again, without end", pre="#include <sys/resource.h>\n")

seed("s07-skip-equal-edit", "C07", [(I + "column_data.hpp", """    DataType operator = (DataType value)  {
        // Copied first, so that nothing can fail once the table holds the new value
        DataType new_value(value);
        this->callback_ptr->update_value(index, value);""", """    DataType operator = (DataType value)  {
        if (value == this->value) { return value; } // Nothing to store
        // Copied first, so that nothing can fail once the table holds the new value
        DataType new_value(value);
        this->callback_ptr->update_value(this->index, value);""")],
r'''
    put(d + "/a.fits", hdr(primary_cards(8, {})) + hdr(table_cards("BINTABLE", 2, 1, 1) + str("TFORM1", "1I") + str("TTYPE1", "N")) + rec(std::string("\0\5", 2), '\0'));
    Reader r(d + "/a.fits"); r.read_entire_hdus();
    auto& col = boost::get<BinTable>(r[1]).get_column<boost::int16_t>("N");
    auto p = col[0]; auto q = col[0];
    q = 9; p = 5; // the last stored value is 5
    boost::int16_t now = col[0];
    check(now == 5, "the last edit was lost: the cell holds " + std::to_string(now));
''', "two cell references taken before either is assigned; the second assignment restores the value seen when it was taken", "the later edit is dropped")

seed("s08-same-path", "C08", [(I + "fits_reader.hpp", """            hdu_list.clear();
            hdus_control_block.clear();
            file_reader.set_file(filepath);
            hdus_control_block.filepath = filepath;""", """            hdu_list.clear();
            hdus_control_block.hdus_info.clear();
            hdus_control_block.hdu_count = 0;
            if (hdus_control_block.filepath != filepath) {
                hdus_control_block.filepath.clear();
                file_reader.set_file(filepath);
                hdus_control_block.filepath = filepath;
            }
            else { file_reader.set_reading_pos(0); } // Already open""")],
r'''
    put(d + "/a.fits", hdr(primary_cards(8, {}) + num("ANSWER", 1)));
    Reader r(d + "/a.fits"); r.read_entire_hdus();
    put(d + "/new", hdr(primary_cards(8, {}) + num("ANSWER", 2))); std::rename((d + "/new").c_str(), (d + "/a.fits").c_str()); // replaced, as a save does it
    r.initialize(d + "/a.fits"); r.read_entire_hdus();
    check(boost::get<Primary>(r[0]).get_header().value_of<int>("ANSWER") == 2, "the reader shows the file that was there before");
''', "pointing the reader again at the path it already has open after the file was replaced or a read failed", "the reader presents the earlier file, or keeps failing")

seed("s09-static-buffer", "C09", [(I + "header.hpp", "        std::string card_buffer;\n", "        static std::string card_buffer; // One allocation for all headers\n")],
r'''
    std::vector<std::string> paths;
    for (int t = 0; t < 4; t++) {
        std::string c = primary_cards(8, {}); for (int i = 0; i < 300; i++) c += num("K" + std::to_string(t) + "X" + std::to_string(i), t);
        paths.push_back(d + "/" + std::to_string(t) + ".fits"); put(paths.back(), hdr(c));
    }
    std::atomic<bool> wrong(false);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++) ts.emplace_back([&, t] {
        for (int n = 0; n < 60 && !wrong; n++) try {
            Reader r(paths[t]); r.read_entire_hdus(); auto h = boost::get<Primary>(r[0]).get_header();
            for (int i = 0; i < 300; i++) if (h.value_of<int>("K" + std::to_string(t) + "X" + std::to_string(i)) != t) wrong = true;
        } catch (std::exception&) { wrong = true; }
    });
    for (auto& t : ts) t.join();
    check(!wrong, "readers of different files disturbed each other");
''', "two threads reading headers at the same time, each with its own reader", "one reader's cards appear in the other's header", flags="-O1 -fsanitize=thread", pre="#include <thread>\n#include <atomic>\n")

seed("s10-query-inserts", "C10", [(I + "header.hpp", """        auto keyword_found = std::find_if(cards.begin(), cards.end(), [&keyword](const card<CardPolicy>& h_card) {
            return h_card.keyword() == keyword;
            });
        return keyword_found != cards.end();""", """        auto position = key_index[keyword];
        return position < cards.size() && cards[position].keyword() == keyword;""")],
r'''
    std::istringstream unused;
    put(d + "/a.fits", hdr(primary_cards(8, {})));
    io::fits_stream s; s.set_file(d + "/a.fits"); Header h; h.read_header(s);
    Header before(h);
    check(!h.contains_keyword("NOTHERE"), "an absent keyword is reported");
    bool raised = false; try { h.value_of<bool>("NOTHERE"); } catch (std::exception&) { raised = true; }
    check(raised, "an absent keyword got a value after it was asked for");
''', "asking for the presence of an absent keyword, then for its value", "the first card's value is returned for a keyword that does not exist")

seed("s11-rejected-edit", "C11", [(I + "card.hpp", """            replace_card(new_card);
            return;
        }
        throw invalid_card();""", """            replace_card(new_card);
            return;
        }
        this->card_.assign(80, ' '); throw invalid_card(); // No valid card any more""")],
r'''
    Card c; c.create_card("OBJECT", std::string("M31"));
    try { c.create_card("OBJECT", std::string(100, 'x')); } catch (std::exception&) {}
    check(c.keyword() == "OBJECT" && c.value<std::string>() == "M31", "a rejected edit changed the card to '" + c.raw_card() + "'");
''', "an edit that is rejected (a value too long for a card)", "the previous card is lost")

seed("s12-swallow-bad-alloc", "C12", [(I + "binary_table.hpp", """                    this->hdu_header.template value_of<std::string>("TUNIT" + boost::lexical_cast<std::string>(i + 1))
                );
            }
            catch (std::out_of_range&) {/*Do Nothing*/ }""", """                    this->hdu_header.template value_of<std::string>("TUNIT" + boost::lexical_cast<std::string>(i + 1))
                );
            }
            catch (std::exception&) {/*Do Nothing*/ }""")],
r'''
    put(d + "/a.fits", hdr(primary_cards(8, {})) + hdr(table_cards("BINTABLE", 2, 1, 1) + str("TFORM1", "1I") + str("TTYPE1", "N") + str("TUNIT1", "kilometres per second")) + rec(std::string("\0\5", 2), '\0'));
    for (long n = 1; n < 100000; n++) {
        bool ok = true; std::string unit;
        { Reader r(d + "/a.fits"); left = n; try { r.read_entire_hdus(); } catch (std::exception&) { ok = false; } bool hit = left == 0; left = -1;
          if (ok) unit = boost::get<BinTable>(r[1]).get_column_metadata("N").TUNIT();
          if (ok) check(unit == "kilometres per second", "opening returned normally without the unit after allocation " + std::to_string(n) + " failed");
          if (!hit) break; }
    }
''', "the one allocation made while an optional keyword is being read fails", "the table opens without that keyword as if the header had none",
pre="#include <new>\nstatic long left = -1;\nvoid* operator new(std::size_t n) { if (left > 0 && --left == 0) throw std::bad_alloc(); if (void* p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }\nvoid operator delete(void* p) noexcept { std::free(p); }\nvoid operator delete(void* p, std::size_t) noexcept { std::free(p); }\n")

seed("s13-no-trunc", "C13", [(I + "fits_stream.hpp", """            this->file.open(path, std::ios::in | std::ios::out | std::ios::trunc);
            return this->file.good();""", """            this->file.open(path, std::ios::in | std::ios::out);
            if (!this->file.is_open()) { // There is no such file yet
                this->file.clear();
                this->file.open(path, std::ios::in | std::ios::out | std::ios::trunc);
            }
            return this->file.good();""")],
r'''
    put(d + "/a", "a longer text from before");
    io::fits_stream s; s.create_file(d + "/a"); s.write("short"); s.close();
    check(slurp(d + "/a") == "short", "the file holds '" + slurp(d + "/a") + "'");
''', "creating a file where a longer one already is", "bytes of the older file remain behind the new ones")

seed("s14-raw-sink", "C14", [(C + "io/io.hpp", """    out << "Spherical Representation ( "
    	<< point.get_lat() << " , "
        << point.get_lon() << " , "
        << point.get_dist() << " )";
""", """    std::ostringstream text;
    text.copyfmt(out);
    text.exceptions(std::ios::goodbit);
    text << "Spherical Representation ( "
    	<< point.get_lat() << " , "
        << point.get_lon() << " , "
        << point.get_dist() << " )";
    out.width(0);
    const std::string whole = text.str();
    out.rdbuf()->sputn(whole.data(), static_cast<std::streamsize>(whole.size()));
"""), (C + "io/io.hpp", "#include <iostream>\n", "#include <iostream>\n#include <sstream>\n")],
r'''
    auto p = bc::make_spherical_representation(1.0 * bu::si::radian, 2.0 * bu::si::radian, 3.0 * bu::si::meter);
    struct Full : std::streambuf { int room = 20; std::string got; int overflow(int c) override { if (room-- <= 0) return traits_type::eof(); got += char(c); return c; } } sink;
    std::ostream o(&sink); o << p;
    check(!o.good(), "the sink took '" + sink.got + "' only, but the stream says all is well");
''', "a sink that accepts only part of the text", "the stream stays good although the text was cut",
pre="#include <boost/units/systems/si/length.hpp>\n#include <boost/units/systems/si/plane_angle.hpp>\n#include <boost/astronomy/coordinate/rep/representation.hpp>\n#include <boost/astronomy/coordinate/io/io.hpp>\nnamespace bc = boost::astronomy::coordinate; namespace bu = boost::units;\n")

seed("s15-scale-zero", "C15", [(I + "binary_table.hpp", """("TSCAL" + boost::lexical_cast<std::string>(i + 1))
                );
            }
            catch (std::out_of_range&) {/*Do Nothing*/ }

            try {
                columns[i].TZERO(""", """("TSCAL" + boost::lexical_cast<std::string>(i + 1))
                );
                columns[i].TZERO(""")],
r'''
    put(d + "/a.fits", hdr(primary_cards(8, {})) + hdr(table_cards("BINTABLE", 2, 1, 1) + str("TFORM1", "1I") + str("TTYPE1", "N") + kv("TZERO1", "32768.0")) + rec(std::string("\0\5", 2), '\0'));
    Reader r(d + "/a.fits"); r.read_entire_hdus();
    check(boost::get<BinTable>(r[1]).get_column_metadata("N").TZERO() == 32768, "the zero of the column is lost");
''', "a binary table column with TZERO but no TSCAL", "TZERO is reported as 0")

seed("s16-shared-rows", "C16", [(I + "table_extension.hpp", "    mutable table_data tb_data;\n", """    std::shared_ptr<table_data> rows_ = std::make_shared<table_data>(); // Copies are cheap
    table_data& tb_data = *rows_;
"""), (I + "table_extension.hpp", "    table_extension():tfields_(-1) {}\n", """    table_extension():tfields_(-1) {}
    table_extension(const table_extension&) = default;
    table_extension& operator = (const table_extension& other) {
        extension_hdu<CardPolicy>::operator = (other);
        tfields_ = other.tfields_;
        col_metadata_ = other.col_metadata_;
        tb_data = other.tb_data;
        return *this;
    }
"""), (I + "table_extension.hpp", "#include <cstddef>\n", "#include <cstddef>\n#include <memory>\n")],
r'''
    put(d + "/a.fits", hdr(primary_cards(8, {})) + hdr(table_cards("BINTABLE", 2, 1, 1) + str("TFORM1", "1I") + str("TTYPE1", "N")) + rec(std::string("\0\5", 2), '\0'));
    Reader r(d + "/a.fits"); r.read_entire_hdus();
    BinTable copy(boost::get<BinTable>(r[1]));
    copy.get_column<boost::int16_t>("N")[0] = 77;
    boost::int16_t v = boost::get<BinTable>(r[1]).get_column<boost::int16_t>("N")[0];
    check(v == 5, "editing the copy changed the original to " + std::to_string(v));
''', "editing a copy-constructed table", "the original changes too")

seed("s18-stale-names", "C08", [(I + "fits_reader.hpp", """            filepath.clear();
            hdus_info.clear();""", """            filepath.clear();
            for (auto& entry : hdus_info) { entry.second.read_status = false; } // Overwritten by the next reading""")],
r'''
    put(d + "/a.fits", hdr(primary_cards(8, {})) + hdr(table_cards("BINTABLE", 2, 1, 1) + str("TFORM1", "1I") + str("TTYPE1", "N")) + rec(std::string("\0\7", 2), '\0'));
    put(d + "/b.fits", hdr(primary_cards(8, {})) + hdr(table_cards("TABLE", 2, 1, 1) + str("TFORM1", "A2") + num("TBCOL1", 1) + str("TTYPE1", "N")) + rec("ab", ' '));
    Reader r(d + "/a.fits"); r.read_entire_hdus(); r.initialize(d + "/b.fits"); r.read_entire_hdus();
    bool raised = false; int which = -1; try { which = r["BINTABLE"].which(); } catch (std::exception&) { raised = true; }
    check(raised, "the second file has no binary table, but asking for it gives an HDU of kind " + std::to_string(which));
''', "a reader used for two files, asked by name for an HDU only the first one has", "an HDU of the second file is returned under a name it does not have")

seed("s20-static-format-stream", "C09", [(I + "default_card_policy.hpp", """        std::stringstream value_stream;
""", """        static std::stringstream value_stream;
        value_stream.str(std::string());
""")],
r'''
    std::atomic<bool> wrong(false);
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++) ts.emplace_back([&, t] {
        Card c;
        for (int n = 0; n < 3000 && !wrong; n++) try {
            double v = t * 1000 + n % 1000; c.create_card("VALUE", v); if (c.value<double>() != v) wrong = true;
        } catch (std::exception&) { wrong = true; }
    });
    for (auto& t : ts) t.join();
    check(!wrong, "cards of different threads disturbed each other");
''', "two threads setting floating point cards at the same time", "a card gets (parts of) the other's value", flags="-O1 -fsanitize=thread", pre="#include <thread>\n#include <atomic>\n")

seed("s21-name-case", "C15", [(I + "table_extension.hpp", "return column_name == col.TTYPE(); });", "return boost::algorithm::iequals(column_name, col.TTYPE()); });"), (I + "table_extension.hpp", "#include <cstddef>\n", "#include <cstddef>\n#include <boost/algorithm/string/predicate.hpp>\n")],
r'''
    put(d + "/a.fits", hdr(primary_cards(8, {})) + hdr(table_cards("BINTABLE", 4, 1, 2) + str("TFORM1", "1I") + str("TTYPE1", "flux") + str("TFORM2", "1I") + str("TTYPE2", "FLUX")) + rec(std::string("\0\5\0\6", 4), '\0'));
    Reader r(d + "/a.fits"); r.read_entire_hdus();
    check(boost::get<BinTable>(r[1]).get_column_metadata("FLUX").index() == 2, "the metadata of another column was returned");
''', "two columns whose names differ only in case", "the metadata of the wrong column is returned")

seed("s22-precision-left", "C14", [(C + "coord_sys/horizon_coord.hpp", """    out << "Horizon Coordinate (Altitude: "
""", """    out << std::setprecision(out.precision() < 3 ? 3 : out.precision()) << "Horizon Coordinate (Altitude: "
"""), (C + "coord_sys/horizon_coord.hpp", "#include <iostream>\n", "#include <iostream>\n#include <iomanip>\n")],
r'''
    auto p = bc::make_horizon_coord(12.345 * bu::degree::degrees, 2.0 * bu::degree::degrees);
    std::ostringstream o; o.precision(2); o << p;
    check(o.precision() == 2, "printing changed the stream's precision");
''', "a stream with a precision below three", "numbers are not printed with the stream's settings, and the settings stay changed",
pre="#include <boost/units/io.hpp>\n#include <boost/units/quantity.hpp>\n#include <boost/units/systems/si/plane_angle.hpp>\n#include <boost/units/systems/angle/degrees.hpp>\n#include <boost/astronomy/coordinate/coord_sys/horizon_coord.hpp>\nnamespace bc = boost::astronomy::coordinate; namespace bu = boost::units;\n")

seed("s23-list-shared", "C16", [(I + "fits_reader.hpp", "        std::deque<typename ExtensionsSupported::Extension> get_hdu_list() const {", "        const std::deque<typename ExtensionsSupported::Extension>& get_hdu_list() const {")],
r'''
    put(d + "/a.fits", hdr(primary_cards(8, {})));
    Reader r(d + "/a.fits"); r.read_entire_hdus();
    auto&& list = r.get_hdu_list();
    r.initialize(d + "/a.fits");
    check(list.size() == 1, "the list taken earlier changed when the reader was pointed elsewhere");
''', "keeping the returned HDU list while the reader is pointed at another file", "the list taken before changes")

seed("s24-short-image", "C05", [(I + "fits_reader.hpp", "                std::string data_buffer = file_reader.read(total_elements * element_size);\n", """                std::string data_buffer;
                try { data_buffer = file_reader.read(total_elements * element_size); }
                catch (file_reading_exception&) {
                    if (hdu_header.contains_keyword("XTENSION") || !file_reader.get_internal_stream().eof()) { throw; }
                    file_reader.get_internal_stream().clear();
                    data_buffer.assign(total_elements * element_size, '\\0'); // The image was not written yet
                }
""")],
r'''
    std::string f = hdr(primary_cards(8, {5000})) + rec(std::string(5000, 'x'), '\0');
    put(d + "/a.fits", f.substr(0, 2880 + 3000));
    Reader r(d + "/a.fits"); bool raised = false;
    try { r.read_entire_hdus(); } catch (std::exception&) { raised = true; }
    check(raised, "pixels were invented for bytes that are missing");
''', "a file cut inside the primary image", "zero pixels are invented for the missing bytes")


seed("s25-short-index", "C07", [(I + "column_data.hpp", """    class iterator {
        int index;
""", """    class iterator {
        short index;
""")],
r'''
    put(d + "/a.fits", hdr(primary_cards(8, {})) + hdr(table_cards("BINTABLE", 1, 33000, 1) + str("TFORM1", "1B") + str("TTYPE1", "N")) + rec(std::string(33000, '7'), '\0'));
    Reader r(d + "/a.fits"); r.read_entire_hdus();
    auto& c = boost::get<BinTable>(r[1]).get_column<std::uint8_t>("N");
    long n = 0;
    try { for (auto it = c.begin(); it != c.end() && n < 40000; ++it) { *it = (std::uint8_t)1; n++; } } catch (std::exception&) {}
    check(n == 33000, "iterating over a column does not visit its rows");
''', "a table of more than 32767 rows, edited by iterator", "rows beyond the 32767th are not reached")

seed("s26-header-equality", "C10", [(I + "header.hpp", "           this->cards == other.cards &&\n", "           this->cards.size() == other.cards.size() &&\n")],
r'''
    put(d + "/a.fits", hdr(primary_cards(8, {}) + num("EXPOSURE", 10)));
    put(d + "/b.fits", hdr(primary_cards(8, {}) + num("EXPOSURE", 20)));
    io::fits_stream a, b; a.set_file(d + "/a.fits"); b.set_file(d + "/b.fits");
    Header x, y; x.read_header(a); y.read_header(b);
    check(!(x == y), "two headers with different cards compare equal");
''', "two headers with the same keywords and another value", "they compare equal")

seed("s27-static-row", "C09", [(I + "binary_table.hpp", """            std::string row_temp_buffer = "";
""", """            static std::string row_temp_buffer; // keeps its memory from row to row
            row_temp_buffer.clear();
""")],
r'''
    for (int t = 0; t < 2; t++) put(d + "/" + std::to_string(t), hdr(primary_cards(8, {})) + hdr(table_cards("BINTABLE", 2 + t, 3000, 2) + str("TFORM1", "1B") + str("TTYPE1", "A") + str("TFORM2", t ? "2A" : "1A") + str("TTYPE2", "B")) + rec(std::string(3000 * (2 + t), 'a' + t), '\0'));
    std::atomic<bool> wrong(false);
    std::vector<std::thread> ts;
    for (int t = 0; t < 2; t++) ts.emplace_back([&, t] {
        std::string in = d + "/" + std::to_string(t), out = in + ".out";
        try { Reader r(in); r.read_entire_hdus(); for (int n = 0; n < 20 && !wrong; n++) { r.write_to(out); if (slurp(out) != slurp(in)) wrong = true; } } catch (std::exception&) { wrong = true; }
    });
    for (auto& t : ts) t.join();
    check(!wrong, "files saved by different threads disturbed each other");
''', "two threads saving binary tables at the same time", "rows of one table appear in the other's file, or the save fails", flags="-O1 -fsanitize=thread", pre="#include <thread>\n#include <atomic>\n")

seed("s28-quiet-rejection", "C11", [(I + "default_card_policy.hpp", "        return keyword.length() <= 8;\n", "        return keyword.length() <= 9;\n"), (I + "default_card_policy.hpp", "        return std::string(keyword).append(8 - keyword.length(), ' ');\n", "        return (keyword + std::string(8, ' ')).substr(0, 8);\n")],
r'''
    Card c; c.create_card("EXPOSURE", 10LL);
    try { c.create_card("EXPOSURES", 20LL); } catch (std::exception&) {}
    check(c.keyword() != "EXPOSURE" || c.value<long long>() == 10, "a rejected edit replaced the card");
''', "creating a card with a keyword of nine characters", "the keyword is cut and the card of another keyword appears")


seed("s29-size-beforehand", "C05", [(I + "fits_reader.hpp", "            hdus_control_block.filepath = filepath;\n", """            hdus_control_block.filepath = filepath;
            file_reader.get_internal_stream().seekg(0, std::ios::end);
            file_size = file_reader.get_current_pos();
            file_reader.set_reading_pos(0);
"""), (I + "fits_reader.hpp", "        control_block hdus_control_block;\n", "        control_block hdus_control_block;\n        std::size_t file_size = 0;\n"),
(I + "fits_reader.hpp", "                std::string data_buffer = file_reader.read(total_elements * element_size);\n", """                const std::size_t data_bytes = total_elements * element_size;
                if (file_size < data_bytes || file_reader.get_current_pos() > file_size - data_bytes) {
                    throw file_reading_exception("Cannot Read From File");
                }
                std::string data_buffer(data_bytes, '\\0'); // All of it is there
                file_reader.get_internal_stream().read(&data_buffer[0], data_bytes);
                if (file_reader.get_internal_stream().bad()) {
                    throw file_reading_exception("Cannot Read From File");
                }
                file_reader.get_internal_stream().clear();
""")],
r'''
    put(d + "/a.fits", hdr(primary_cards(8, {50000})) + rec(std::string(50000, 'x'), '\0'));
    Reader r(d + "/a.fits"); bool raised = false;
    if (::truncate((d + "/a.fits").c_str(), 2880 + 30000) != 0) { fail("cannot cut the file"); }
    try { r.read_entire_hdus(); } catch (std::exception&) { raised = true; }
    check(raised, "pixels were invented for bytes that are missing");
''', "a file that is cut by another process after it was opened and before its data is read", "zero pixels are invented for the missing bytes")

seed("s30-year-forgotten", "C17", [("include/boost/astronomy/time/time_conversions.hpp", "    double JD = julian_date(t);\n", """    // The date seldom changes between calls
    static boost::gregorian::date last_date;
    static double JD = 0;
    boost::gregorian::date today = t.date();
    if (last_date.is_not_a_date() || last_date.day_of_year() != today.day_of_year())
    {
        JD = julian_date(t);
        last_date = today;
    }
""")],
r'''
    using namespace boost::posix_time; using namespace boost::gregorian;
    boost::astronomy::time::GST(ptime(date(1981, Apr, 22), hours(14)));
    double other = boost::astronomy::time::GST(ptime(date(1985, Apr, 23), hours(14))).get();
    boost::astronomy::time::GST(ptime(date(1981, Apr, 22), hours(9)));
    boost::astronomy::time::GST(ptime(date(1981, Apr, 23), hours(9)));
    double again = boost::astronomy::time::GST(ptime(date(1985, Apr, 23), hours(14))).get();
    check(other == again, "the sidereal time of an instant depends on the one asked for before");
''', "the sidereal time of the same day in two different years, one after the other", "the second gets the first's date", pre="#include <boost/astronomy/time/time_conversions.hpp>\n")

seed("s31-static-median", "C17", [(I + "image.hpp", "        std::valarray<PixelType> sorted_array = this->data_;\n", """        static std::valarray<PixelType> sorted_array; // keeps its memory from call to call
        sorted_array = this->data_;
""")],
r'''
    std::atomic<bool> wrong(false);
    std::vector<std::thread> ts;
    for (int t = 0; t < 2; t++) ts.emplace_back([&, t] {
        io::image<io::bitpix::B8, io::binary_data_converter> img;
        img.read_image(std::string(5000, (char)(1 + t)), 100);
        for (int n = 0; n < 200 && !wrong; n++) if (img.median() != 1 + t) wrong = true;
    });
    for (auto& t : ts) t.join();
    check(!wrong, "medians of different images disturbed each other");
''', "two threads asking for the medians of their own images at the same time", "one gets the other's median", flags="-O1 -fsanitize=thread", pre="#include <thread>\n#include <atomic>\n")

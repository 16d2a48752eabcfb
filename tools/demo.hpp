// Helpers of a demonstration: builds FITS bytes, keeps every file in the scratch directory given as argv[1].
#pragma once
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <boost/astronomy/io/fits.hpp>
#include <boost/astronomy/io/fits_reader.hpp>
#include <boost/astronomy/io/fits_stream.hpp>
#include <boost/astronomy/io/default_hdus.hpp>
#include <boost/astronomy/io/default_card_policy.hpp>
#include <boost/astronomy/io/binary_data_converter.hpp>
#include <boost/astronomy/io/string_conversion_utility.hpp>
namespace io = boost::astronomy::io;
typedef io::default_hdu_manager<io::card_policy, io::ascii_converter, io::binary_data_converter> Manager;
typedef io::fits_io<io::fits_stream, Manager> Reader;
typedef io::basic_primary_hdu<io::card_policy, io::binary_data_converter> Primary;
typedef io::basic_binary_table_extension<io::card_policy, io::binary_data_converter> BinTable;
typedef io::basic_ascii_table<io::card_policy, io::ascii_converter> AsciiTable;
typedef io::header<io::card_policy> Header;
typedef io::card<io::card_policy> Card;
inline std::string rec(std::string s, char fill) { while (s.size() % 2880) s += fill; return s; }
inline std::string raw(std::string s) { s.resize(80, ' '); return s; }
inline std::string kv(std::string k, const std::string& v) { k.resize(8, ' '); std::string s = k + "= "; std::string x = v; if (v[0] != '\'') while (x.size() < 20) x = " " + x; return raw(s + x); }
inline std::string num(const std::string& k, long v) { return kv(k, std::to_string(v)); }
inline std::string str(const std::string& k, const std::string& v) { return kv(k, "'" + v + "'"); }
inline std::string hdr(const std::string& cards) { return rec(cards + raw("END"), ' '); }
inline std::string primary_cards(int bitpix, std::vector<long> axes) {
    std::string s = kv("SIMPLE", "T") + num("BITPIX", bitpix) + num("NAXIS", (long)axes.size());
    for (std::size_t i = 0; i < axes.size(); i++) s += num("NAXIS" + std::to_string(i + 1), axes[i]);
    return s + kv("EXTEND", "T");
}
inline std::string table_cards(const std::string& kind, long width, long rows, long fields) {
    return str("XTENSION", kind) + num("BITPIX", 8) + num("NAXIS", 2) + num("NAXIS1", width) + num("NAXIS2", rows) + num("PCOUNT", 0) + num("GCOUNT", 1) + num("TFIELDS", fields);
}
inline void put(const std::string& path, const std::string& bytes) { std::ofstream o(path, std::ios::binary | std::ios::trunc); o << bytes; }
inline std::string slurp(const std::string& path) { std::ifstream i(path, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
inline int fail(const std::string& why) { std::cout << "broken: " << why << std::endl; std::exit(1); }
inline void check(bool ok, const std::string& why) { if (!ok) fail(why); }

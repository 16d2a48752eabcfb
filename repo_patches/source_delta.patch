From 572adfcc1c01fe535e123b89c56676ea21480ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:59 +0000
Subject: [PATCH 01/39] fix: a position on a record boundary is its own record
 end

find_unit_end() added a whole extra 2880-byte record when the position was
already a multiple of 2880, so the HDU behind a block-aligned header or data
unit was skipped on reading and a superfluous record was written on saving.
---
 include/boost/astronomy/io/fits_stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 9d41a05..68b66c2 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -148,7 +148,8 @@ namespace boost {namespace astronomy {namespace io {
             std::size_t current_pos = this->file.tellg();
             std::size_t logical_record_size = 2880;
 
-            std::size_t offset = logical_record_size - (current_pos % logical_record_size);
+            // A position that already is on a record boundary is its own record end
+            std::size_t offset = (logical_record_size - (current_pos % logical_record_size)) % logical_record_size;
             std::size_t newpos = (current_pos + offset);
             return newpos;
         }
-- 
2.43.0


From f9cee764172a62765bb07c8f6da91f7b6cf176da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:24 +0000
Subject: [PATCH 02/39] fix: reading reports missing bytes and read errors
 instead of inventing data

fits_stream::read() ignored short reads and I/O errors and returned blanks, so
a truncated file was read as if it were whole (a header without END card was
read for ever, allocating without bound), get() turned a read error into 255,
and the position was reported as SIZE_MAX once the end had been looked at.
Blocks are read piecewise so that a damaged size cannot allocate more memory
than the file has bytes.
---
 include/boost/astronomy/io/fits_stream.hpp | 44 ++++++++++++++++++----
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 68b66c2..def2aec 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -8,7 +8,9 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #ifndef BOOST_ASTRONOMY_IO_STREAM_READER_HPP
 #define BOOST_ASTRONOMY_IO_STREAM_READER_HPP
 
+#include<algorithm>
 #include<fstream>
+#include<string>
 #include<boost/astronomy/exception/fits_exception.hpp>
 
 namespace boost {namespace astronomy {namespace io {
@@ -67,19 +69,31 @@ namespace boost {namespace astronomy {namespace io {
 
         /**
          * @brief Get the value at current position of file pointer as a character
+         * @return The character, 0 if there is none left
+         * @throw file_reading_exception If the file cannot be read
         */
         unsigned char get() {
 
             unsigned char byte = static_cast<unsigned char>(this->file.get());
-            if (!this->file.eof()) { return byte; }
+            if (this->file.good()) { return byte; }
+            if (!this->file.eof() || this->file.bad()) {
+                throw file_reading_exception("Cannot Read From File");
+            }
+            // Reaching the end must not block later seeks and reads
+            this->file.clear();
             return 0;
         }
 
         /**
          * @brief Gets the current position of file pointer
+         * @throw file_reading_exception If the position cannot be determined
         */
         std::size_t get_current_pos() {
-            return this->file.tellg();
+            std::streamoff position = this->file.tellg();
+            if (position < 0) {
+                throw file_reading_exception("Cannot Determine Position In File");
+            }
+            return static_cast<std::size_t>(position);
         }
 
         /**
@@ -107,10 +121,21 @@ namespace boost {namespace astronomy {namespace io {
         /**
          * @brief Reads num_bytes from the file from current position as a string
          * @param[in] num_bytes Amount of data to be read in bytes
+         * @throw file_reading_exception If the file cannot be read or ends before num_bytes
         */
         std::string read(std::size_t num_bytes) {
-            std::string data(num_bytes, ' ');
-            this->file.read(&data[0], num_bytes);
+            // Read piecewise: the memory used stays proportional to what the file really holds
+            const std::size_t piece_size = 1024 * 1024;
+            std::string data;
+            while (data.size() < num_bytes) {
+                std::size_t already_read = data.size();
+                std::size_t wanted = std::min(piece_size, num_bytes - already_read);
+                data.resize(already_read + wanted);
+                this->file.read(&data[already_read], wanted);
+                if (!this->file.good()) {
+                    throw file_reading_exception("Cannot Read From File");
+                }
+            }
             return data;
         }
 
@@ -118,8 +143,13 @@ namespace boost {namespace astronomy {namespace io {
          * @brief Checks whether we are at the end of file
         */
         bool at_end() {
-
-            return (this->file.peek(), this->file.eof());
+            this->file.peek();
+            bool end_reached = this->file.eof();
+            if (end_reached) {
+                // Having looked at the end must not block the position query or later seeks
+                this->file.clear(this->file.rdstate() & ~std::ios::eofbit);
+            }
+            return end_reached;
         }
 
         /**
@@ -145,7 +175,7 @@ namespace boost {namespace astronomy {namespace io {
          * @brief Finds the end of current logical record ( or beginning of next record )
         */
         std::size_t find_unit_end() {
-            std::size_t current_pos = this->file.tellg();
+            std::size_t current_pos = this->get_current_pos();
             std::size_t logical_record_size = 2880;
 
             // A position that already is on a record boundary is its own record end
-- 
2.43.0


From afe5e0e7b08ddf39594926f942b3c2c62a8efaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:24 +0000
Subject: [PATCH 03/39] fix: a save that did not reach the file raises

fits_io::write_to() ignored every failure: a file that could not be created, a
full disk, a failed write and a flush failing on close were all reported as
success.
---
 include/boost/astronomy/exception/fits_exception.hpp |  9 +++++++++
 include/boost/astronomy/io/fits_reader.hpp           | 10 +++++++++-
 include/boost/astronomy/io/fits_stream.hpp           |  8 ++++++--
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/exception/fits_exception.hpp b/include/boost/astronomy/exception/fits_exception.hpp
index e799c9c..7e54341 100644
--- a/include/boost/astronomy/exception/fits_exception.hpp
+++ b/include/boost/astronomy/exception/fits_exception.hpp
@@ -108,6 +108,15 @@ namespace boost
                 return message.c_str();
             }
 
+        };
+        class file_writing_exception : public fits_exception {
+            std::string message;
+        public:
+            file_writing_exception(const std::string& error_message) :message(error_message) {}
+            const char* what() const noexcept override {
+                return message.c_str();
+            }
+
         };
         class column_not_found_exception : public fits_exception {
             std::string message;
diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 67b9d43..fb01663 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -130,15 +130,23 @@ namespace boost { namespace astronomy { namespace io {
          * @brief Writes all the HDU's Header and Data information to the file
          * @param[in] file_path Path where the file resides
          * @note The HDUs are written in the order they are stored
+         * @throw file_writing_exception If the file could not be written completely
         */
         void write_to(const std::string& file_path) {
             FileReader file_writer;
-            file_writer.create_file(file_path);
+            if (!file_writer.create_file(file_path)) {
+                throw file_writing_exception("Cannot Create File");
+            }
             typename ExtensionsSupported::template writer_visitor<FileReader> writer_visitor(file_writer);
 
             for (auto& hdu : hdu_list) {
             boost::apply_visitor(writer_visitor, hdu);
             }
+
+            // A write error may show up only now, when the buffered bytes are flushed
+            if (!file_writer.close()) {
+                throw file_writing_exception("Cannot Write File");
+            }
         }
 
 
diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index def2aec..b9894c1 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -154,9 +154,13 @@ namespace boost {namespace astronomy {namespace io {
 
         /**
          * @brief Closes the file if opened
+         * @return false if something written to the file did not reach it
         */
-        void close() {
-            this->file.close();
+        bool close() {
+            if (this->file.is_open()) {
+                this->file.close();
+            }
+            return !this->file.fail();
         }
 
         /**
-- 
2.43.0


From 5895c4a88249a9375b0d661df10af1f53a6879d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:49 +0000
Subject: [PATCH 04/39] fix: pointing a reader at another file forgets the HDUs
 of the previous one

initialize() kept the HDU list, so the HDUs of the old file stayed in front of
those of the new one while the control block counted them too, and a failed
initialize() left the reader half on the old file.
---
 include/boost/astronomy/io/fits_reader.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index fb01663..c8f337d 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -79,8 +79,10 @@ namespace boost { namespace astronomy { namespace io {
          * @param[in] filepath Location of file
         */
         void initialize(const std::string& filepath) {
-            file_reader.set_file(filepath);
+            // Nothing read from an earlier file may remain, even if this file cannot be opened
+            hdu_list.clear();
             hdus_control_block.clear();
+            file_reader.set_file(filepath);
             hdus_control_block.filepath = filepath;
         }
 
-- 
2.43.0


From b3a4b9fbce564537b4d24ee08d6d2a40e5387ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:49 +0000
Subject: [PATCH 05/39] fix: publish the control block entry of an HDU only
 once the HDU is stored

The entry was written before the HDU was constructed, so after a failure the
lookup by name indexed past the end of the HDU list, or returned another HDU
than the entry said.
---
 include/boost/astronomy/io/fits_reader.hpp | 34 +++++++++++++++++-----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index c8f337d..4e18e21 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -95,11 +95,9 @@ namespace boost { namespace astronomy { namespace io {
 
                 typename ExtensionsSupported::header_type hdu_header = extract_header();
 
-                hdus_control_block.hdus_info[hdu_header.get_hdu_name()] = control_block::info(hdu_position,file_reader.get_current_pos(), hdu_list.size(), false);
+                auto data_position = file_reader.get_current_pos();
 
-                auto hdu_instance = ExtensionsSupported::construct_hdu(hdu_header, "");
-
-                hdu_list.push_back(hdu_instance);
+                store_hdu(hdu_header, "", hdu_position, data_position);
 
                 if (hdu_header.data_size() != 0) {
 
@@ -122,9 +120,7 @@ namespace boost { namespace astronomy { namespace io {
                 typename ExtensionsSupported::header_type hdu_header = extract_header();
                 auto data_loc = file_reader.get_current_pos();
                 std::string hdu_data = extract_data_buffer(hdu_header);
-                hdus_control_block.hdus_info[hdu_header.get_hdu_name()] = control_block::info(header_loc,data_loc, hdu_list.size(), false);
-                auto hdu_instance = ExtensionsSupported::construct_hdu(hdu_header, hdu_data);
-                hdu_list.push_back(hdu_instance);
+                store_hdu(hdu_header, hdu_data, header_loc, data_loc);
             }
         }
 
@@ -184,6 +180,30 @@ namespace boost { namespace astronomy { namespace io {
 
 
     private:
+        /**
+         * @brief Constructs an HDU and stores it along with its control block entry
+         * @details The control block entry is published only after the HDU is in the list, so that a
+         *          failure never leaves an entry pointing to an HDU that was not stored
+         * @param[in] hdu_header Header of the HDU
+         * @param[in] hdu_data Data of the HDU
+         * @param[in] header_location Position of the header in the file
+         * @param[in] data_location Position of the data in the file
+        */
+        void store_hdu(typename ExtensionsSupported::header_type& hdu_header, const std::string& hdu_data,
+            std::size_t header_location, std::size_t data_location) {
+            std::string hdu_name = hdu_header.get_hdu_name();
+            control_block::info hdu_info(header_location, data_location, hdu_list.size(), false);
+
+            hdu_list.push_back(ExtensionsSupported::construct_hdu(hdu_header, hdu_data));
+            try {
+                hdus_control_block.hdus_info[hdu_name] = hdu_info;
+            }
+            catch (...) {
+                hdu_list.pop_back();
+                throw;
+            }
+        }
+
         /**
          * @brief Extracts the header from the FITS file
         */
-- 
2.43.0


From b245622e82d0b454a394bed8d3d8ef5a766035c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:12 +0000
Subject: [PATCH 06/39] fix: total_hdus() counts every HDU, not every distinct
 name

A file with two extensions of the same type reported one HDU too few.
---
 include/boost/astronomy/io/fits_reader.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 4e18e21..41a174e 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -31,12 +31,13 @@ namespace boost { namespace astronomy { namespace io {
             info(std::size_t header_loc, std::size_t data_loc, std::size_t index, std::size_t status) :header_location(header_loc),data_location(data_loc), hdu_index(index), read_status(status) {}
         };
         std::map<std::string, info> hdus_info;
+        std::size_t hdu_count = 0; //! number of HDUs read ( hdus_info holds one entry per name )
 
         /**
          * @brief Returns the total number of HDU's present in file
         */
         std::size_t total_hdus() {
-            return hdus_info.size();
+            return hdu_count;
         }
 
         /**
@@ -45,7 +46,7 @@ namespace boost { namespace astronomy { namespace io {
         void clear() {
             filepath.clear();
             hdus_info.clear();
-
+            hdu_count = 0;
         }
     };
 
@@ -197,6 +198,7 @@ namespace boost { namespace astronomy { namespace io {
             hdu_list.push_back(ExtensionsSupported::construct_hdu(hdu_header, hdu_data));
             try {
                 hdus_control_block.hdus_info[hdu_name] = hdu_info;
+                hdus_control_block.hdu_count = hdu_list.size();
             }
             catch (...) {
                 hdu_list.pop_back();
-- 
2.43.0


From 54311890f85226681412abba874bb4aa0ea7d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:50 +0000
Subject: [PATCH 07/39] fix: a header holds only what was last read and
 compares by content

read_header() appended to the cards, index and axes of an earlier read, and
two equal headers compared unequal once get_hdu_name() had been called on one
of them. get_hdu_name() also swallowed every exception, so running out of
memory made an extension look like something that is no HDU at all.
---
 include/boost/astronomy/io/header.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 76dcb7e..1cad2cb 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -59,7 +59,6 @@ public:
    bool operator == (const header& other) {
        return bitpix_value == other.bitpix_value &&
            this->naxis_ == other.naxis_ &&
-           this->hdu_name == other.hdu_name &&
            this->cards == other.cards &&
            this->key_index == other.key_index;
    }
@@ -71,6 +70,12 @@ public:
     template<typename FileReader>
     void read_header(FileReader& file_reader) {
 
+        // Nothing of a previously read header may remain
+        cards.clear();
+        key_index.clear();
+        naxis_.clear();
+        hdu_name.clear();
+
         cards.reserve(36); //reserves the space of atleast 1 HDU unit
         std::string card_buffer;
 
@@ -150,12 +155,10 @@ public:
     */
     std::string get_hdu_name() {
         // Check if its a extension
-        try {
-
+        if (key_index.find("XTENSION") != key_index.end()) {
             hdu_name = value_of < std::string>("XTENSION");
             return hdu_name;
         }
-        catch (...) {}
 
         // Test if its primary header ( otherwise exception propagated)
         value_of<bool>("SIMPLE");
-- 
2.43.0


From fb9c0eb310642e29174878d18a39f22491a4f71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:50 +0000
Subject: [PATCH 08/39] fix: reject headers whose mandatory keywords are
 missing or impossible

A missing BITPIX/NAXIS/NAXISn was silently looked up as the first card, a
damaged NAXIS reserved memory without bound, naxis(n) indexed out of range and
the number of data elements wrapped around.
---
 include/boost/astronomy/io/header.hpp | 28 ++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 1cad2cb..d382eb1 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -12,6 +12,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <string>
 #include <vector>
 #include <cstddef>
+#include <limits>
 #include <unordered_map>
 #include <memory>
 #include <fstream>
@@ -41,7 +42,7 @@ template<typename CardPolicy>
 struct header
 {
 protected:
-    boost::astronomy::io::bitpix bitpix_value; //! stores the BITPIX value (enum bitpix)
+    boost::astronomy::io::bitpix bitpix_value = boost::astronomy::io::bitpix::B8; //! stores the BITPIX value (enum bitpix)
     std::vector<std::size_t> naxis_; //! values of all naxis (NAXIS, NAXIS1, NAXIS2...)
     std::string hdu_name;
 
@@ -97,7 +98,7 @@ public:
         }
         //finding and storing bitpix value
 
-        switch (cards[key_index["BITPIX"]]. template value<int>())
+        switch (cards[key_index.at("BITPIX")]. template value<int>())
         {
         case 8:
             this->bitpix_value = io::bitpix::B8;
@@ -120,13 +121,16 @@ public:
         }
 
         //setting naxis values
-        std::size_t total_dimensions = cards[key_index["NAXIS"]].template value<std::size_t>();
+        std::size_t total_dimensions = cards[key_index.at("NAXIS")].template value<std::size_t>();
+        if (total_dimensions > 999) { // Largest value allowed by the FITS standard
+            throw fits_exception();
+        }
         naxis_.reserve(total_dimensions);
 
         for (std::size_t i = 1; i <= total_dimensions; i++)
         {
-            naxis_.emplace_back(cards[key_index["NAXIS" +
-                boost::lexical_cast<std::string>(i)]].template value<std::size_t>());
+            naxis_.emplace_back(cards[key_index.at("NAXIS" +
+                boost::lexical_cast<std::string>(i))].template value<std::size_t>());
         }
 
     }
@@ -200,7 +204,7 @@ public:
     */
     std::size_t naxis(std::size_t n = 0) const
     {
-        return this->naxis_[n - 1]; // 1 Based indexing
+        return this->naxis_.at(n - 1); // 1 Based indexing
     }
 
     /**
@@ -214,7 +218,17 @@ public:
     */
     std::size_t data_size() {
         if (naxis_.empty()) { return 0; }
-        return std::accumulate(naxis_.begin(), naxis_.end(), static_cast<std::size_t > (1), std::multiplies<std::size_t>());
+
+        const std::size_t element_size = get_element_size_from_bitpix(bitpix_value);
+        const std::size_t max_elements = std::numeric_limits<std::size_t>::max() / element_size;
+        std::size_t total_elements = 1;
+        for (auto axis_length : naxis_) {
+            if (axis_length == 0) { return 0; }
+            // Sizes that no file can have come from a damaged header
+            if (total_elements > max_elements / axis_length) { throw fits_exception(); }
+            total_elements *= axis_length;
+        }
+        return total_elements;
     }
 
     /**
-- 
2.43.0


From bee168303cee97c3be6eacf0fa7682b022599a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:38 +0000
Subject: [PATCH 09/39] fix: a card shows the text and value of its last
 successful edit

The value cache survived create_card() and create_commentary_card(), and
reading a value in a second type raised bad_get. set_value() dropped the value
indicator and the padding, so the card could no longer be saved or read, and
silently ignored values that do not fit. A commentary longer than the card and
an allocation failure left a broken card behind.
---
 include/boost/astronomy/io/card.hpp | 42 +++++++++++++++--------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 634532a..6ae2c0a 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -119,10 +119,12 @@ public:
     void create_commentary_card(std::string const& key, std::string const& value)
     {
         if (this->is_key_valid(key)) {
-            std::string card_content = key + "  " + value;
-            this->card_ = card_content;
-            this->card_.append(80 - card_content.length(),' ');
-            return;
+            std::string card_content = this->format_keyword(key) + " " + value;
+            if (card_content.length() <= 80) {
+                card_content.append(80 - card_content.length(), ' ');
+                replace_card(card_content);
+                return;
+            }
         }
 
         throw invalid_card();
@@ -151,7 +153,8 @@ public:
     template <typename ReturnType>
     ReturnType value() const
     {
-        if (!value_cached()) {
+        // The cache only helps if the value was last asked for in the same type
+        if (boost::get<ReturnType>(&card_cache) == nullptr) {
             card_cache =value_imp(boost::type<ReturnType>());
         }
         return boost::get<ReturnType>(card_cache); 
@@ -169,19 +172,12 @@ public:
     /**
      * @brief       Sets the value of current card
      * @param[in]   value Value to be set.
+     * @throws      invalid_card If the value does not fit into the card
     */
     template<typename DataType>
     void set_value(DataType value)
     {
-        std::string serialized_value = this->serialize_to_fits_format(value);
-
-        if (this->is_card_valid(this->keyword(), serialized_value, "")) { 
-            std::string key = this->keyword(true);
-            this->card_.clear();
-            this->card_.append(key);
-            this->card_.append(serialized_value);
-            card_cache = value;
-        }
+        create_card_impl(this->keyword(), this->serialize_to_fits_format(value));
     }
 
     /**
@@ -190,11 +186,14 @@ public:
     const std::string& raw_card() { return card_; }
 
 private:
+
     /**
-     * @brief Checks if the value is internally cached
+     * @brief Replaces the text of the card ( and forgets the value cached from the previous text )
     */
-    bool value_cached() const { return card_cache.which() != 0; }
-
+    void replace_card(std::string& new_card) {
+        this->card_.swap(new_card);
+        card_cache = boost::blank();
+    }
 
     /**
      * @brief Creates a card from key, value and comment supplied to the method
@@ -203,14 +202,17 @@ private:
 
         if (this->is_card_valid(key, value, comment)) {
 
+            // Assembled aside, so that a failure leaves the current card as it is
+            std::string new_card;
             if (comment.empty()) {
-                this->card_ = this->format_keyword(key) + "= " + value;
+                new_card = this->format_keyword(key) + "= " + value;
             }
             else {
-                this->card_ = this->format_keyword(key) +"= "+value + " /" + comment;
+                new_card = this->format_keyword(key) +"= "+value + " /" + comment;
             }
 
-            this->card_.append(80 - this->card_.length(), ' ');
+            new_card.append(80 - new_card.length(), ' ');
+            replace_card(new_card);
             return;
         }
 
-- 
2.43.0


From e47b3d59bab36be82fe46fcc1168748d79c3a9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 10/39] fix: string values with quotes or slashes and
 commentary texts read back whole

A slash inside a string or a commentary text was taken for the start of a
comment, a comment not preceded by a blank cost the value its last character,
a commentary text lost its first character, quotes inside strings were not
doubled, and a string literal was written as an unquoted value.
---
 include/boost/astronomy/io/card.hpp           |  4 +-
 .../astronomy/io/default_card_policy.hpp      | 66 ++++++++++++++++++-
 2 files changed, 66 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 6ae2c0a..ce03012 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -237,8 +237,8 @@ private:
     */
     std::string value_imp(boost::type<std::string>) const {
         std::string val = boost::algorithm::trim_copy(this->extract_value(this->card_));
-        if (val[0] == '\'') {
-            return boost::algorithm::trim_copy(std::string(val.begin() + 1, val.end() - 1));
+        if (this->has_value_indicator(this->card_) && !val.empty() && val[0] == '\'') {
+            return this->unquote(val);
         }
         else {
             return val;
diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index afb075f..10b8f19 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -160,11 +160,23 @@ public:
     std::string serialize_to_fits_format(const std::string& value) const {
         std::string generated_string="";
         generated_string += '\'';
-        generated_string += value;
+        for (char character : value) {
+            generated_string += character;
+            // A quote inside a string is represented by two successive quotes
+            if (character == '\'') { generated_string += '\''; }
+        }
         generated_string += '\'';
         return generated_string;
     }
 
+    /**
+     * @brief Serializes a string literal as string value
+     * @param[in] value Value to be serialized
+    */
+    std::string serialize_to_fits_format(const char* value) const {
+        return serialize_to_fits_format(std::string(value));
+    }
+
     /**
      * @brief Serializes a boolean to string and pads it according to requirements in FITS standard
      * @param[in] value Boolean value to serialize to
@@ -212,13 +224,63 @@ public:
     /**
      * @brief Returns the value associated with keyword from the fits_card
      * @param[in] fits_card fits card from where the value needs to be extracted
+     * @note The value of a card without value indicator ( commentary card ) is all of its text
     */
     std::string extract_value(const std::string& fits_card) const {
-        return fits_card.substr(9, fits_card.find('/') - 10);
+        if (!has_value_indicator(fits_card)) { return fits_card.substr(8); }
+
+        // A slash starts the comment unless it is part of a string value
+        auto value_start = fits_card.find_first_not_of(' ', 10);
+        auto comment_start = value_start;
+        if (value_start != std::string::npos && fits_card[value_start] == '\'') {
+            comment_start = closing_quote(fits_card, value_start);
+        }
+        if (comment_start != std::string::npos) {
+            comment_start = fits_card.find('/', comment_start);
+        }
+        if (comment_start == std::string::npos) { return fits_card.substr(9); }
+
+        auto value_end = fits_card[comment_start - 1] == ' ' ? comment_start - 1 : comment_start;
+        return fits_card.substr(9, value_end - 9);
+    }
+
+    /**
+     * @brief Returns the content of a quoted string value
+     * @param[in] value String value starting with a quote
+     * @note  Leading blanks are significant in FITS strings, trailing ones are not
+    */
+    std::string unquote(const std::string& value) const {
+        auto value_end = std::min(closing_quote(value, 0), value.length());
+        std::string content;
+        for (std::size_t i = 1; i < value_end; i++) {
+            content += value[i];
+            if (value[i] == '\'') { i++; }
+        }
+        return boost::trim_right_copy(content);
+    }
+
+    /**
+     * @brief Checks whether the card has a value indicator in columns 9 and 10
+     * @param[in] fits_card fits card to be checked
+    */
+    bool has_value_indicator(const std::string& fits_card) const {
+        return in_proper_format(fits_card);
     }
 
 private:
 
+    /**
+     * @brief Returns the position of the quote closing the string that starts at position start
+     * @note  Returns std::string::npos if there is none
+    */
+    std::size_t closing_quote(const std::string& text, std::size_t start) const {
+        auto quote = text.find('\'', start + 1);
+        while (quote != std::string::npos && quote + 1 < text.length() && text[quote + 1] == '\'') {
+            quote = text.find('\'', quote + 2);
+        }
+        return quote;
+    }
+
     /**
      * @brief Checks whether the keyword is in list of reserved keywords
     */
-- 
2.43.0


From 70b518c13ec6ab4479467be20440ffc68c62b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 11/39] fix: complex card values can be read back

The imaginary part was parsed with the padding that serialisation puts in
front of it, which always failed.
---
 include/boost/astronomy/io/default_card_policy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 10b8f19..3b78477 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -130,7 +130,7 @@ public:
         auto space_pos = std::find(value.begin(), value.end(), ' ');
         if (space_pos != value.end()) {
             std::string real_part(value.begin(), space_pos);
-            std::string imag_part(space_pos + 1, value.end());
+            std::string imag_part = boost::trim_copy(std::string(space_pos + 1, value.end()));
 
             return std::complex<T>(parse_to<T>(real_part), parse_to<T>(imag_part));
         }
-- 
2.43.0


From fcf81202897af00b012c35db57b109f132d020c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 12/39] fix: running out of memory while serialising a value
 raises

String streams swallow bad_alloc, so an empty or truncated value was stored as
if it were the serialised one.
---
 include/boost/astronomy/io/default_card_policy.hpp       | 1 +
 include/boost/astronomy/io/string_conversion_utility.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 3b78477..6331ffe 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -146,6 +146,7 @@ public:
         std::string val;
 
         std::stringstream value_stream;
+        value_stream.exceptions(std::ios::badbit); // Otherwise running out of memory truncates the text silently
         value_stream << value;
         val = value_stream.str();
 
diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 632d624..8a0d4b5 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -55,6 +55,7 @@ namespace boost{namespace astronomy{namespace io{
                         //to_string does not maintain the same rep for floating point numbers causing field size problems
                         //to_string dosent work for custom types as well(although here it is)
                         std::stringstream conversion_stream;
+                        conversion_stream.exceptions(std::ios::badbit); // Otherwise running out of memory truncates the text silently
                         conversion_stream << value;
                         return conversion_stream.str();
                     });
-- 
2.43.0


From b610379cd954e5b20f3f839987f6b9f9a1b0ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 13/39] fix: a card made from a shorter text is padded to a
 whole record

It was kept as it was, and a text shorter than 8 characters ("END") was
refused with out_of_range.
---
 include/boost/astronomy/io/card.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index ce03012..613092c 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -59,6 +59,9 @@ public:
     */
     card(std::string fits_card) : card()
     {
+        // A card always is a complete record of 80 characters
+        if (fits_card.length() < 80) { fits_card.resize(80, ' '); }
+
         if (this->is_card_valid(fits_card)) {
             this->card_ = fits_card;
         }
-- 
2.43.0


From 086539409122cc9caa7de1eec87544d11256d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:02 +0000
Subject: [PATCH 14/39] fix: floating point values with a D exponent can be
 read

FITS writes double precision values as 1.5D+03, in cards as well as in ASCII
tables; reading one raised invalid_cast.
---
 .../astronomy/io/string_conversion_utility.hpp  | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 8a0d4b5..ca80373 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -8,8 +8,11 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #ifndef BOOST_ASTRONOMY_IO_STRING_CONVERSION_UTILITY_HPP
 #define BOOST_ASTRONOMY_IO_STRING_CONVERSION_UTILITY_HPP
 
+#include <algorithm>
 #include <sstream>
 #include <limits>
+#include <string>
+#include <type_traits>
 #include <boost/lexical_cast.hpp>
 #include <boost/hana/eval_if.hpp>
 #include <boost/astronomy/exception/fits_exception.hpp>
@@ -34,7 +37,8 @@ namespace boost{namespace astronomy{namespace io{
         template<typename T>
         static T deserialize_to(const std::string& convert_str, int) {
             try {
-                return boost::lexical_cast<T>(convert_str);
+                return boost::lexical_cast<T>(
+                    std::is_floating_point<T>::value ? normalize_exponent(convert_str) : convert_str);
             }
             catch (bad_lexical_cast&) {
                 throw invalid_cast("Cannot convert from String to the required Type");
@@ -61,6 +65,17 @@ namespace boost{namespace astronomy{namespace io{
                     });
         }
 
+    private:
+        /**
+         * @brief Replaces the exponent letter D ( allowed by FITS for double precision ) with E
+         * @param[in] number Textual form of a floating point number
+        */
+        static std::string normalize_exponent(std::string number) {
+            std::replace(number.begin(), number.end(), 'D', 'E');
+            std::replace(number.begin(), number.end(), 'd', 'e');
+            return number;
+        }
+
     };
 
 
-- 
2.43.0


From c24a5d3c790136f01e858774892a952183f1fcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:02 +0000
Subject: [PATCH 15/39] fix: every array descriptor of a column cell is read
 from its own bytes

The i-th descriptor was read from the second half of its predecessor.
---
 include/boost/astronomy/io/binary_data_converter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index 10466ce..d2829ae 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -325,9 +325,9 @@ namespace boost{namespace astronomy{namespace io{
         for (std::size_t i = 0; i < num_elements; i++) {
             values.emplace_back(
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i)),
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i)),
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i +
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i +
                         1)));
         }
         return values;
-- 
2.43.0


From 450e92d66e6b8971e945088a699d48c6aff4bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:02 +0000
Subject: [PATCH 16/39] fix: 8 bit images hold their pixels

BITPIX 8 is unsigned, and the converter has no deserialiser for int8_t, so
every pixel of an 8 bit image was read as 0 and saved as 0.
---
 include/boost/astronomy/io/bitpix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/bitpix.hpp b/include/boost/astronomy/io/bitpix.hpp
index 855fd53..ad1ddb3 100644
--- a/include/boost/astronomy/io/bitpix.hpp
+++ b/include/boost/astronomy/io/bitpix.hpp
@@ -64,7 +64,7 @@ enum class bitpix
 
  template<>
  struct bitpix_type<bitpix::B8> {
-     typedef typename boost::int8_t underlying_type;
+     typedef typename boost::uint8_t underlying_type; // 8 bit pixels are unsigned
  };
 
  template<>
-- 
2.43.0


From efa0dda40d58d01c85851bd7da12895eb3087e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:08 +0000
Subject: [PATCH 17/39] fix: binary cells shorter than the requested type raise

The converter read past the end of the cell.
---
 .../astronomy/io/binary_data_converter.hpp    | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index d2829ae..82aae63 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -18,6 +18,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include<boost/algorithm/string.hpp>
 #include<boost/cstdfloat.hpp>
 #include<boost/endian/conversion.hpp>
+#include<boost/astronomy/exception/fits_exception.hpp>
 #include<boost/astronomy/io/column.hpp>
 #include<boost/lexical_cast.hpp>
 #include<type_traits>
@@ -64,6 +65,7 @@ namespace boost{namespace astronomy{namespace io{
         */
         template <typename NumericType, typename AssumeType = NumericType>
         static NumericType element_to_numeric(const std::string& element) {
+            require_elements(element, 1, sizeof(NumericType));
             AssumeType temp = boost::endian::big_to_native(
                 *reinterpret_cast<const AssumeType*>(element.c_str()));
 
@@ -82,6 +84,7 @@ namespace boost{namespace astronomy{namespace io{
         template <typename NumericType, typename AssumeType = NumericType>
         static std::vector<NumericType> elements_to_numeric_collection(
             const std::string& elements, std::size_t no_elements) {
+            require_elements(elements, no_elements, sizeof(NumericType));
             std::vector<NumericType> values;
             values.resize(no_elements);
 
@@ -110,6 +113,7 @@ namespace boost{namespace astronomy{namespace io{
         */
         template <typename ComplexType, typename AssumeType = ComplexType>
         static std::complex<ComplexType> element_to_complex(const std::string& element) {
+            require_elements(element, 2, sizeof(ComplexType));
             AssumeType temp_real = boost::endian::big_to_native(
                 *reinterpret_cast<const AssumeType*>(element.c_str()));
 
@@ -135,6 +139,7 @@ namespace boost{namespace astronomy{namespace io{
         static std::vector<std::complex<ComplexType>> elements_to_complex_collection(
             const std::string& elements, std::size_t no_elements) {
 
+            require_elements(elements, no_elements, 2 * sizeof(ComplexType));
             std::vector<std::complex<ComplexType>> values;
             values.reserve(no_elements);
 
@@ -170,10 +175,24 @@ namespace boost{namespace astronomy{namespace io{
         template <typename ByteType>
         static std::vector<ByteType> elements_to_byte_collection(const std::string& elements,
             std::size_t no_elements) {
+            require_elements(elements, no_elements, sizeof(ByteType));
             return std::vector<ByteType>(elements.begin(),
                 elements.begin() + no_elements);
         }
 
+        /**
+         * @brief  Checks that the data holds the number of elements that are to be read from it
+         * @param[in] data         Data with representation in binary form
+         * @param[in] no_elements  Number of elements to be read
+         * @param[in] element_size Size of one element in bytes
+         * @throw  invalid_cast    If the data is too short
+        */
+        static void require_elements(const std::string& data, std::size_t no_elements, std::size_t element_size) {
+            if (data.size() / element_size < no_elements) {
+                throw invalid_cast("Data is too short for the required Type");
+            }
+        }
+
         /**
         * @brief  Returns the number of elements present in the field array
         * @param[in] format Format of field
@@ -312,6 +331,7 @@ namespace boost{namespace astronomy{namespace io{
     }
     template<>
     std::pair<boost::int32_t, boost::int32_t> binary_data_converter::deserialize_to(const std::string& element,int) {
+        require_elements(element, 2, sizeof(boost::int32_t));
         auto x = boost::endian::big_to_native(
             *reinterpret_cast<const boost::int32_t*>(element.c_str()));
         auto y = boost::endian::big_to_native(
@@ -320,6 +340,7 @@ namespace boost{namespace astronomy{namespace io{
     }
     template<>
     std::vector<std::pair<boost::int32_t, boost::int32_t>> binary_data_converter::deserialize_to(const std::string& elements, int num_elements) {
+        require_elements(elements, num_elements, 2 * sizeof(boost::int32_t));
         std::vector<std::pair<boost::int32_t, boost::int32_t>> values;
         values.reserve(num_elements);
         for (std::size_t i = 0; i < num_elements; i++) {
-- 
2.43.0


From a78a56b3afbdeeee9598bd4dd22cb3285015a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:08 +0000
Subject: [PATCH 18/39] fix: images know their width

width_ and height_ of an image read from a file were never set, so reading a
pixel by its position used an indeterminate row length.
---
 include/boost/astronomy/io/image.hpp          | 19 +++++++++++++------
 .../boost/astronomy/io/image_extension.hpp    |  3 ++-
 include/boost/astronomy/io/primary_hdu.hpp    |  2 +-
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/boost/astronomy/io/image.hpp b/include/boost/astronomy/io/image.hpp
index 02ee8d3..901c55a 100644
--- a/include/boost/astronomy/io/image.hpp
+++ b/include/boost/astronomy/io/image.hpp
@@ -32,8 +32,8 @@ struct image_buffer
 {
 protected:
     std::valarray<PixelType> data_; //! stores the image
-    std::size_t width_; //! width of image
-    std::size_t height_; //! height of image
+    std::size_t width_ = 0; //! width of image
+    std::size_t height_ = 0; //! height of image
     //std::fstream image_file; //! image file
 
     /**
@@ -163,11 +163,16 @@ public:
 struct read_image_visitor :public boost::static_visitor<> {
 
     const std::string& data_buffer;
+    std::size_t width;
 
-    read_image_visitor(const std::string& data_buf) :data_buffer(data_buf) {}
+    /**
+     * @param[in] data_buf Data associated with the image
+     * @param[in] image_width Number of pixels in one row of the image ( 0 if all pixels are in one row )
+    */
+    read_image_visitor(const std::string& data_buf, std::size_t image_width = 0) :data_buffer(data_buf), width(image_width) {}
 
     template<typename Image_Type>
-    void operator()(Image_Type& type) { type.read_image(data_buffer); }
+    void operator()(Image_Type& type) { type.read_image(data_buffer, width); }
 };
 
 /**
@@ -194,8 +199,9 @@ public:
     /**
      * @brief Reads an image from the data buffer
      * @param[in] data_buffer Data associated with image HDU or primary HDU
+     * @param[in] width Number of pixels in one row of the image ( 0 if all pixels are in one row )
     */
-    void read_image(const std::string& data_buffer) {
+    void read_image(const std::string& data_buffer, std::size_t width = 0) {
 
         if (data_buffer.empty()) { return; }
 
@@ -203,7 +209,8 @@ public:
         std::string::const_iterator raw_data_iter=data_buffer.begin();
 
         this->data_.resize(data_buffer.size() / element_size);
-
+        this->width_ = width == 0 ? this->data_.size() : width;
+        this->height_ = this->width_ == 0 ? 0 : this->data_.size() / this->width_;
 
         for (auto& element : this->data_) {
             std::string data(raw_data_iter, raw_data_iter + element_size);
diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index 4936c9c..5e9c4f2 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -94,7 +94,8 @@ private:
      * @param[in] data_buffer Image data in binary form from the file
     */
     void set_image_data(const std::string& data_buffer) {
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer,
+            this->hdu_header.total_dimensions() == 0 ? 0 : this->hdu_header.naxis(1));
         boost::apply_visitor(read_image_visit, data);
     }
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index de5da45..a73351a 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -59,7 +59,7 @@ public:
     basic_primary_hdu( const header<CardPolicy> & other,const std::string& data_buffer):hdu_header(other) {
 
         instantiate_primary_hdu(hdu_header.bitpix());
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer, hdu_header.total_dimensions() == 0 ? 0 : hdu_header.naxis(1));
         boost::apply_visitor(read_image_visit, data);
         init_primary_hdu();
     }
-- 
2.43.0


From 620a9a3806f160255e3c1a032ed36bb9d52cb55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:08 +0000
Subject: [PATCH 19/39] fix: running out of memory while assigning an image
 frees its pixels once

std::valarray releases its storage before it allocates the new one, so a
failed allocation left the image with a dangling pointer that its destructor
freed again.
---
 include/boost/astronomy/io/image.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/image.hpp b/include/boost/astronomy/io/image.hpp
index 901c55a..a00ed27 100644
--- a/include/boost/astronomy/io/image.hpp
+++ b/include/boost/astronomy/io/image.hpp
@@ -62,6 +62,22 @@ public:
         this->data_.resize(width*height);
     }
 
+    image_buffer(image_buffer const& other) = default;
+
+    /**
+     * @brief       Replaces the image with a copy of another one
+     * @note        Assigning a std::valarray directly frees its storage before the new one is allocated and
+     *              leaves it dangling if that fails
+    */
+    image_buffer& operator=(image_buffer const& other)
+    {
+        std::valarray<PixelType> copied_data(other.data_);
+        this->data_.swap(copied_data);
+        this->width_ = other.width_;
+        this->height_ = other.height_;
+        return *this;
+    }
+
     /**
      * @brief       virtual destructor allowing image_buffer to be a polymorphic base for derived classes
     */
@@ -208,7 +224,8 @@ public:
         auto element_size = get_element_size_from_bitpix(bitpix_val);
         std::string::const_iterator raw_data_iter=data_buffer.begin();
 
-        this->data_.resize(data_buffer.size() / element_size);
+        typename std::remove_reference<decltype(this->data_)>::type pixels(data_buffer.size() / element_size);
+        this->data_.swap(pixels);
         this->width_ = width == 0 ? this->data_.size() : width;
         this->height_ = this->width_ == 0 ? 0 : this->data_.size() / this->width_;
 
-- 
2.43.0


From ecc2456568ba0ad461a81986563c8d73a474a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:08 +0000
Subject: [PATCH 20/39] fix: files without the optional keywords EXTEND and
 EXTNAME can be opened

Both are optional in FITS; a file without them could not be opened.
---
 include/boost/astronomy/io/extension_hdu.hpp | 4 +++-
 include/boost/astronomy/io/primary_hdu.hpp   | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/extension_hdu.hpp b/include/boost/astronomy/io/extension_hdu.hpp
index a2f59f9..df9a084 100644
--- a/include/boost/astronomy/io/extension_hdu.hpp
+++ b/include/boost/astronomy/io/extension_hdu.hpp
@@ -58,7 +58,9 @@ private:
     void set_extension_info() {
         gcount = hdu_header.template value_of<int>("GCOUNT");
         pcount = hdu_header.template value_of<int>("PCOUNT");
-        extname = hdu_header.template value_of<std::string>("EXTNAME");
+        if (hdu_header.contains_keyword("EXTNAME")) { // Optional keyword
+            extname = hdu_header.template value_of<std::string>("EXTNAME");
+        }
     }
 };
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index a73351a..75592a4 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -32,8 +32,8 @@ template<typename CardPolicy,typename Converter>
 struct basic_primary_hdu
 {
 protected:
-    bool simple; //!Stores the value of SIMPLE
-    bool extend; //!Stores the value of EXTEND
+    bool simple = false; //!Stores the value of SIMPLE
+    bool extend = false; //!Stores the value of EXTEND ( optional keyword )
     typedef boost::variant<
         image<bitpix::B8,Converter>,
         image<bitpix::B16,Converter>,
@@ -125,7 +125,7 @@ private:
     void init_primary_hdu() {
 
         simple = hdu_header.template value_of<bool>("SIMPLE");
-        extend = hdu_header.template value_of<bool>("EXTEND");
+        extend = hdu_header.contains_keyword("EXTEND") && hdu_header.template value_of<bool>("EXTEND");
     }
 
     /**
-- 
2.43.0


From 0e51be1224cddf05157201b9b2dff30d4271ae7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:08 +0000
Subject: [PATCH 21/39] fix: asking for an image in the wrong pixel type raises

get_data() dereferenced a null pointer.
---
 include/boost/astronomy/io/image_extension.hpp | 2 +-
 include/boost/astronomy/io/primary_hdu.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index 5e9c4f2..cf67b75 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -66,7 +66,7 @@ public:
     */
 
     template<bitpix DT>
-    image<DT,Converter> get_data() const { return *boost::get<image<DT,Converter>>(&this->data); }
+    image<DT,Converter> get_data() const { return boost::get<image<DT,Converter>>(this->data); }
 
 
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index 75592a4..37395eb 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -78,7 +78,7 @@ public:
     */
 
     template<bitpix DT>
-    image<DT,Converter> get_data() const { return *boost::get<image<DT,Converter>>(&this->data); }
+    image<DT,Converter> get_data() const { return boost::get<image<DT,Converter>>(this->data); }
 
     /**
      * @brief Writes the entire HDU ( header, image_data ) into the file
-- 
2.43.0


From ac0b7946889bbd1021124ad33cb5816d2e3f6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:08 +0000
Subject: [PATCH 22/39] fix: column metadata has defined defaults

TSCAL and TZERO of a column whose header omits them were indeterminate.
---
 include/boost/astronomy/io/column.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/astronomy/io/column.hpp b/include/boost/astronomy/io/column.hpp
index e374b12..26c82fd 100644
--- a/include/boost/astronomy/io/column.hpp
+++ b/include/boost/astronomy/io/column.hpp
@@ -23,17 +23,17 @@ namespace boost { namespace astronomy { namespace io {
 struct column
 {
 private:
-    std::size_t index_;     //Field Position associated with data array
+    std::size_t index_ = 0;     //Field Position associated with data array
     std::string name;       //TTYPE
-    std::size_t start;      //TBCOL
+    std::size_t start = 0;      //TBCOL
     std::string format;     //TFORM
     std::string unit;       //TUNIT
-    double scale;           //TSCAL
-    double zero;            //TZERO
+    double scale = 1;       //TSCAL ( default value in FITS standard )
+    double zero = 0;        //TZERO ( default value in FITS standard )
     std::string display;    //TDISP
     std::string dimension;   //TDIM
     std::string comment_;
-    std::size_t total_elem_field;  // ASCII table 0 
+    std::size_t total_elem_field = 0;  // ASCII table 0 
 
 public:
     /**
-- 
2.43.0


From 550eb3230f020b578c7c4939f3ed63ea489f393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:08 +0000
Subject: [PATCH 23/39] fix: the data of an extension includes its PCOUNT and
 GCOUNT part

The heap of a binary table was not counted, so the HDUs behind such a table
were looked for in the middle of the heap.
---
 include/boost/astronomy/io/header.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index d382eb1..9eec4c3 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -215,6 +215,8 @@ public:
 
     /**
      * @brief   Returns the total number of elements in HDU data
+     * @details The data of an extension consists of GCOUNT groups that each hold PCOUNT elements in addition to
+     *          the array ( for example the heap of a binary table )
     */
     std::size_t data_size() {
         if (naxis_.empty()) { return 0; }
@@ -223,11 +225,23 @@ public:
         const std::size_t max_elements = std::numeric_limits<std::size_t>::max() / element_size;
         std::size_t total_elements = 1;
         for (auto axis_length : naxis_) {
-            if (axis_length == 0) { return 0; }
             // Sizes that no file can have come from a damaged header
-            if (total_elements > max_elements / axis_length) { throw fits_exception(); }
+            if (axis_length != 0 && total_elements > max_elements / axis_length) { throw fits_exception(); }
             total_elements *= axis_length;
         }
+
+        if (key_index.find("XTENSION") != key_index.end()) {
+            if (key_index.find("PCOUNT") != key_index.end()) {
+                std::size_t parameters = value_of<std::size_t>("PCOUNT");
+                if (parameters > max_elements - total_elements) { throw fits_exception(); }
+                total_elements += parameters;
+            }
+            if (key_index.find("GCOUNT") != key_index.end()) {
+                std::size_t groups = value_of<std::size_t>("GCOUNT");
+                if (groups != 0 && total_elements > max_elements / groups) { throw fits_exception(); }
+                total_elements *= groups;
+            }
+        }
         return total_elements;
     }
 
-- 
2.43.0


From d9ae5aa4bb1a44929abd03435c924fdbe48244a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:57 +0000
Subject: [PATCH 24/39] fix: column views always show the table's current cells

A view kept the values it had once seen, so edits made through another view, a
copied view or the table itself and replaced table data were not seen, and a
failed edit was shown as if it had been made.
---
 include/boost/astronomy/io/column_data.hpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index f14f387..f00e292 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -46,7 +46,7 @@ public:
     operator DataType () const  { return value; }
 
     /**
-     * @brief Updates the value of field both in cache and main table structure
+     * @brief Updates the value of field in the main table structure
      * @param[in] value Replacement value for the old value
     */
     DataType operator = (DataType value)  {
@@ -63,8 +63,7 @@ public:
 template<typename DataType,typename Converter>
 struct column_view:column{
 private:
-    std::vector<std::vector<std::string>>* table_ref;
-    std::unordered_map<int, DataType> cached_index;
+    std::vector<std::vector<std::string>>* table_ref = nullptr;
 public:
     /**
      * @brief Default constructor for storage
@@ -145,8 +144,7 @@ public:
      * @brief Updates the element at perticular row of the associated column in HDU table
     */
     void update_value(int row, DataType new_value){
-        cached_index[row] = new_value;
-        (*table_ref)[row][this->index()-1] = Converter::serialize(new_value);
+        table_ref->at(row).at(this->index()-1) = Converter::serialize(new_value);
     }
 
    /**
@@ -155,15 +153,10 @@ public:
    */
     Proxy<DataType,Converter> operator [](int row_number) {
 
-        auto cached_iter = cached_index.find(row_number);
-        
-        if (cached_iter != cached_index.end()) {
-            return Proxy<DataType,Converter>(cached_iter->second, this,row_number);
-        }
-
-        auto raw_data_str = (*table_ref)[row_number][this->index()-1];
-        cached_index.emplace(row_number, Converter::template deserialize_to<DataType>(raw_data_str,this->total_elements()));
-        return Proxy<DataType,Converter>(cached_index.find(row_number)->second, this,row_number);
+        // Always taken from the table: it may have been changed through another view or directly
+        const auto& raw_data_str = table_ref->at(row_number).at(this->index()-1);
+        return Proxy<DataType,Converter>(
+            Converter::template deserialize_to<DataType>(raw_data_str,this->total_elements()), this, row_number);
     }
 
 };
-- 
2.43.0


From 8a6921bcddf5d0e18883ff2ad9b3db17f89cfcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:57 +0000
Subject: [PATCH 25/39] fix: assigning one field to another changes the table

column[i] = column[j] only copied the proxy object and left the table as it
was.
---
 include/boost/astronomy/io/column_data.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index f00e292..1703fd9 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -53,6 +53,18 @@ public:
         this->callback_ptr->update_value(index, value);
         return value;
     }
+
+    Proxy(const Proxy& other) = default;
+
+    /**
+     * @brief Updates the value of field with the value of another field
+     * @param[in] other Proxy of the field whose value is to be stored
+    */
+    Proxy& operator = (const Proxy& other) {
+        this->callback_ptr->update_value(index, other.value);
+        this->value = other.value;
+        return *this;
+    }
 };
 
 
-- 
2.43.0


From 3178170d6243987ba17cf80d3ca32f0aaa568b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:35 +0000
Subject: [PATCH 26/39] fix: copied tables do not share column views

The views cached in a table were copied along with it and kept referring to
the original, so reading a column of the copy read (and writing changed) the
original, or freed memory once the original was gone. Asking for a column in a
second type raised bad_get depending on the type it was first asked for.
---
 include/boost/astronomy/io/ascii_table.hpp  | 14 +++------
 include/boost/astronomy/io/binary_table.hpp | 14 +++------
 include/boost/astronomy/io/column_data.hpp  | 33 +++++++++++++++++++++
 3 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 023711b..cd098e0 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -40,7 +40,7 @@ namespace boost { namespace astronomy {  namespace io {
 template<typename CardPolicy,typename Converter>
 struct basic_ascii_table : public table_extension<CardPolicy>
 {
-    mutable std::unordered_map<std::string,
+    mutable column_view_cache<
         boost::variant<
 
         column_view<std::string, Converter>,
@@ -85,15 +85,9 @@ public:
     template<typename ColDataType>
     column_view<ColDataType,Converter>& get_column(const std::string& column_name) const {
 
-        auto cache_entry = this->cached_columns.find(column_name);
-
-        if (cache_entry != this->cached_columns.end()) {
-            return boost::get<column_view<ColDataType,Converter>>(this->cached_columns[column_name]);
-        }
-        else {
-            this->cached_columns.emplace(column_name, this->template make_column_view<ColDataType,Converter>(column_name));
-            return boost::get<column_view<ColDataType,Converter>>(this->cached_columns[column_name]);
-        }
+        return this->cached_columns.template get<column_view<ColDataType, Converter>>(column_name, [&] {
+            return this->template make_column_view<ColDataType, Converter>(column_name);
+        });
     }
 
 
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index b43218b..99c35a8 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -38,7 +38,7 @@ template<typename CardPolicy, typename Converter>
 struct basic_binary_table_extension : table_extension<CardPolicy>
 {
 
-    mutable std::unordered_map<std::string,
+    mutable column_view_cache<
         boost::variant<
         column_view<bool, Converter>,
         column_view<std::vector<bool>, Converter>,
@@ -100,15 +100,9 @@ public:
     */
     template<typename ColDataType>
     column_view<ColDataType, Converter>& get_column(const std::string& column_name) {
-        auto cache_entry = this->cached_columns.find(column_name);
-
-        if (cache_entry != this->cached_columns.end()) {
-            return boost::get<column_view<ColDataType, Converter>>(this->cached_columns[column_name]);
-        }
-        else {
-                this->cached_columns.emplace(column_name, this->template make_column_view<ColDataType, Converter>(column_name));
-                return boost::get<column_view<ColDataType, Converter>>(this->cached_columns[column_name]);
-        }
+        return this->cached_columns.template get<column_view<ColDataType, Converter>>(column_name, [&] {
+            return this->template make_column_view<ColDataType, Converter>(column_name);
+        });
     }
 
     /**
diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index 1703fd9..b2e3a61 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -14,7 +14,9 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <vector>
 #include <unordered_map>
 #include <sstream>
+#include <typeinfo>
 #include <boost/static_assert.hpp>
+#include <boost/variant.hpp>
 #include <boost/astronomy/io/column.hpp>
 
 namespace boost { namespace astronomy { namespace io {
@@ -173,6 +175,37 @@ public:
 
 };
 
+/**
+ * @brief Stores the column views that a table has handed out
+ * @details A view refers to the table it was made for, hence the views are not copied along with the table
+ * @tparam ColumnVariant Variant over all types of views
+*/
+template<typename ColumnVariant>
+struct column_view_cache : std::unordered_map<std::string, ColumnVariant> {
+    column_view_cache() {}
+    column_view_cache(const column_view_cache&) : std::unordered_map<std::string, ColumnVariant>() {}
+    column_view_cache& operator = (const column_view_cache& other) {
+        if (this != &other) { this->clear(); }
+        return *this;
+    }
+
+    /**
+     * @brief Returns the view of a column in the given type, which is made if there is none yet
+     * @param[in] column_name Name of the column
+     * @param[in] make_view Makes the view
+     * @tparam View Type of the view
+    */
+    template<typename View, typename MakeView>
+    View& get(const std::string& column_name, MakeView make_view) {
+        std::string key = std::string(typeid(View).name()) + ' ' + column_name;
+        auto entry = this->find(key);
+        if (entry == this->end()) {
+            entry = this->emplace(key, make_view()).first;
+        }
+        return boost::get<View>(entry->second);
+    }
+};
+
 }}}
 
 #endif // !BOOST_ASTRONOMY_IO_COLUMN_DATA_HPP
-- 
2.43.0


From 3801be309a1953232bd52eca107dfd03bcef7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:35 +0000
Subject: [PATCH 27/39] fix: reading an ASCII table stays inside its data

Fields that lie outside of the row, rows that are not in the data and a table
without fields (division by zero) were not checked for.
---
 include/boost/astronomy/io/ascii_table.hpp    | 33 +++++++++++--------
 .../boost/astronomy/io/table_extension.hpp    |  3 ++
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index cd098e0..2546152 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -237,24 +237,31 @@ private:
         auto total_fields = this->tfields_;
         auto total_characters_per_row = this->hdu_header.naxis(1);
 
-        // Initialize table data matrix with total_rows * total_columns elements of type string
-        this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
-
-        auto current_row = 0;
-        auto current_column = 0;
+        // The rows must be in the buffer and the fields in the rows
+        if (total_characters_per_row != 0 && data_buffer.size() / total_characters_per_row < total_rows) {
+            throw fits_exception();
+        }
+        for (auto& field : this->col_metadata_) {
+            auto field_width = this->column_size(field.TFORM());
+            if (field.TBCOL() < 1 || field_width > total_characters_per_row ||
+                field.TBCOL() - 1 > total_characters_per_row - field_width) {
+                throw invalid_table_colum_format();
+            }
+        }
 
-        while(current_row< total_rows) {
-            auto starting_offset = data_buffer.begin()+ current_row * total_characters_per_row + this->col_metadata_[current_column].TBCOL() - 1;
-            auto ending_offset = starting_offset + this->column_size(this->col_metadata_[current_column].TFORM());
+        // Initialize table data matrix with total_rows * total_columns elements of type string
+        typename table_extension<CardPolicy>::table_data rows(total_rows, std::vector<std::string>(total_fields, std::string()));
 
-            this->tb_data[current_row][current_column++] = boost::algorithm::trim_copy(std::string(starting_offset, ending_offset));
+        for (std::size_t current_column = 0; current_column < total_fields; current_column++) {
+            auto field_offset = this->col_metadata_[current_column].TBCOL() - 1;
+            auto field_width = this->column_size(this->col_metadata_[current_column].TFORM());
 
-            if (current_column % this->tfields_ == 0) {
-                current_row++;
-                current_column = 0;
+            for (std::size_t current_row = 0; current_row < total_rows; current_row++) {
+                rows[current_row][current_column] = boost::algorithm::trim_copy(
+                    data_buffer.substr(current_row * total_characters_per_row + field_offset, field_width));
             }
-
         }
+        this->tb_data.swap(rows);
     }
 };
 
diff --git a/include/boost/astronomy/io/table_extension.hpp b/include/boost/astronomy/io/table_extension.hpp
index e184c9a..b56bf35 100644
--- a/include/boost/astronomy/io/table_extension.hpp
+++ b/include/boost/astronomy/io/table_extension.hpp
@@ -100,6 +100,9 @@ public:
     */
     void set_table_extension_info() {
         this->tfields_ = this->hdu_header.template value_of<std::size_t>("TFIELDS");
+        if (this->tfields_ > 999) { // Largest value allowed by the FITS standard
+            throw fits_exception();
+        }
         this->col_metadata_.resize(this->tfields_);
     }
 
-- 
2.43.0


From 2c5417fa9d76667e566680ed11dffd2ecfc93822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:35 +0000
Subject: [PATCH 28/39] fix: ASCII tables are saved in the layout their header
 declares

Gaps between the fields, the order of TBCOL and the row width were ignored, so
every row came out in another layout than the header says. A cell wider than
its field made the padding length wrap around, and a table whose data was
never read was saved without the rows its header declares.
---
 include/boost/astronomy/io/ascii_table.hpp    | 21 +++++++++++++------
 .../boost/astronomy/io/table_extension.hpp    | 16 ++++++++++++++
 2 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 2546152..b05dd27 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -139,14 +139,23 @@ public:
 
         this->hdu_header.write_header(file_writer);
 
-        for (int row = 0; row < this->tb_data.size(); row++) {
+        const std::size_t row_width = this->hdu_header.naxis(1);
+        this->require_all_rows();
 
-            std::string row_temp_buffer = "";
+        for (std::size_t row = 0; row < this->tb_data.size(); row++) {
 
-            for (int col = 0; col < this->tb_data[row].size(); col++) {
-                std::string padding = std::string(this->column_size(this->col_metadata_[col].TFORM())-this->tb_data[row][col].length(),' ');
-                std::string final_data = padding + this->tb_data[row][col];
-                row_temp_buffer += final_data;
+            // Every field goes to the place the header gives for it
+            std::string row_temp_buffer(row_width, ' ');
+
+            for (std::size_t col = 0; col < this->tb_data[row].size(); col++) {
+                const std::string& cell = this->tb_data[row][col];
+                const std::size_t field_width = this->column_size(this->col_metadata_[col].TFORM());
+                const std::size_t field_start = this->col_metadata_[col].TBCOL() - 1;
+
+                if (cell.length() > field_width || field_width > row_width || field_start > row_width - field_width) {
+                    throw file_writing_exception("Table Cell Does Not Fit Its Field");
+                }
+                row_temp_buffer.replace(field_start + field_width - cell.length(), cell.length(), cell);
             }
             file_writer.write(row_temp_buffer);
         }
diff --git a/include/boost/astronomy/io/table_extension.hpp b/include/boost/astronomy/io/table_extension.hpp
index b56bf35..e0f5491 100644
--- a/include/boost/astronomy/io/table_extension.hpp
+++ b/include/boost/astronomy/io/table_extension.hpp
@@ -93,6 +93,22 @@ public:
     */
     table_data& get_data() { return this->tb_data; }
 
+    protected:
+
+    /**
+     * @brief Checks that the table holds the rows and fields that its header declares
+     * @throw file_writing_exception If it does not ( for example because only the header was read )
+    */
+    void require_all_rows() const {
+        bool complete = this->hdu_header.naxis(1) == 0 || this->tb_data.size() == this->hdu_header.naxis(2);
+        for (const auto& row : this->tb_data) {
+            complete = complete && row.size() == this->tfields_;
+        }
+        if (!complete) {
+            throw file_writing_exception("Table Data Does Not Match Its Header");
+        }
+    }
+
     private:
 
     /**
-- 
2.43.0


From c064b3c09bcf4410505e2dc1b711b0c956206ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:30 +0000
Subject: [PATCH 29/39] fix: a failed set_data() leaves the column metadata
 intact

set_data() dropped the metadata first, so a failure (out of memory) left a
table whose columns could no longer be found.
---
 include/boost/astronomy/io/ascii_table.hpp  | 24 ++++++++---------
 include/boost/astronomy/io/binary_table.hpp | 30 ++++++++++-----------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index b05dd27..9b076d0 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -71,8 +71,6 @@ public:
      * @param[in]  data_buffer Data of ASCII Table
     */
     void set_data(const std::string& data_buffer) {
-        this->col_metadata_.clear();
-        this->col_metadata_.resize(this->tfields_);
         set_ascii_table_info(data_buffer);
     }
 
@@ -175,53 +173,55 @@ private:
     */
     void populate_column_data()
     {
+        std::vector<column> columns(this->tfields_); // Replaces the metadata only once it is complete
         for (std::size_t i = 0; i < this->tfields_; i++)
         {
-            this->col_metadata_[i].index(i + 1);
+            columns[i].index(i + 1);
 
-            this->col_metadata_[i].TFORM(
+            columns[i].TFORM(
                 this->hdu_header.template value_of<std::string>("TFORM" + boost::lexical_cast<std::string>(i + 1))
             );
 
-            this->col_metadata_[i].TBCOL(
+            columns[i].TBCOL(
                 this->hdu_header.template value_of<std::size_t>("TBCOL" + boost::lexical_cast<std::string>(i + 1))
             );
 
             try {
-                this->col_metadata_[i].TTYPE(
+                columns[i].TTYPE(
                     this->hdu_header.template value_of<std::string>("TTYPE" + boost::lexical_cast<std::string>(i + 1))
                 );
 
-                this->col_metadata_[i].comment(
-                    this->hdu_header.template value_of<std::string>(this->col_metadata_[i].TTYPE())
+                columns[i].comment(
+                    this->hdu_header.template value_of<std::string>(columns[i].TTYPE())
                 );
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
             try {
-                this->col_metadata_[i].TUNIT(
+                columns[i].TUNIT(
                     this->hdu_header.template value_of<std::string>("TUNIT" + boost::lexical_cast<std::string>(i + 1))
                 );
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
             try {
-                this->col_metadata_[i].TSCAL(
+                columns[i].TSCAL(
                     this->hdu_header.template value_of<double>("TSCAL" + boost::lexical_cast<std::string>(i + 1))
                 );
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
             try {
-                this->col_metadata_[i].TZERO(
+                columns[i].TZERO(
                     this->hdu_header.template value_of<double>("TZERO" + boost::lexical_cast<std::string>(i + 1))
                 );
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
-            this->col_metadata_[i].total_elements(0);
+            columns[i].total_elements(0);
 
         }
+        this->col_metadata_.swap(columns);
     }
 
     /**
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 99c35a8..36298e8 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -136,8 +136,6 @@ public:
      * @param[in]  data_buffer Data of Binary Table
     */
     void set_data(const std::string& data_buffer) {
-        this->col_metadata_.clear();
-        this->col_metadata_.resize(this->tfields_);
         set_binary_table_info(data_buffer);
     }
 
@@ -234,67 +232,69 @@ private:
     */
     void populate_column_data()
     {
+        std::vector<column> columns(this->tfields_); // Replaces the metadata only once it is complete
         std::size_t start = 0;
         for (std::size_t i = 0; i < this->tfields_; i++)
         {
-            this->col_metadata_[i].index(i + 1);
+            columns[i].index(i + 1);
 
-            this->col_metadata_[i].TFORM(
+            columns[i].TFORM(
                 this->hdu_header.template value_of<std::string>("TFORM" + boost::lexical_cast<std::string>(i + 1))
             );
 
-            this->col_metadata_[i].TBCOL(start);
+            columns[i].TBCOL(start);
 
-            start += column_size(this->col_metadata_[i].TFORM());
+            start += column_size(columns[i].TFORM());
 
             try {
-                this->col_metadata_[i].TTYPE(
+                columns[i].TTYPE(
                     this->hdu_header.template value_of<std::string>("TTYPE" + boost::lexical_cast<std::string>(i + 1))
                 );
 
-                this->col_metadata_[i].comment(
-                    this->hdu_header.template value_of<std::string>(this->col_metadata_[i].TTYPE())
+                columns[i].comment(
+                    this->hdu_header.template value_of<std::string>(columns[i].TTYPE())
                 );
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
             try {
-                this->col_metadata_[i].TUNIT(
+                columns[i].TUNIT(
                     this->hdu_header.template value_of<std::string>("TUNIT" + boost::lexical_cast<std::string>(i + 1))
                 );
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
             try {
-                this->col_metadata_[i].TSCAL(
+                columns[i].TSCAL(
                     this->hdu_header.template value_of<double>("TSCAL" + boost::lexical_cast<std::string>(i + 1))
                 );
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
             try {
-                this->col_metadata_[i].TZERO(
+                columns[i].TZERO(
                     this->hdu_header.template value_of<double>("TZERO" + boost::lexical_cast<std::string>(i + 1))
                 );
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
             try {
-                this->col_metadata_[i].TDISP(
+                columns[i].TDISP(
                     this->hdu_header.template value_of<std::string>("TDISP" + boost::lexical_cast<std::string>(i + 1))
                 );
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
             try {
-                this->col_metadata_[i].TDIM(
+                columns[i].TDIM(
                     this->hdu_header.template value_of<std::string>("TDIM" + boost::lexical_cast<std::string>(i + 1))
                 );
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
-            this->col_metadata_[i].total_elements(element_count(this->col_metadata_[i].TFORM()));
+            columns[i].total_elements(element_count(columns[i].TFORM()));
         }
+        this->col_metadata_.swap(columns);
     }
 
     
-- 
2.43.0


From 9051edf3572fc1a45f48db569c04b721bbbeb093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:30 +0000
Subject: [PATCH 30/39] fix: binary table cells keep all of their bytes

Cells were trimmed like text, so bytes that happen to be blanks, tabs or
newlines got lost: numbers were read from bytes behind the cell and saved rows
were too short. Fields and rows outside of the data and a table without fields
(division by zero) were not checked for.
---
 include/boost/astronomy/io/binary_table.hpp | 39 ++++++++++++---------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 36298e8..9b25e4c 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -319,28 +319,33 @@ private:
         auto total_fields = this->tfields_;
         auto total_characters_per_row = this->hdu_header.naxis(1);
 
-        // Initialize table data matrix with total_rows * total_columns elements of type string
-        this->tb_data = typename table_extension<CardPolicy>::table_data(total_rows, std::vector<std::string>(total_fields, std::string()));
-
-        auto current_row = 0;
-        auto current_column = 0;
-
-
-        auto starting_offset = data_buffer.begin();
-        auto ending_offset = starting_offset;
+        // The rows must be in the buffer and the fields in the rows
+        if (total_characters_per_row != 0 && data_buffer.size() / total_characters_per_row < total_rows) {
+            throw fits_exception();
+        }
+        std::size_t row_size = 0;
+        for (auto& field : this->col_metadata_) {
+            auto field_size = column_size(field.TFORM());
+            if (field_size > total_characters_per_row - row_size) {
+                throw invalid_table_colum_format();
+            }
+            row_size += field_size;
+        }
 
-        while (current_row<total_rows) {
+        // Initialize table data matrix with total_rows * total_columns elements of type string
+        typename table_extension<CardPolicy>::table_data rows(total_rows, std::vector<std::string>(total_fields, std::string()));
 
-            starting_offset = ending_offset;
-            ending_offset = starting_offset + column_size(this->col_metadata_[current_column].TFORM());
+        for (std::size_t current_column = 0; current_column < total_fields; current_column++) {
+            auto field_offset = this->col_metadata_[current_column].TBCOL();
+            auto field_size = column_size(this->col_metadata_[current_column].TFORM());
 
-            this->tb_data[current_row][current_column++] = boost::algorithm::trim_copy(std::string(starting_offset, ending_offset));
-            if (current_column % this->tfields_ == 0) {
-                current_row++;
-                current_column = 0;
+            for (std::size_t current_row = 0; current_row < total_rows; current_row++) {
+                // Every byte counts, even those that are blanks when taken for text
+                rows[current_row][current_column] =
+                    data_buffer.substr(current_row * total_characters_per_row + field_offset, field_size);
             }
-
         }
+        this->tb_data.swap(rows);
     }
 };
 
-- 
2.43.0


From ba1cc2eeaabb845d888d4787578d2d2a789890bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:30 +0000
Subject: [PATCH 31/39] fix: formats of bit arrays and array descriptors are
 understood

The r bits of an rX column take (r+7)/8 bytes, not r, and whatever follows the
type, as the maximum length in 1PJ(30), was taken for the type.
---
 include/boost/astronomy/io/binary_table.hpp | 44 ++++++++++++++++++---
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 9b25e4c..d27e37e 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -17,6 +17,8 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 
 #include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string/trim.hpp>
+#include <limits>
+
 #include <boost/cstdint.hpp>
 #include <boost/cstdfloat.hpp>
 
@@ -150,7 +152,13 @@ public:
                             return c == '\'' || c == ' ';
                         });
         auto no_of_elements = element_count(form);
-        auto size_type = type_size(get_type(form));
+        auto type = get_type(form);
+        if (type == 'X') { return bit_array_size(no_of_elements); }
+
+        auto size_type = type_size(type);
+        if (no_of_elements > std::numeric_limits<std::size_t>::max() / size_type) {
+            throw invalid_table_colum_format();
+        }
         return no_of_elements * size_type;
     }
 
@@ -166,8 +174,9 @@ public:
                             return c == '\'' || c == ' ';
                         });
 
-        return form.length() > 1 ?
-            boost::lexical_cast<std::size_t>(form.substr(0, form.length() - 1)) :
+        auto type_position = find_type(form);
+        return type_position > 0 ?
+            boost::lexical_cast<std::size_t>(form.substr(0, type_position)) :
             static_cast<std::size_t>(1);
     }
 
@@ -182,7 +191,7 @@ public:
                             return c == '\'' || c == ' ';
                         });
 
-        return form[form.length() - 1];
+        return form[find_type(form)];
     }
 
     /**
@@ -222,7 +231,28 @@ public:
     }
 
 private:
-   
+
+    /**
+     * @brief     Returns the position of the type in a format ( repeat count, type, additional characters )
+     * @param[in] form Field format without surrounding blanks
+    */
+    static std::size_t find_type(const std::string& form)
+    {
+        auto type_position = form.find_first_not_of("0123456789");
+        if (type_position == std::string::npos) {
+            throw invalid_table_colum_format();
+        }
+        return type_position;
+    }
+
+    /**
+     * @brief     Returns the number of bytes that hold an array of bits
+     * @param[in] no_of_bits Number of bits
+    */
+    static std::size_t bit_array_size(std::size_t no_of_bits)
+    {
+        return no_of_bits / 8 + (no_of_bits % 8 != 0 ? 1 : 0);
+    }
 
     /**
      * @brief    Populates the metadata information for all fields of binary_table_extension
@@ -292,7 +322,9 @@ private:
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
-            columns[i].total_elements(element_count(columns[i].TFORM()));
+            // The elements of a bit array are the bytes that hold it
+            auto no_of_elements = element_count(columns[i].TFORM());
+            columns[i].total_elements(get_type(columns[i].TFORM()) == 'X' ? bit_array_size(no_of_elements) : no_of_elements);
         }
         this->col_metadata_.swap(columns);
     }
-- 
2.43.0


From 855f53dcd541fb30305c61f586df010953789e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:30 +0000
Subject: [PATCH 32/39] fix: binary tables are saved complete and zero-padded

The heap was dropped, the last record was padded with blanks instead of zeros,
and rows or cells that do not have the size the header declares (including
those of a table whose data was never read) were saved all the same.
---
 include/boost/astronomy/io/binary_table.hpp | 23 ++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index d27e37e..8e73aab 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -74,6 +74,9 @@ struct basic_binary_table_extension : table_extension<CardPolicy>
          >
     > cached_columns;
 
+protected:
+    std::string heap; //! data behind the rows ( variable length arrays ), kept as it is
+
 public:
 
     /**
@@ -116,21 +119,33 @@ public:
     void write_to(FileWriter& file_writer) {
 
         this->hdu_header.write_header(file_writer);
+        this->require_all_rows();
 
-        for (int row = 0; row < this->tb_data.size(); row++) {
+        std::size_t data_size = 0;
+        for (std::size_t row = 0; row < this->tb_data.size(); row++) {
 
             std::string row_temp_buffer = "";
 
-            for (int col = 0; col < this->tb_data[row].size(); col++) {
+            for (std::size_t col = 0; col < this->tb_data[row].size(); col++) {
+                if (this->tb_data[row][col].size() != column_size(this->col_metadata_[col].TFORM())) {
+                    throw file_writing_exception("Table Cell Does Not Fit Its Field");
+                }
                 row_temp_buffer += this->tb_data[row][col];
             }
 
             file_writer.write(row_temp_buffer);
+            data_size += row_temp_buffer.size();
+        }
+        file_writer.write(this->heap);
+        data_size += this->heap.size();
+
+        if (data_size != this->hdu_header.data_size()) {
+            throw file_writing_exception("Table Data Does Not Match Its Header");
         }
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
 
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
     /**
@@ -377,7 +392,9 @@ private:
                     data_buffer.substr(current_row * total_characters_per_row + field_offset, field_size);
             }
         }
+        std::string data_behind_rows = data_buffer.substr(total_rows * total_characters_per_row);
         this->tb_data.swap(rows);
+        this->heap.swap(data_behind_rows);
     }
 };
 
-- 
2.43.0


From 2c8f1d30dc3d9305145ca0081d54a744fd114a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:30 +0000
Subject: [PATCH 33/39] fix: images are saved complete and zero-padded

The last record was padded with blanks instead of zeros, and an image whose
pixels were never read was saved without the data its header declares.
---
 include/boost/astronomy/io/image_extension.hpp | 5 ++++-
 include/boost/astronomy/io/primary_hdu.hpp     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index cf67b75..7ed051c 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -82,10 +82,13 @@ public:
         this->hdu_header.write_header(file_writer);
         write_image_visitor write_image_visit;
         auto image_data = boost::apply_visitor(write_image_visit, data);
+        if (image_data.size() / get_element_size_from_bitpix(this->hdu_header.bitpix()) != this->hdu_header.data_size()) {
+            throw file_writing_exception("Image Data Does Not Match Its Header");
+        }
         file_writer.write(image_data);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
 private:
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index 37395eb..911e48f 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -91,10 +91,13 @@ public:
         this->hdu_header.write_header(file_writer);
         write_image_visitor write_image_visit;
         auto image_data = boost::apply_visitor(write_image_visit, data);
+        if (image_data.size() / get_element_size_from_bitpix(this->hdu_header.bitpix()) != this->hdu_header.data_size()) {
+            throw file_writing_exception("Image Data Does Not Match Its Header");
+        }
         file_writer.write(image_data);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
 
-- 
2.43.0


From 38744e74464e753bece5e12e5baf6a1b2cf1a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:18 +0000
Subject: [PATCH 34/39] fix: rows without bytes take no memory

A damaged header with NAXIS1 = 0 and a huge NAXIS2 allocated that many rows.
---
 include/boost/astronomy/io/ascii_table.hpp  | 3 ++-
 include/boost/astronomy/io/binary_table.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 9b076d0..2edb304 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -242,9 +242,10 @@ private:
     */
     void set_table_data(const std::string& data_buffer) {
 
-        auto total_rows = this->hdu_header.naxis(2);
         auto total_fields = this->tfields_;
         auto total_characters_per_row = this->hdu_header.naxis(1);
+        // Rows without bytes hold nothing, however many of them a ( damaged ) header declares
+        auto total_rows = total_characters_per_row == 0 ? 0 : this->hdu_header.naxis(2);
 
         // The rows must be in the buffer and the fields in the rows
         if (total_characters_per_row != 0 && data_buffer.size() / total_characters_per_row < total_rows) {
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 8e73aab..f981d92 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -362,9 +362,10 @@ private:
     */
     void set_table_data(const std::string& data_buffer) {
 
-        auto total_rows = this->hdu_header.naxis(2);
         auto total_fields = this->tfields_;
         auto total_characters_per_row = this->hdu_header.naxis(1);
+        // Rows without bytes hold nothing, however many of them a ( damaged ) header declares
+        auto total_rows = total_characters_per_row == 0 ? 0 : this->hdu_header.naxis(2);
 
         // The rows must be in the buffer and the fields in the rows
         if (total_characters_per_row != 0 && data_buffer.size() / total_characters_per_row < total_rows) {
-- 
2.43.0


From f09afbc6e0abe0afb45bb2f77eabed7fa7dff661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:48 +0000
Subject: [PATCH 35/39] fix: a field proxy shows the value assigned through it

---
 include/boost/astronomy/io/column_data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index b2e3a61..13132f3 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -53,6 +53,7 @@ public:
     */
     DataType operator = (DataType value)  {
         this->callback_ptr->update_value(index, value);
+        this->value = value;
         return value;
     }
 
-- 
2.43.0


From e7cebb7c788a8a401cfc6e839581d0a8f814272e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:44 +0000
Subject: [PATCH 36/39] fix: string fields of ASCII tables can be assigned

---
 include/boost/astronomy/io/string_conversion_utility.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index ca80373..6e47f31 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -65,6 +65,12 @@ namespace boost{namespace astronomy{namespace io{
                     });
         }
 
+        /**
+         * @brief Serializes a string ( a string field is stored as it is )
+         * @param[in] value The value to be serialized
+        */
+        static std::string serialize(const std::string& value) { return value; }
+
     private:
         /**
          * @brief Replaces the exponent letter D ( allowed by FITS for double precision ) with E
-- 
2.43.0


From d9bb115acaf4cfc38196ec377a118a0b24abfc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:44 +0000
Subject: [PATCH 37/39] fix: a time built from hours, minutes and seconds shows
 them

---
 include/boost/astronomy/time/parser.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/astronomy/time/parser.hpp b/include/boost/astronomy/time/parser.hpp
index 926bf7c..8ace2b8 100644
--- a/include/boost/astronomy/time/parser.hpp
+++ b/include/boost/astronomy/time/parser.hpp
@@ -38,6 +38,13 @@ public:
 
     decimal_hour(double const& h,double const& m,double const& s){
       dh = h + m/60 + s/(60*60);
+
+      time = dh;
+      hours = (long int)h;
+      minutesRemainder = (h - hours) * 60 + m;
+      minutes = (long int)minutesRemainder;
+      secondsRemainder = (minutesRemainder - minutes) * 60 + s;
+      seconds = secondsRemainder;
     }
 
     double get() const{
-- 
2.43.0


From 99593520d2cf9497ab88d671054c5cc06d7b891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:45 +0000
Subject: [PATCH 38/39] fix: a field edit that runs out of memory leaves the
 old value

---
 include/boost/astronomy/io/column_data.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/column_data.hpp b/include/boost/astronomy/io/column_data.hpp
index 13132f3..30819a5 100644
--- a/include/boost/astronomy/io/column_data.hpp
+++ b/include/boost/astronomy/io/column_data.hpp
@@ -15,6 +15,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <unordered_map>
 #include <sstream>
 #include <typeinfo>
+#include <utility>
 #include <boost/static_assert.hpp>
 #include <boost/variant.hpp>
 #include <boost/astronomy/io/column.hpp>
@@ -52,8 +53,10 @@ public:
      * @param[in] value Replacement value for the old value
     */
     DataType operator = (DataType value)  {
+        // Copied first, so that nothing can fail once the table holds the new value
+        DataType new_value(value);
         this->callback_ptr->update_value(index, value);
-        this->value = value;
+        this->value = std::move(new_value);
         return value;
     }
 
@@ -64,8 +67,9 @@ public:
      * @param[in] other Proxy of the field whose value is to be stored
     */
     Proxy& operator = (const Proxy& other) {
+        DataType new_value(other.value);
         this->callback_ptr->update_value(index, other.value);
-        this->value = other.value;
+        this->value = std::move(new_value);
         return *this;
     }
 };
-- 
2.43.0


From 4fe14ff8b67ee142c74d3d3ecd0114b9cc54f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:16 +0000
Subject: [PATCH 39/39] fix: galactic to equatorial matrix is the inverse of
 equatorial to galactic

galactic_to_ra_dec had the elements of its inverse with some signs changed
instead of the transpose, so converting there and back gave another place.
---
 .../boost/astronomy/coordinate/utility/utility.hpp   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 685066c..4b6454f 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -228,13 +228,13 @@ struct galactic_to_ra_dec
 
   galactic_to_ra_dec(){
     conv(0,0) = -0.0669887;
-    conv(0,1) = 0.8727558;
-    conv(0,2) = -0.4835389;
-    conv(1,0) = -0.4927285;
+    conv(0,1) = 0.4927285;
+    conv(0,2) = -0.8676008;
+    conv(1,0) = -0.8727558;
     conv(1,1) = -0.4503470;
-    conv(1,2) = -0.7445846;
-    conv(2,0) = -0.8676008;
-    conv(2,1) = 0.1883746;
+    conv(1,2) = -0.1883746;
+    conv(2,0) = -0.4835389;
+    conv(2,1) = 0.7445846;
     conv(2,2) = 0.4601998;
   }
 
-- 
2.43.0


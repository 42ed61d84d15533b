From 223e0689e96d7ed3393468283c15cffe1356ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:45 +0000
Subject: [PATCH 01/59] fix: card value is not cut at a slash inside a quoted
 string or commentary text, nor loses the character before the comment

---
 include/boost/astronomy/io/default_card_policy.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index afb075f..8a41d1b 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -214,7 +214,19 @@ public:
      * @param[in] fits_card fits card from where the value needs to be extracted
     */
     std::string extract_value(const std::string& fits_card) const {
-        return fits_card.substr(9, fits_card.find('/') - 10);
+        if (!in_proper_format(fits_card)) { return fits_card.substr(9); }
+
+        // The comment starts at the first slash which is not a part of a quoted string
+        bool quoted = false;
+        std::size_t comment_pos = 10;
+        for (; comment_pos < fits_card.length(); ++comment_pos) {
+            if (fits_card[comment_pos] == '\'') { quoted = !quoted; }
+            else if (fits_card[comment_pos] == '/' && !quoted) { break; }
+        }
+
+        std::string value = fits_card.substr(9, comment_pos - 9);
+        if (comment_pos < fits_card.length() && value.back() == ' ') { value.pop_back(); }
+        return value;
     }
 
 private:
-- 
2.43.0


From 053fa40d86c4401bac1214e47c9bd219d0b466ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:45 +0000
Subject: [PATCH 02/59] fix: complex card values written by the library can be
 read back

---
 include/boost/astronomy/io/default_card_policy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index 8a41d1b..b4ad165 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -130,7 +130,7 @@ public:
         auto space_pos = std::find(value.begin(), value.end(), ' ');
         if (space_pos != value.end()) {
             std::string real_part(value.begin(), space_pos);
-            std::string imag_part(space_pos + 1, value.end());
+            std::string imag_part = boost::trim_copy(std::string(space_pos + 1, value.end()));
 
             return std::complex<T>(parse_to<T>(real_part), parse_to<T>(imag_part));
         }
-- 
2.43.0


From 5d9c512afa47ddf314392b44aed31788b3b9c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:45 +0000
Subject: [PATCH 03/59] fix: commentary cards keep the keyword field eight
 columns wide

---
 include/boost/astronomy/io/card.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 634532a..af30c6e 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -119,7 +119,7 @@ public:
     void create_commentary_card(std::string const& key, std::string const& value)
     {
         if (this->is_key_valid(key)) {
-            std::string card_content = key + "  " + value;
+            std::string card_content = this->format_keyword(key) + " " + value;
             this->card_ = card_content;
             this->card_.append(80 - card_content.length(),' ');
             return;
-- 
2.43.0


From e8c5f4ca113d30b37feebfa58a407cc8781ba3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:40 +0000
Subject: [PATCH 04/59] fix: card strings shorter than 80 characters are
 validated and padded instead of throwing out_of_range

---
 include/boost/astronomy/io/card.hpp                | 1 +
 include/boost/astronomy/io/default_card_policy.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index af30c6e..5a3c8e9 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -61,6 +61,7 @@ public:
     {
         if (this->is_card_valid(fits_card)) {
             this->card_ = fits_card;
+            this->card_.append(80 - fits_card.length(), ' ');
         }
         else {
             throw invalid_card();
diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index b4ad165..d8a4ac7 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -242,7 +242,7 @@ private:
      * @brief Checks whether the card follows the standard specification for cards with non reserved keywords
     */
     bool in_proper_format(const std::string& fits_card)const {
-        return fits_card.substr(8, 2) == "= ";
+        return fits_card.length() >= 10 && fits_card.compare(8, 2, "= ") == 0;
     }
 
     /**
-- 
2.43.0


From f00301150ffb84c814779fb2413481276b7c7922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:40 +0000
Subject: [PATCH 05/59] fix: reading a card whose value is a lone quote does
 not build a string from a reversed range

---
 include/boost/astronomy/io/card.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 5a3c8e9..489476a 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -236,7 +236,7 @@ private:
     */
     std::string value_imp(boost::type<std::string>) const {
         std::string val = boost::algorithm::trim_copy(this->extract_value(this->card_));
-        if (val[0] == '\'') {
+        if (val.length() > 1 && val[0] == '\'') {
             return boost::algorithm::trim_copy(std::string(val.begin() + 1, val.end() - 1));
         }
         else {
-- 
2.43.0


From 660b6bfdbb88178f17d46879b266fd5914faa860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:40 +0000
Subject: [PATCH 06/59] fix: a card value can be read as more than one type

---
 include/boost/astronomy/io/card.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 489476a..77b3543 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -152,7 +152,8 @@ public:
     template <typename ReturnType>
     ReturnType value() const
     {
-        if (!value_cached()) {
+        // The cache holds the type of the last read/write, any other type is parsed again
+        if (!boost::get<ReturnType>(&card_cache)) {
             card_cache =value_imp(boost::type<ReturnType>());
         }
         return boost::get<ReturnType>(card_cache); 
@@ -191,12 +192,6 @@ public:
     const std::string& raw_card() { return card_; }
 
 private:
-    /**
-     * @brief Checks if the value is internally cached
-    */
-    bool value_cached() const { return card_cache.which() != 0; }
-
-
     /**
      * @brief Creates a card from key, value and comment supplied to the method
     */
-- 
2.43.0


From b40d6b073e37d552cc4b6113fc7bdb54a3faf9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:40 +0000
Subject: [PATCH 07/59] fix: creating a card anew drops the cached value of the
 previous content

---
 include/boost/astronomy/io/card.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 77b3543..2ad4f3e 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -123,6 +123,7 @@ public:
             std::string card_content = this->format_keyword(key) + " " + value;
             this->card_ = card_content;
             this->card_.append(80 - card_content.length(),' ');
+            this->card_cache = boost::blank();
             return;
         }
 
@@ -207,6 +208,7 @@ private:
             }
 
             this->card_.append(80 - this->card_.length(), ' ');
+            this->card_cache = boost::blank();
             return;
         }
 
-- 
2.43.0


From 4f51be231f0a12c5e0f069a467cfef5b8dd020c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:40 +0000
Subject: [PATCH 08/59] fix: set_value keeps the value indicator and the 80
 character length of the card

---
 include/boost/astronomy/io/card.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 2ad4f3e..9bda091 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -182,7 +182,9 @@ public:
             std::string key = this->keyword(true);
             this->card_.clear();
             this->card_.append(key);
+            this->card_.append("= ");
             this->card_.append(serialized_value);
+            this->card_.append(80 - this->card_.length(), ' ');
             card_cache = value;
         }
     }
-- 
2.43.0


From efc24b6bcea08f1bfd51c7d3252655fd03ce2574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:57 +0000
Subject: [PATCH 09/59] fix: the end of a logical record which is already
 reached is not moved by a whole record

---
 include/boost/astronomy/io/fits_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_stream.hpp b/include/boost/astronomy/io/fits_stream.hpp
index 9d41a05..dc10245 100644
--- a/include/boost/astronomy/io/fits_stream.hpp
+++ b/include/boost/astronomy/io/fits_stream.hpp
@@ -148,7 +148,7 @@ namespace boost {namespace astronomy {namespace io {
             std::size_t current_pos = this->file.tellg();
             std::size_t logical_record_size = 2880;
 
-            std::size_t offset = logical_record_size - (current_pos % logical_record_size);
+            std::size_t offset = (logical_record_size - (current_pos % logical_record_size)) % logical_record_size;
             std::size_t newpos = (current_pos + offset);
             return newpos;
         }
-- 
2.43.0


From 5478649c947a70f4c01ec477238d9d6d30958840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:57 +0000
Subject: [PATCH 10/59] fix: a header without BITPIX, NAXIS or NAXISn is
 reported instead of reading the first card

---
 include/boost/astronomy/io/header.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 76dcb7e..dcb27e4 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -92,7 +92,7 @@ public:
         }
         //finding and storing bitpix value
 
-        switch (cards[key_index["BITPIX"]]. template value<int>())
+        switch (cards[key_index.at("BITPIX")]. template value<int>())
         {
         case 8:
             this->bitpix_value = io::bitpix::B8;
@@ -115,13 +115,13 @@ public:
         }
 
         //setting naxis values
-        std::size_t total_dimensions = cards[key_index["NAXIS"]].template value<std::size_t>();
+        std::size_t total_dimensions = cards[key_index.at("NAXIS")].template value<std::size_t>();
         naxis_.reserve(total_dimensions);
 
         for (std::size_t i = 1; i <= total_dimensions; i++)
         {
-            naxis_.emplace_back(cards[key_index["NAXIS" +
-                boost::lexical_cast<std::string>(i)]].template value<std::size_t>());
+            naxis_.emplace_back(cards[key_index.at("NAXIS" +
+                boost::lexical_cast<std::string>(i))].template value<std::size_t>());
         }
 
     }
-- 
2.43.0


From c75cad6d93187d47d5d2f2fe7c86663fbfefc61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:57 +0000
Subject: [PATCH 11/59] fix: reading a header from a file which ends before the
 END card terminates

---
 include/boost/astronomy/io/header.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index dcb27e4..39bcee0 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -77,6 +77,9 @@ public:
         //reading file card by card until END card is found
         while (true)
         {
+            //a file which ends before the END card does not contain a header
+            if (file_reader.at_end()) { throw fits_exception(); }
+
             //read from file and create push card into the vector
             card_buffer = file_reader.read(80);
             cards.emplace_back(card_buffer);
-- 
2.43.0


From 7edbf003d97c6eb653634860ff2d5cd5ef61243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:57 +0000
Subject: [PATCH 12/59] fix: reading a header anew replaces the previous one

---
 include/boost/astronomy/io/header.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 39bcee0..5e0d584 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -71,6 +71,11 @@ public:
     template<typename FileReader>
     void read_header(FileReader& file_reader) {
 
+        //forget the header which was read previously
+        cards.clear();
+        key_index.clear();
+        naxis_.clear();
+
         cards.reserve(36); //reserves the space of atleast 1 HDU unit
         std::string card_buffer;
 
-- 
2.43.0


From 2b75e017e494b0692013022841010652e647c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:58 +0000
Subject: [PATCH 13/59] fix: asking for the length of an axis which does not
 exist is reported

---
 include/boost/astronomy/io/header.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index 5e0d584..f9e296e 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -205,7 +205,7 @@ public:
     */
     std::size_t naxis(std::size_t n = 0) const
     {
-        return this->naxis_[n - 1]; // 1 Based indexing
+        return this->naxis_.at(n - 1); // 1 Based indexing
     }
 
     /**
-- 
2.43.0


From e761402374fc66ea5c9a9cc1f1c7439db6329c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:58 +0000
Subject: [PATCH 14/59] fix: asking for the name of an HDU does not change the
 header

---
 include/boost/astronomy/io/header.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/header.hpp b/include/boost/astronomy/io/header.hpp
index f9e296e..c22d12c 100644
--- a/include/boost/astronomy/io/header.hpp
+++ b/include/boost/astronomy/io/header.hpp
@@ -160,8 +160,7 @@ public:
         // Check if its a extension
         try {
 
-            hdu_name = value_of < std::string>("XTENSION");
-            return hdu_name;
+            return value_of < std::string>("XTENSION");
         }
         catch (...) {}
 
-- 
2.43.0


From 5df068d024d3b5a0e57c663a950b023b0a7c7961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:06 +0000
Subject: [PATCH 15/59] fix: the elements of an array of descriptors do not
 overlap when they are read

---
 include/boost/astronomy/io/binary_data_converter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/binary_data_converter.hpp b/include/boost/astronomy/io/binary_data_converter.hpp
index 10466ce..d2829ae 100644
--- a/include/boost/astronomy/io/binary_data_converter.hpp
+++ b/include/boost/astronomy/io/binary_data_converter.hpp
@@ -325,9 +325,9 @@ namespace boost{namespace astronomy{namespace io{
         for (std::size_t i = 0; i < num_elements; i++) {
             values.emplace_back(
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i)),
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i)),
                 boost::endian::big_to_native(
-                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + i +
+                    *(reinterpret_cast<const boost::int32_t*>(elements.c_str()) + 2 * i +
                         1)));
         }
         return values;
-- 
2.43.0


From 32a05db2ceae8e809cee754567e7e26eeb298ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:06 +0000
Subject: [PATCH 16/59] fix: pixels of 8 bit images are unsigned and are read
 instead of being replaced by zero

---
 include/boost/astronomy/io/bitpix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/bitpix.hpp b/include/boost/astronomy/io/bitpix.hpp
index 855fd53..143799e 100644
--- a/include/boost/astronomy/io/bitpix.hpp
+++ b/include/boost/astronomy/io/bitpix.hpp
@@ -64,7 +64,7 @@ enum class bitpix
 
  template<>
  struct bitpix_type<bitpix::B8> {
-     typedef typename boost::int8_t underlying_type;
+     typedef typename boost::uint8_t underlying_type;
  };
 
  template<>
-- 
2.43.0


From dd2efd4ab3e1688b91c942d40115716ad256cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:06 +0000
Subject: [PATCH 17/59] fix: bit array fields of binary tables take one byte
 for every eight bits

---
 include/boost/astronomy/io/binary_table.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index b43218b..a863b59 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -159,6 +159,8 @@ public:
                         });
         auto no_of_elements = element_count(form);
         auto size_type = type_size(get_type(form));
+        // Bit arrays are packed, eight bits in a byte
+        if (get_type(form) == 'X') { return (no_of_elements + 7) / 8; }
         return no_of_elements * size_type;
     }
 
-- 
2.43.0


From 40a09828dbc71341a3b2674d775a6ecefd10a1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:06 +0000
Subject: [PATCH 18/59] fix: binary table fields keep bytes which look like
 white space

---
 include/boost/astronomy/io/binary_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index a863b59..00511da 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -342,7 +342,7 @@ private:
             starting_offset = ending_offset;
             ending_offset = starting_offset + column_size(this->col_metadata_[current_column].TFORM());
 
-            this->tb_data[current_row][current_column++] = boost::algorithm::trim_copy(std::string(starting_offset, ending_offset));
+            this->tb_data[current_row][current_column++] = std::string(starting_offset, ending_offset);
             if (current_column % this->tfields_ == 0) {
                 current_row++;
                 current_column = 0;
-- 
2.43.0


From e5cbdcf9c8340699aa360bf63a63266c2e5aba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:43 +0000
Subject: [PATCH 19/59] fix: binary tables whose fields do not fill the rows or
 the data are reported instead of reading outside of the data

---
 include/boost/astronomy/io/binary_table.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 00511da..b785436 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -334,6 +334,11 @@ private:
         auto current_column = 0;
 
 
+        std::size_t row_size = 0;
+        for (auto& field : this->col_metadata_) { row_size += column_size(field.TFORM()); }
+        if (row_size != total_characters_per_row) { throw fits_exception(); }
+        if (total_rows != 0 && (row_size == 0 || data_buffer.size() / total_rows < row_size)) { throw fits_exception(); }
+
         auto starting_offset = data_buffer.begin();
         auto ending_offset = starting_offset;
 
-- 
2.43.0


From 90e04fc3a00c949fc6481c4d27cca645186f850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:43 +0000
Subject: [PATCH 20/59] fix: writing a binary table whose field has a wrong
 size is reported instead of shifting the fields after it

---
 include/boost/astronomy/io/binary_table.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index b785436..b1769ce 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -126,6 +126,7 @@ public:
             std::string row_temp_buffer = "";
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
+                if (this->tb_data[row][col].length() != column_size(this->col_metadata_[col].TFORM())) { throw column_exception(); }
                 row_temp_buffer += this->tb_data[row][col];
             }
 
-- 
2.43.0


From 8862753d5225c46c0f4831b50550e97d79facb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:43 +0000
Subject: [PATCH 21/59] fix: binary data units are filled with zeros as the
 FITS standard requires

---
 include/boost/astronomy/io/binary_table.hpp    | 2 +-
 include/boost/astronomy/io/image_extension.hpp | 2 +-
 include/boost/astronomy/io/primary_hdu.hpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index b1769ce..4884a22 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -135,7 +135,7 @@ public:
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
 
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
     /**
diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index 4936c9c..c5efe73 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -85,7 +85,7 @@ public:
         file_writer.write(image_data);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
 private:
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index de5da45..3918356 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -94,7 +94,7 @@ public:
         file_writer.write(image_data);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
-        file_writer.write(std::string(logical_record_end_pos - current_write_pos, ' '));
+        file_writer.write(std::string(logical_record_end_pos - current_write_pos, '\0'));
     }
 
 
-- 
2.43.0


From 47668c3d922a30a0c3eea4f33345902dd567e733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:43 +0000
Subject: [PATCH 22/59] fix: ASCII tables are written with every field at its
 column and rows of full length

---
 include/boost/astronomy/io/ascii_table.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 023711b..ac37b69 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -147,12 +147,13 @@ public:
 
         for (int row = 0; row < this->tb_data.size(); row++) {
 
-            std::string row_temp_buffer = "";
+            std::string row_temp_buffer(this->hdu_header.naxis(1), ' ');
 
             for (int col = 0; col < this->tb_data[row].size(); col++) {
-                std::string padding = std::string(this->column_size(this->col_metadata_[col].TFORM())-this->tb_data[row][col].length(),' ');
-                std::string final_data = padding + this->tb_data[row][col];
-                row_temp_buffer += final_data;
+                auto field_size = this->column_size(this->col_metadata_[col].TFORM());
+                auto data_size = this->tb_data[row][col].length();
+                if (data_size > field_size) { throw column_exception(); }
+                row_temp_buffer.replace(this->col_metadata_[col].TBCOL() - 1 + field_size - data_size, data_size, this->tb_data[row][col]);
             }
             file_writer.write(row_temp_buffer);
         }
-- 
2.43.0


From add9664383a522ad70de66f76b45a0018f9f188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:43 +0000
Subject: [PATCH 23/59] fix: ASCII tables whose fields lie outside of the rows
 or the data are reported instead of reading outside of the data

---
 include/boost/astronomy/io/ascii_table.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index ac37b69..0ae64b6 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -250,6 +250,11 @@ private:
         auto current_row = 0;
         auto current_column = 0;
 
+        for (auto& field : this->col_metadata_) {
+            if (field.TBCOL() < 1 || field.TBCOL() - 1 + this->column_size(field.TFORM()) > total_characters_per_row) { throw fits_exception(); }
+        }
+        if (total_rows != 0 && (total_fields == 0 || data_buffer.size() / total_rows < total_characters_per_row)) { throw fits_exception(); }
+
         while(current_row< total_rows) {
             auto starting_offset = data_buffer.begin()+ current_row * total_characters_per_row + this->col_metadata_[current_column].TBCOL() - 1;
             auto ending_offset = starting_offset + this->column_size(this->col_metadata_[current_column].TFORM());
-- 
2.43.0


From a18948c3285c6eef9ca1a8d959675964aa930d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:43 +0000
Subject: [PATCH 24/59] fix: columns of a table whose data is set anew show the
 new data

---
 include/boost/astronomy/io/ascii_table.hpp  | 2 ++
 include/boost/astronomy/io/binary_table.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 0ae64b6..1065519 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -71,6 +71,8 @@ public:
      * @param[in]  data_buffer Data of ASCII Table
     */
     void set_data(const std::string& data_buffer) {
+        this->cached_columns.clear();
+        this->tb_data.clear();
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
         set_ascii_table_info(data_buffer);
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 4884a22..11980d6 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -143,6 +143,8 @@ public:
      * @param[in]  data_buffer Data of Binary Table
     */
     void set_data(const std::string& data_buffer) {
+        this->cached_columns.clear();
+        this->tb_data.clear();
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
         set_binary_table_info(data_buffer);
-- 
2.43.0


From bb7c50ddc2a5ba4bc741a067b9a7a75ad0af8ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:43 +0000
Subject: [PATCH 25/59] fix: copies of a table do not share the column views of
 the original

---
 include/boost/astronomy/io/ascii_table.hpp  | 14 ++++++++++++++
 include/boost/astronomy/io/binary_table.hpp | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index 1065519..f2c7e9a 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -57,6 +57,20 @@ public:
     */
     basic_ascii_table() {}
 
+    /**
+     * @brief      Copies the table, the column views of the other table are not shared
+    */
+    basic_ascii_table(basic_ascii_table const& other) : table_extension<CardPolicy>(other) {}
+
+    /**
+     * @brief      Assigns the table, the column views of the other table are not shared
+    */
+    basic_ascii_table& operator=(basic_ascii_table const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        this->cached_columns.clear();
+        return *this;
+    }
+
     /**
      * @brief      Constructs an ASCII Table object from header and data buffer
      * @param[in]  other Header part of ASCII table
diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 11980d6..068b886 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -79,6 +79,20 @@ public:
     */
     basic_binary_table_extension() {}
 
+    /**
+     * @brief      Copies the table, the column views of the other table are not shared
+    */
+    basic_binary_table_extension(basic_binary_table_extension const& other) : table_extension<CardPolicy>(other) {}
+
+    /**
+     * @brief      Assigns the table, the column views of the other table are not shared
+    */
+    basic_binary_table_extension& operator=(basic_binary_table_extension const& other) {
+        table_extension<CardPolicy>::operator=(other);
+        this->cached_columns.clear();
+        return *this;
+    }
+
     
     /**
     * @brief      Constructs an Binary Table object from header and data buffer
-- 
2.43.0


From 957b756914857eed20062249cc6dfe8bea3c94a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:18 +0000
Subject: [PATCH 26/59] fix: column metadata without a value in the header is
 initialised

---
 include/boost/astronomy/io/column.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/column.hpp b/include/boost/astronomy/io/column.hpp
index e374b12..c7beee8 100644
--- a/include/boost/astronomy/io/column.hpp
+++ b/include/boost/astronomy/io/column.hpp
@@ -39,7 +39,12 @@ public:
     /**
      * @brief   Constructs a standalone object of column structure
     */
-    column(){}
+    column():column(0, "")
+    {
+        // Default values of the FITS standard
+        scale = 1;
+        zero = 0;
+    }
 
     /**
      * @details     Constructs a column object and sets the value for
@@ -56,7 +61,8 @@ public:
         zero(-1),
         display(""),
         dimension(""),
-        comment_("")
+        comment_(""),
+        total_elem_field(0)
     {}
 
     /**
@@ -72,7 +78,8 @@ public:
         zero(-1),
         display(""),
         dimension(""),
-        comment_("")
+        comment_(""),
+        total_elem_field(0)
     {}
 
     /**
-- 
2.43.0


From af8857ac6934a038e35b524c8d32cdf08c7c7ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:18 +0000
Subject: [PATCH 27/59] fix: files without the optional keywords EXTEND and
 EXTNAME can be read

---
 include/boost/astronomy/io/extension_hdu.hpp | 4 +++-
 include/boost/astronomy/io/primary_hdu.hpp   | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/extension_hdu.hpp b/include/boost/astronomy/io/extension_hdu.hpp
index a2f59f9..efd7048 100644
--- a/include/boost/astronomy/io/extension_hdu.hpp
+++ b/include/boost/astronomy/io/extension_hdu.hpp
@@ -58,7 +58,9 @@ private:
     void set_extension_info() {
         gcount = hdu_header.template value_of<int>("GCOUNT");
         pcount = hdu_header.template value_of<int>("PCOUNT");
-        extname = hdu_header.template value_of<std::string>("EXTNAME");
+        if (hdu_header.contains_keyword("EXTNAME")) {
+            extname = hdu_header.template value_of<std::string>("EXTNAME");
+        }
     }
 };
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index 3918356..1ffcd2f 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -125,7 +125,7 @@ private:
     void init_primary_hdu() {
 
         simple = hdu_header.template value_of<bool>("SIMPLE");
-        extend = hdu_header.template value_of<bool>("EXTEND");
+        extend = hdu_header.contains_keyword("EXTEND") && hdu_header.template value_of<bool>("EXTEND");
     }
 
     /**
-- 
2.43.0


From d841be23de8e15814da984d6622141371a4bc19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:02 +0000
Subject: [PATCH 28/59] fix: values of text columns of ASCII tables can be
 changed

---
 include/boost/astronomy/io/string_conversion_utility.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 632d624..9c8dcb9 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -60,6 +60,11 @@ namespace boost{namespace astronomy{namespace io{
                     });
         }
 
+        /**
+         * @brief Overloaded case for text, which is its own serialized form
+        */
+        static std::string serialize(const std::string& value) { return value; }
+
     };
 
 
-- 
2.43.0


From 2fa45c3a3c3ba18e16c02a0ca48fa5e92734ded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:50 +0000
Subject: [PATCH 29/59] fix: asking for the pixels of an image as another pixel
 type is reported instead of using a null pointer

---
 include/boost/astronomy/io/image_extension.hpp | 2 +-
 include/boost/astronomy/io/primary_hdu.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index c5efe73..915f1f5 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -66,7 +66,7 @@ public:
     */
 
     template<bitpix DT>
-    image<DT,Converter> get_data() const { return *boost::get<image<DT,Converter>>(&this->data); }
+    image<DT,Converter> get_data() const { return boost::get<image<DT,Converter>>(this->data); }
 
 
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index 1ffcd2f..b2b2b7e 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -78,7 +78,7 @@ public:
     */
 
     template<bitpix DT>
-    image<DT,Converter> get_data() const { return *boost::get<image<DT,Converter>>(&this->data); }
+    image<DT,Converter> get_data() const { return boost::get<image<DT,Converter>>(this->data); }
 
     /**
      * @brief Writes the entire HDU ( header, image_data ) into the file
-- 
2.43.0


From 2e8468885c550bc9be4c9160594e4ed2ed6ce1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:41 +0000
Subject: [PATCH 30/59] fix: pixels of an image which was read from a file are
 found by their position

---
 include/boost/astronomy/io/image.hpp          | 21 ++++++++++++++++---
 .../boost/astronomy/io/image_extension.hpp    |  2 +-
 include/boost/astronomy/io/primary_hdu.hpp    |  2 +-
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/boost/astronomy/io/image.hpp b/include/boost/astronomy/io/image.hpp
index 02ee8d3..1614316 100644
--- a/include/boost/astronomy/io/image.hpp
+++ b/include/boost/astronomy/io/image.hpp
@@ -14,6 +14,7 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <iterator>
 #include <cstdint>
 #include <string>
+#include <vector>
 #include <cmath>
 #include <numeric>
 #include <valarray>
@@ -50,7 +51,7 @@ public:
     /**
      * @brief       Constructs an standalone object of image_buffer
     */
-    image_buffer() {}
+    image_buffer() : width_(0), height_(0) {}
 
     /**
      * @brief       Constructs an image_buffer object by allocating width*height space for buffer
@@ -149,6 +150,16 @@ public:
         return this->data_[(x*this->width_) + y];
     }
 
+    /**
+     * @brief       Sets the width and height of the image from the lengths of its axes
+     * @param[in]   axes Number of pixels along every axis, the first one varies fastest
+    */
+    void set_dimensions(const std::vector<std::size_t>& axes)
+    {
+        this->width_ = axes.size() > 0 ? axes[0] : 0;
+        this->height_ = axes.size() > 1 ? axes[1] : axes.size();
+    }
+
     /**
      * @brief       Returns the size of image
     */
@@ -163,11 +174,15 @@ public:
 struct read_image_visitor :public boost::static_visitor<> {
 
     const std::string& data_buffer;
+    std::vector<std::size_t> axes;
 
-    read_image_visitor(const std::string& data_buf) :data_buffer(data_buf) {}
+    read_image_visitor(const std::string& data_buf, const std::vector<std::size_t>& naxis = {}) :data_buffer(data_buf), axes(naxis) {}
 
     template<typename Image_Type>
-    void operator()(Image_Type& type) { type.read_image(data_buffer); }
+    void operator()(Image_Type& type) {
+        type.read_image(data_buffer);
+        type.set_dimensions(axes);
+    }
 };
 
 /**
diff --git a/include/boost/astronomy/io/image_extension.hpp b/include/boost/astronomy/io/image_extension.hpp
index 915f1f5..69058df 100644
--- a/include/boost/astronomy/io/image_extension.hpp
+++ b/include/boost/astronomy/io/image_extension.hpp
@@ -94,7 +94,7 @@ private:
      * @param[in] data_buffer Image data in binary form from the file
     */
     void set_image_data(const std::string& data_buffer) {
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer, this->hdu_header.all_naxis());
         boost::apply_visitor(read_image_visit, data);
     }
 
diff --git a/include/boost/astronomy/io/primary_hdu.hpp b/include/boost/astronomy/io/primary_hdu.hpp
index b2b2b7e..6f0945f 100644
--- a/include/boost/astronomy/io/primary_hdu.hpp
+++ b/include/boost/astronomy/io/primary_hdu.hpp
@@ -59,7 +59,7 @@ public:
     basic_primary_hdu( const header<CardPolicy> & other,const std::string& data_buffer):hdu_header(other) {
 
         instantiate_primary_hdu(hdu_header.bitpix());
-        read_image_visitor read_image_visit(data_buffer);
+        read_image_visitor read_image_visit(data_buffer, hdu_header.all_naxis());
         boost::apply_visitor(read_image_visit, data);
         init_primary_hdu();
     }
-- 
2.43.0


From 5eb19f5334fdd0b80a38c0c49a1e0181159b1fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:49 +0000
Subject: [PATCH 31/59] fix: opening another file forgets the HDUs of the
 previous one

---
 include/boost/astronomy/io/fits_reader.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 67b9d43..b3af628 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -81,6 +81,7 @@ namespace boost { namespace astronomy { namespace io {
         void initialize(const std::string& filepath) {
             file_reader.set_file(filepath);
             hdus_control_block.clear();
+            hdu_list.clear();
             hdus_control_block.filepath = filepath;
         }
 
-- 
2.43.0


From 212d8c08576d804fcb783c08f834f5b7c5118420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:49 +0000
Subject: [PATCH 32/59] fix: HDUs of the same kind are all counted

---
 include/boost/astronomy/io/fits_reader.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index b3af628..5723c9d 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -31,12 +31,13 @@ namespace boost { namespace astronomy { namespace io {
             info(std::size_t header_loc, std::size_t data_loc, std::size_t index, std::size_t status) :header_location(header_loc),data_location(data_loc), hdu_index(index), read_status(status) {}
         };
         std::map<std::string, info> hdus_info;
+        std::size_t hdu_count = 0; //! HDUs of the same name share an entry in hdus_info
 
         /**
          * @brief Returns the total number of HDU's present in file
         */
         std::size_t total_hdus() {
-            return hdus_info.size();
+            return hdu_count;
         }
 
         /**
@@ -45,7 +46,7 @@ namespace boost { namespace astronomy { namespace io {
         void clear() {
             filepath.clear();
             hdus_info.clear();
-
+            hdu_count = 0;
         }
     };
 
@@ -99,6 +100,7 @@ namespace boost { namespace astronomy { namespace io {
                 auto hdu_instance = ExtensionsSupported::construct_hdu(hdu_header, "");
 
                 hdu_list.push_back(hdu_instance);
+                hdus_control_block.hdu_count = hdu_list.size();
 
                 if (hdu_header.data_size() != 0) {
 
@@ -124,6 +126,7 @@ namespace boost { namespace astronomy { namespace io {
                 hdus_control_block.hdus_info[hdu_header.get_hdu_name()] = control_block::info(header_loc,data_loc, hdu_list.size(), false);
                 auto hdu_instance = ExtensionsSupported::construct_hdu(hdu_header, hdu_data);
                 hdu_list.push_back(hdu_instance);
+                hdus_control_block.hdu_count = hdu_list.size();
             }
         }
 
-- 
2.43.0


From 418c581a291f3c33730b531137b14b4cf0a18aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:49 +0000
Subject: [PATCH 33/59] fix: a file which ends inside of a data unit is
 reported

---
 include/boost/astronomy/io/fits_reader.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 5723c9d..4e488d2 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -200,6 +200,9 @@ namespace boost { namespace astronomy { namespace io {
                 auto total_elements = hdu_header.data_size();
                 auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
                 std::string data_buffer = file_reader.read(total_elements * element_size);
+                if (file_reader.get_current_pos() == static_cast<std::size_t>(-1)) {
+                    throw file_reading_exception("File ends before the end of the data");
+                }
                 file_reader.set_unit_end();
                 return data_buffer;
             }
-- 
2.43.0


From a9ca22248633ca6c541e471512c8ed27367fed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:49 +0000
Subject: [PATCH 34/59] fix: the HDU after a table with a heap is found

---
 include/boost/astronomy/io/fits_reader.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 4e488d2..524a3df 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -107,6 +107,7 @@ namespace boost { namespace astronomy { namespace io {
                     auto total_elements = hdu_header.data_size();
                     auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
                     file_reader.set_reading_pos(file_reader.get_current_pos() + (total_elements*element_size));
+                    skip_heap(hdu_header);
                     file_reader.set_unit_end();
                 }
             }
@@ -188,6 +189,17 @@ namespace boost { namespace astronomy { namespace io {
             return hdu_header;
         }
 
+        /**
+         * @brief Moves over the bytes (PCOUNT) which follow the main data array in the data unit of an extension
+         * @param[in] hdu_header Header information related to the current HDU
+        */
+        void skip_heap(typename ExtensionsSupported::header_type& hdu_header) {
+            if (hdu_header.contains_keyword("XTENSION") && hdu_header.contains_keyword("PCOUNT")) {
+                auto heap_elements = hdu_header.template value_of<std::size_t>("PCOUNT");
+                file_reader.set_reading_pos(file_reader.get_current_pos() + heap_elements * get_element_size_from_bitpix(hdu_header.bitpix()));
+            }
+        }
+
         /**
          * @brief Extracts the data associated with a perticular HDU from the FITS file
          * @param[in] hdu_header Header information related to the current HDU
@@ -203,6 +215,7 @@ namespace boost { namespace astronomy { namespace io {
                 if (file_reader.get_current_pos() == static_cast<std::size_t>(-1)) {
                     throw file_reading_exception("File ends before the end of the data");
                 }
+                skip_heap(hdu_header);
                 file_reader.set_unit_end();
                 return data_buffer;
             }
-- 
2.43.0


From 499d8cae56be6a6b35ac47a7e06db873310caa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:49 +0000
Subject: [PATCH 35/59] fix: writing to a file which cannot be created is
 reported

---
 include/boost/astronomy/io/fits_reader.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 524a3df..d7a876f 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -138,7 +138,9 @@ namespace boost { namespace astronomy { namespace io {
         */
         void write_to(const std::string& file_path) {
             FileReader file_writer;
-            file_writer.create_file(file_path);
+            if (!file_writer.create_file(file_path)) {
+                throw file_reading_exception("Cannot Create File");
+            }
             typename ExtensionsSupported::template writer_visitor<FileReader> writer_visitor(file_writer);
 
             for (auto& hdu : hdu_list) {
-- 
2.43.0


From 76daf499fa18be8c7a7a9d908cc14b49e04b0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 36/59] fix: a commentary text which does not fit on the card
 is refused and leaves the card as it was

---
 include/boost/astronomy/io/card.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/card.hpp b/include/boost/astronomy/io/card.hpp
index 9bda091..a237108 100644
--- a/include/boost/astronomy/io/card.hpp
+++ b/include/boost/astronomy/io/card.hpp
@@ -119,7 +119,7 @@ public:
     */
     void create_commentary_card(std::string const& key, std::string const& value)
     {
-        if (this->is_key_valid(key)) {
+        if (this->is_key_valid(key) && value.length() <= 71) {
             std::string card_content = this->format_keyword(key) + " " + value;
             this->card_ = card_content;
             this->card_.append(80 - card_content.length(),' ');
-- 
2.43.0


From 5cfb76a6b65fa64347d54e19c861dc014824a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:23 +0000
Subject: [PATCH 37/59] fix: the unit vector of a vector with components in
 different units is one unit long and keeps the direction

---
 include/boost/astronomy/coordinate/arithmetic.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/arithmetic.hpp b/include/boost/astronomy/coordinate/arithmetic.hpp
index 2a4b024..3984d03 100644
--- a/include/boost/astronomy/coordinate/arithmetic.hpp
+++ b/include/boost/astronomy/coordinate/arithmetic.hpp
@@ -342,15 +342,19 @@ unit_vector(cartesian_representation<Args...> const& vector)
         bg::cs::cartesian
     > tempPoint;
     auto mag = magnitude(vector); //magnitude of vector
+    //length of the result: one unit of the first component
+    decltype(mag) length = 1.0 * typename cartesian_representation<Args...>::quantity1::unit_type();
 
     //performing calculations to find unit vector
     bg::set<0>(tempPoint, vector.get_x().value() / mag.value());
     bg::set<1>(tempPoint,
         vector.get_y().value() /
-        static_cast<typename cartesian_representation<Args...>::quantity2>(mag).value());
+        static_cast<typename cartesian_representation<Args...>::quantity2>(mag).value() *
+        static_cast<typename cartesian_representation<Args...>::quantity2>(length).value());
     bg::set<2>(tempPoint,
         vector.get_z().value() /
-        static_cast<typename cartesian_representation<Args...>::quantity3>(mag).value());
+        static_cast<typename cartesian_representation<Args...>::quantity3>(mag).value() *
+        static_cast<typename cartesian_representation<Args...>::quantity3>(length).value());
 
     return cartesian_representation<Args...>(tempPoint);
 }
-- 
2.43.0


From f197574c9e90016eb0730661af93363356199efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:56 +0000
Subject: [PATCH 38/59] fix: coordinates of the sky can be made from two angles
 in different units

---
 .../astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp    | 4 ++--
 .../astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp    | 4 ++--
 .../boost/astronomy/coordinate/coord_sys/galactic_coord.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
index efd18b4..9035981 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ha_coord.hpp
@@ -153,8 +153,8 @@ template
 equatorial_ha_coord
 <
     CoordinateType,
-    Declination<Unit1, CoordinateType>,
-    HourAngleQuantity<Unit2, CoordinateType>
+    HourAngleQuantity<Unit2, CoordinateType>,
+    Declination<Unit1, CoordinateType>
 > make_equatorial_ha_coord
 (
     HourAngleQuantity<Unit2, CoordinateType> const &Ha,
diff --git a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
index 974e921..56d579e 100644
--- a/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/equatorial_ra_coord.hpp
@@ -151,8 +151,8 @@ template
 equatorial_ra_coord
 <
   CoordinateType,
-  Declination<Unit1, CoordinateType>,
-  RightAscensionQuantity<Unit2, CoordinateType>
+  RightAscensionQuantity<Unit2, CoordinateType>,
+  Declination<Unit1, CoordinateType>
 > make_equatorial_ra_coord
 (
     RightAscensionQuantity<Unit2, CoordinateType> const &Ra,
diff --git a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
index 9b75d39..f593c60 100644
--- a/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/galactic_coord.hpp
@@ -154,8 +154,8 @@ template
 galactic_coord
 <
     CoordinateType,
-    LonQuantity<Unit1, CoordinateType>,
-    LatQuantity<Unit2, CoordinateType>
+    LatQuantity<Unit2, CoordinateType>,
+    LonQuantity<Unit1, CoordinateType>
 > make_galactic_coord
 (
         LatQuantity<Unit2, CoordinateType> const &Lat,
-- 
2.43.0


From f9eaf985c515c5c1a771afe63eecaf3f104be7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:56 +0000
Subject: [PATCH 39/59] fix: the matrix from galactic to equatorial coordinates
 is the inverse of the one from equatorial to galactic

---
 .../boost/astronomy/coordinate/utility/utility.hpp   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 685066c..4b6454f 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -228,13 +228,13 @@ struct galactic_to_ra_dec
 
   galactic_to_ra_dec(){
     conv(0,0) = -0.0669887;
-    conv(0,1) = 0.8727558;
-    conv(0,2) = -0.4835389;
-    conv(1,0) = -0.4927285;
+    conv(0,1) = 0.4927285;
+    conv(0,2) = -0.8676008;
+    conv(1,0) = -0.8727558;
     conv(1,1) = -0.4503470;
-    conv(1,2) = -0.7445846;
-    conv(2,0) = -0.8676008;
-    conv(2,1) = 0.1883746;
+    conv(1,2) = -0.1883746;
+    conv(2,0) = -0.4835389;
+    conv(2,1) = 0.7445846;
     conv(2,2) = 0.4601998;
   }
 
-- 
2.43.0


From 3e208dd9d87a23f80d9175b3b93124d99443dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:56 +0000
Subject: [PATCH 40/59] fix: coordinates of unit vectors at the poles are not
 lost by rounding

---
 include/boost/astronomy/coordinate/utility/utility.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/utility/utility.hpp b/include/boost/astronomy/coordinate/utility/utility.hpp
index 4b6454f..b52bd24 100644
--- a/include/boost/astronomy/coordinate/utility/utility.hpp
+++ b/include/boost/astronomy/coordinate/utility/utility.hpp
@@ -296,7 +296,8 @@ struct extract_coordinates{
     double p = column_vector(2,0);
 
     theta = atan2(n,m);
-    phi = asin(p);
+    //the third component of a unit vector can exceed one by rounding
+    phi = asin(p > 1 ? 1 : p < -1 ? -1 : p);
   }
 
   pair<angle_radian,angle_radian> get_coordinates() const{
-- 
2.43.0


From c98b1606dc87f55b3fc9e03b999fd2ba1193a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:56 +0000
Subject: [PATCH 41/59] fix: a decimal hour made from hours, minutes and
 seconds knows them

---
 include/boost/astronomy/time/parser.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/astronomy/time/parser.hpp b/include/boost/astronomy/time/parser.hpp
index 926bf7c..8ace2b8 100644
--- a/include/boost/astronomy/time/parser.hpp
+++ b/include/boost/astronomy/time/parser.hpp
@@ -38,6 +38,13 @@ public:
 
     decimal_hour(double const& h,double const& m,double const& s){
       dh = h + m/60 + s/(60*60);
+
+      time = dh;
+      hours = (long int)h;
+      minutesRemainder = (h - hours) * 60 + m;
+      minutes = (long int)minutesRemainder;
+      secondsRemainder = (minutesRemainder - minutes) * 60 + s;
+      seconds = secondsRemainder;
     }
 
     double get() const{
-- 
2.43.0


From dc7bce0b5791e99a42c9c165d8902e267212d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:56 +0000
Subject: [PATCH 42/59] fix: the last days of the Julian calendar are not taken
 for days of the Gregorian calendar

---
 include/boost/astronomy/time/time_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index ca35717..77483d0 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -56,7 +56,7 @@ double julian_date(boost::posix_time::ptime t)
 
     //Calculate B, check if the date is later than 1582 October 15
     double B;
-    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 1);
+    boost::gregorian::date dt1(1582, boost::gregorian::Oct , 4);
     if ( dt > dt1 )
     {
         double A = floor(yprime / 100);
-- 
2.43.0


From a7f38207869365449da8070d1600e62325e86d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:57 +0000
Subject: [PATCH 43/59] fix: sidereal time takes fractions of a second into
 account

---
 include/boost/astronomy/time/time_conversions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/time/time_conversions.hpp b/include/boost/astronomy/time/time_conversions.hpp
index 77483d0..b7339b7 100644
--- a/include/boost/astronomy/time/time_conversions.hpp
+++ b/include/boost/astronomy/time/time_conversions.hpp
@@ -104,7 +104,7 @@ decimal_hour GST(boost::posix_time::ptime t)
     T0 = T0 - 24.0 * floor(T0/24.0);
 
     //Convert UT to decimal hours
-    double UT = ((t.time_of_day().seconds())/60.0 + t.time_of_day().minutes())/60.0 + t.time_of_day().hours();
+    double UT = t.time_of_day().total_microseconds() / 3600000000.0;
 
     //Multiply UT by 1.002737909
     double A = UT * 1.002737909;
-- 
2.43.0


From 458602a2cdf32338172c8a86c400983d54d8cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:36 +0000
Subject: [PATCH 44/59] fix: add the motion a coslat differential stands for,
 not its angle times cos(lat)

---
 .../coordinate/diff/spherical_coslat_differential.hpp          | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index 9c0ab4f..51d1bd6 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -243,8 +243,7 @@ public:
     >
     operator +(Addend const& addend) const
     {
-        auto cartesian1 = make_cartesian_differential
-            <CoordinateType, DistQuantity, DistQuantity, DistQuantity>(this->diff);
+        auto cartesian1 = make_cartesian_differential(*this);
         auto cartesian2 = make_cartesian_differential(addend);
 
         auto temp = cartesian1 + cartesian2;
-- 
2.43.0


From bd25c49ba3a1650a7d11b9ed49d5c1888c33e362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:36 +0000
Subject: [PATCH 45/59] fix: keep the components of a coslat differential that
 is multiplied by a time

---
 .../astronomy/coordinate/diff/spherical_coslat_differential.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index 51d1bd6..13c8b22 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -268,7 +268,7 @@ public:
     {
 
         spherical_coslat_differential
-            <CoordinateType, LatQuantity, LonQuantity, DistQuantity> temp(this->diff);
+            <CoordinateType, LatQuantity, LonQuantity, DistQuantity> temp(*this);
 
         spherical_coslat_differential
         <
-- 
2.43.0


From 019c1f4909babe975c9a7c563603a32b0d15527c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:36 +0000
Subject: [PATCH 46/59] fix: make coslat differentials from the components of
 the other differential

---
 .../coordinate/diff/spherical_coslat_differential.hpp    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
index 13c8b22..b570f78 100644
--- a/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
+++ b/include/boost/astronomy/coordinate/diff/spherical_coslat_differential.hpp
@@ -457,7 +457,14 @@ auto make_spherical_coslat_differential
             bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
             bu::quantity<bu::si::plane_angle, typename spherical_type::type>,
             typename spherical_type::quantity3
-        >(temp.get_differential());
+        >
+        (
+            static_cast<bu::quantity<bu::si::plane_angle, typename spherical_type::type>>
+                (temp.get_dlat()),
+            static_cast<bu::quantity<bu::si::plane_angle, typename spherical_type::type>>
+                (temp.get_dlon()),
+            temp.get_ddist()
+        );
 }
 
 //!constructs cartesian object from spherical_coslat_differential
-- 
2.43.0


From 406f6772e1bbae53cffd55b25056ab402ec5db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:37 +0000
Subject: [PATCH 47/59] fix: cirs keeps its observation time in the member it
 declares

---
 include/boost/astronomy/coordinate/ref_frame/cirs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
index 975a88c..8cd4313 100644
--- a/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/cirs.hpp
@@ -65,12 +65,12 @@ public:
 
     boost::posix_time::ptime get_obs_time() const
     {
-        return this->obstime;
+        return this->obs_time;
     }
 
     void set_obs_time(boost::posix_time::ptime const& time)
     {
-        this->obstime = time;
+        this->obs_time = time;
     }
 };
 
-- 
2.43.0


From 0ad437f6cf4f1adbfb9d2e15fa5e4aff99f4cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:37 +0000
Subject: [PATCH 48/59] fix: the azimuth of alt_az is set from an angle

---
 include/boost/astronomy/coordinate/coord_sys/alt_az.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
index 02d1150..408f738 100644
--- a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
@@ -229,7 +229,7 @@ public:
     }
 
     //!sets value of azimuth component of the coordinate
-    void set_az(typename Representation::quantity3 const& az)
+    void set_az(typename Representation::quantity2 const& az)
     {
         this->data.set_lon(az);
     }
-- 
2.43.0


From e30fcf8d190e8ad8b331de6b2863cccd8bbd4276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:37 +0000
Subject: [PATCH 49/59] fix: frames can be made from every representation and
 differential

---
 .../astronomy/coordinate/coord_sys/alt_az.hpp | 36 ++-----------------
 .../coordinate/coord_sys/galactic.hpp         | 36 ++-----------------
 .../coordinate/coord_sys/supergalactic.hpp    | 36 ++-----------------
 .../ref_frame/base_ecliptic_frame.hpp         | 36 ++-----------------
 .../ref_frame/base_equatorial_frame.hpp       | 36 ++-----------------
 5 files changed, 15 insertions(+), 165 deletions(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
index 408f738..314da70 100644
--- a/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/alt_az.hpp
@@ -73,17 +73,7 @@ public:
          <boost::astronomy::coordinate::base_representation, OtherRepresentation>::value),
          "Invalid representation class");
 
-        auto temp = make_spherical_representation
-            <
-            typename Representation::type,
-            typename Representation::quantity1,
-            typename Representation::quantity2,
-            typename Representation::quantity3,
-            typename OtherRepresentation::type,
-            typename OtherRepresentation::quantity1,
-            typename OtherRepresentation::quantity2,
-            typename OtherRepresentation::quantity3
-            >(representation_data);
+        auto temp = make_spherical_representation(representation_data);
 
         this->data = temp;
     }
@@ -126,30 +116,10 @@ public:
           <boost::astronomy::coordinate::base_differential, OtherDifferential>::value),
             "argument type is expected to be a differential class");
 
-        auto rep_temp = make_spherical_representation
-            <
-            typename Representation::type,
-            typename Representation::quantity1,
-            typename Representation::quantity2,
-            typename Representation::quantity3,
-            typename OtherRepresentation::type,
-            typename OtherRepresentation::quantity1,
-            typename OtherRepresentation::quantity2,
-            typename OtherRepresentation::quantity3
-            >(representation_data);
+        auto rep_temp = make_spherical_representation(representation_data);
         this->data = rep_temp;
 
-        auto dif_temp = make_spherical_coslat_differential
-            <
-            typename Differential::type,
-            typename Differential::quantity1,
-            typename Differential::quantity2,
-            typename Differential::quantity3,
-            typename OtherDifferential::type,
-            typename OtherDifferential::quantity1,
-            typename OtherDifferential::quantity2,
-            typename OtherDifferential::quantity3
-            >(differential_data);
+        auto dif_temp = make_spherical_coslat_differential(differential_data);
         this->motion = dif_temp;
     }
 
diff --git a/include/boost/astronomy/coordinate/coord_sys/galactic.hpp b/include/boost/astronomy/coordinate/coord_sys/galactic.hpp
index 7f786a7..cd2dea5 100644
--- a/include/boost/astronomy/coordinate/coord_sys/galactic.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/galactic.hpp
@@ -43,17 +43,7 @@ public:
             <boost::astronomy::coordinate::base_representation, OtherRepresentation>
             ::value), "argument type is expected to be a representation class");
 
-        auto temp = make_spherical_representation
-            <
-                typename Representation::type,
-                typename Representation::quantity1,
-                typename Representation::quantity2,
-                typename Representation::quantity3,
-                typename OtherRepresentation::type,
-                typename OtherRepresentation::quantity1,
-                typename OtherRepresentation::quantity2,
-                typename OtherRepresentation::quantity3
-            >(representation_data);
+        auto temp = make_spherical_representation(representation_data);
         this->data = temp;
     }
 
@@ -103,30 +93,10 @@ public:
             <boost::astronomy::coordinate::base_differential, OtherDifferential>
             ::value), "argument type is expected to be a differential class");
 
-        auto rep_temp = make_spherical_representation
-            <
-                typename Representation::type,
-                typename Representation::quantity1,
-                typename Representation::quantity2,
-                typename Representation::quantity3,
-                typename OtherRepresentation::type,
-                typename OtherRepresentation::quantity1,
-                typename OtherRepresentation::quantity2,
-                typename OtherRepresentation::quantity3
-            >(representation_data);
+        auto rep_temp = make_spherical_representation(representation_data);
         this->data = rep_temp;
 
-        auto dif_temp = make_spherical_coslat_differential
-            <
-                typename Differential::type,
-                typename Differential::quantity1,
-                typename Differential::quantity2,
-                typename Differential::quantity3,
-                typename OtherDifferential::type,
-                typename OtherDifferential::quantity1,
-                typename OtherDifferential::quantity2,
-                typename OtherDifferential::quantity3
-            >(differential_data);
+        auto dif_temp = make_spherical_coslat_differential(differential_data);
         this->motion = dif_temp;
     }
 
diff --git a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
index 37203f1..12337d9 100644
--- a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
@@ -42,17 +42,7 @@ public:
          <boost::astronomy::coordinate::base_representation, OtherRepresentation>::value),
          "Invalid representation class");
 
-        auto temp = make_spherical_representation
-            <
-            typename Representation::type,
-            typename Representation::quantity1,
-            typename Representation::quantity2,
-            typename Representation::quantity3,
-            typename OtherRepresentation::type,
-            typename OtherRepresentation::quantity1,
-            typename OtherRepresentation::quantity2,
-            typename OtherRepresentation::quantity3
-            >(representation_data);
+        auto temp = make_spherical_representation(representation_data);
 
         this->data = temp;
     }
@@ -103,30 +93,10 @@ public:
             <boost::astronomy::coordinate::base_differential, OtherDifferential>::value),
             "argument type is expected to be a differential class");
 
-        auto rep_temp = make_spherical_representation
-            <
-                typename Representation::type,
-                typename Representation::quantity1,
-                typename Representation::quantity2,
-                typename Representation::quantity3,
-                typename OtherRepresentation::type,
-                typename OtherRepresentation::quantity1,
-                typename OtherRepresentation::quantity2,
-                typename OtherRepresentation::quantity3
-            >(representation_data);
+        auto rep_temp = make_spherical_representation(representation_data);
         this->data = rep_temp;
 
-        auto dif_temp = make_spherical_coslat_differential
-            <
-                typename Differential::type,
-                typename Differential::quantity1,
-                typename Differential::quantity2,
-                typename Differential::quantity3,
-                typename OtherDifferential::type,
-                typename OtherDifferential::quantity1,
-                typename OtherDifferential::quantity2,
-                typename OtherDifferential::quantity3
-            >(differential_data);
+        auto dif_temp = make_spherical_coslat_differential(differential_data);
         this->motion = dif_temp;
     }
 
diff --git a/include/boost/astronomy/coordinate/ref_frame/base_ecliptic_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_ecliptic_frame.hpp
index c47ac17..80049ad 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_ecliptic_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_ecliptic_frame.hpp
@@ -54,17 +54,7 @@ public:
             <boost::astronomy::coordinate::base_representation, OtherRepresentation>
             ::value), "argument type is expected to be a representation class");
 
-        auto temp = make_spherical_representation
-            <
-                typename Representation::type,
-                typename Representation::quantity1,
-                typename Representation::quantity2,
-                typename Representation::quantity3,
-                typename OtherRepresentation::type,
-                typename OtherRepresentation::quantity1,
-                typename OtherRepresentation::quantity2,
-                typename OtherRepresentation::quantity3
-            >(representation_data);
+        auto temp = make_spherical_representation(representation_data);
         this->data = temp;
     }
 
@@ -109,30 +99,10 @@ public:
             <boost::astronomy::coordinate::base_differential, OtherDifferential>
             ::value), "argument type is expected to be a differential class");
 
-        auto rep_temp = make_spherical_representation
-            <
-                typename Representation::type,
-                typename Representation::quantity1,
-                typename Representation::quantity2,
-                typename Representation::quantity3,
-                typename OtherRepresentation::type,
-                typename OtherRepresentation::quantity1,
-                typename OtherRepresentation::quantity2,
-                typename OtherRepresentation::quantity3
-            >(representation_data);
+        auto rep_temp = make_spherical_representation(representation_data);
         this->data = rep_temp;
 
-        auto dif_temp = make_spherical_coslat_differential
-            <
-                typename Differential::type,
-                typename Differential::quantity1,
-                typename Differential::quantity2,
-                typename Differential::quantity3,
-                typename OtherDifferential::type,
-                typename OtherDifferential::quantity1,
-                typename OtherDifferential::quantity2,
-                typename OtherDifferential::quantity3
-            >(differential_data);
+        auto dif_temp = make_spherical_coslat_differential(differential_data);
         this->motion = dif_temp;
     }
 
diff --git a/include/boost/astronomy/coordinate/ref_frame/base_equatorial_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_equatorial_frame.hpp
index 3fa9ac9..e1983ed 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_equatorial_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_equatorial_frame.hpp
@@ -50,17 +50,7 @@ public:
             <boost::astronomy::coordinate::base_representation, OtherRepresentation>::value),
             "argument type is expected to be a representation class");
 
-        auto temp = make_spherical_representation
-            <
-                typename Representation::type,
-                typename Representation::quantity1,
-                typename Representation::quantity2,
-                typename Representation::quantity3,
-                typename OtherRepresentation::type,
-                typename OtherRepresentation::quantity1,
-                typename OtherRepresentation::quantity2,
-                typename OtherRepresentation::quantity3
-            >(representation_data);
+        auto temp = make_spherical_representation(representation_data);
         this->data = temp;
     }
 
@@ -107,30 +97,10 @@ public:
             <boost::astronomy::coordinate::base_differential, OtherDifferential>::value),
             "argument type is expected to be a differential class");
 
-        auto rep_temp = make_spherical_representation
-            <
-                typename Representation::type,
-                typename Representation::quantity1,
-                typename Representation::quantity2,
-                typename Representation::quantity3,
-                typename OtherRepresentation::type,
-                typename OtherRepresentation::quantity1,
-                typename OtherRepresentation::quantity2,
-                typename OtherRepresentation::quantity3
-            >(representation_data);
+        auto rep_temp = make_spherical_representation(representation_data);
         this->data = rep_temp;
 
-        auto dif_temp = make_spherical_coslat_differential
-            <
-                typename Differential::type,
-                typename Differential::quantity1,
-                typename Differential::quantity2,
-                typename Differential::quantity3,
-                typename OtherDifferential::type,
-                typename OtherDifferential::quantity1,
-                typename OtherDifferential::quantity2,
-                typename OtherDifferential::quantity3
-            >(differential_data);
+        auto dif_temp = make_spherical_coslat_differential(differential_data);
         this->motion = dif_temp;
     }
 
-- 
2.43.0


From ce9ff3a78a511199c0c154b09110a1e3d95565b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:37 +0000
Subject: [PATCH 50/59] fix: proper motion of a frame is returned in the units
 of its differential

---
 .../boost/astronomy/coordinate/ref_frame/base_frame.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index 74d46d1..e398e1e 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -60,8 +60,12 @@ public:
     {
         return std::make_tuple
         (
-            Differential::quantity1::from_value(bg::get<0>(motion.get_differential())),
-            Differential::quantity2::from_value(bg::get<1>(motion.get_differential()))
+            static_cast<typename Differential::quantity1>
+                (bu::quantity<bu::si::plane_angle, typename Differential::type>::from_value
+                    (bg::get<0>(motion.get_differential()))),
+            static_cast<typename Differential::quantity2>
+                (bu::quantity<bu::si::plane_angle, typename Differential::type>::from_value
+                    (bg::get<1>(motion.get_differential())))
         );
     }
 
-- 
2.43.0


From 675942a1782e54e907033dda7d2d12eb85be5da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:11 +0000
Subject: [PATCH 51/59] fix: the longitude of a supergalactic coordinate can be
 set

---
 include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
index 12337d9..5463b2d 100644
--- a/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
+++ b/include/boost/astronomy/coordinate/coord_sys/supergalactic.hpp
@@ -172,7 +172,7 @@ public:
     }
 
     //!sets value of component sgl of the supergalactic coordinate
-    void set_sgl(typename Representation::quantity2 const& sgl) const
+    void set_sgl(typename Representation::quantity2 const& sgl)
     {
         this->data.set_lon(sgl);
     }
-- 
2.43.0


From ed76c19b2679097e81027d53829123a56b4f3529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:26 +0000
Subject: [PATCH 52/59] fix: the angular separation of a point from itself is a
 number: rounding can leave the cosine just above one

---
 .../boost/astronomy/coordinate/ref_frame/base_frame.hpp    | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
index e398e1e..2d1706b 100644
--- a/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
+++ b/include/boost/astronomy/coordinate/ref_frame/base_frame.hpp
@@ -109,9 +109,12 @@ public:
     //!angular separation between two coordinates in radians
     bu::quantity<bu::si::plane_angle> get_angular_separation(base_frame const& other) const
     {
+        // rounding can leave the cosine just outside of [-1, 1], where acos has no value
+        double const cosine = (dot(this->data, other.get_data()) /
+            (magnitude(this->data) * magnitude(other.get_data()))).value();
+
         return bu::quantity<bu::si::plane_angle>::from_value(
-            std::acos((dot(this->data, other.get_data()) /
-                (magnitude(this->data) * magnitude(other.get_data()))).value())
+            std::acos(cosine > 1 ? 1 : cosine < -1 ? -1 : cosine)
         );
     }
 
-- 
2.43.0


From 78a46bd7bd77d94e0bc0dacee99280480e89cd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:59 +0000
Subject: [PATCH 53/59] fix: skip the heap of a table without rows

---
 include/boost/astronomy/io/fits_reader.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index d7a876f..ece2b0a 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -107,9 +107,9 @@ namespace boost { namespace astronomy { namespace io {
                     auto total_elements = hdu_header.data_size();
                     auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
                     file_reader.set_reading_pos(file_reader.get_current_pos() + (total_elements*element_size));
-                    skip_heap(hdu_header);
-                    file_reader.set_unit_end();
                 }
+                skip_heap(hdu_header);
+                file_reader.set_unit_end();
             }
         }
 
@@ -196,7 +196,7 @@ namespace boost { namespace astronomy { namespace io {
          * @param[in] hdu_header Header information related to the current HDU
         */
         void skip_heap(typename ExtensionsSupported::header_type& hdu_header) {
-            if (hdu_header.contains_keyword("XTENSION") && hdu_header.contains_keyword("PCOUNT")) {
+            if (hdu_header.total_dimensions() != 0 && hdu_header.contains_keyword("XTENSION") && hdu_header.contains_keyword("PCOUNT")) {
                 auto heap_elements = hdu_header.template value_of<std::size_t>("PCOUNT");
                 file_reader.set_reading_pos(file_reader.get_current_pos() + heap_elements * get_element_size_from_bitpix(hdu_header.bitpix()));
             }
@@ -208,6 +208,8 @@ namespace boost { namespace astronomy { namespace io {
         */
         std::string extract_data_buffer(typename ExtensionsSupported::header_type& hdu_header) {
             if (hdu_header.data_size() == 0) {
+                skip_heap(hdu_header);
+                file_reader.set_unit_end();
                 return "";
             }
             else {
-- 
2.43.0


From 1180ff482dbe475759cfafbd214340f4c1846658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:19 +0000
Subject: [PATCH 54/59] fix: keep the heap of a binary table when a file is
 rewritten

---
 include/boost/astronomy/io/binary_table.hpp | 11 +++++++--
 include/boost/astronomy/io/fits_reader.hpp  | 25 ++++++++++++++++-----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/boost/astronomy/io/binary_table.hpp b/include/boost/astronomy/io/binary_table.hpp
index 068b886..7f4da8c 100644
--- a/include/boost/astronomy/io/binary_table.hpp
+++ b/include/boost/astronomy/io/binary_table.hpp
@@ -82,7 +82,7 @@ public:
     /**
      * @brief      Copies the table, the column views of the other table are not shared
     */
-    basic_binary_table_extension(basic_binary_table_extension const& other) : table_extension<CardPolicy>(other) {}
+    basic_binary_table_extension(basic_binary_table_extension const& other) : table_extension<CardPolicy>(other), heap_(other.heap_) {}
 
     /**
      * @brief      Assigns the table, the column views of the other table are not shared
@@ -90,6 +90,7 @@ public:
     basic_binary_table_extension& operator=(basic_binary_table_extension const& other) {
         table_extension<CardPolicy>::operator=(other);
         this->cached_columns.clear();
+        this->heap_ = other.heap_;
         return *this;
     }
 
@@ -146,6 +147,7 @@ public:
 
             file_writer.write(row_temp_buffer);
         }
+        file_writer.write(heap_);
         auto current_write_pos = file_writer.get_current_pos();
         auto logical_record_end_pos = file_writer.find_unit_end();
 
@@ -159,6 +161,7 @@ public:
     void set_data(const std::string& data_buffer) {
         this->cached_columns.clear();
         this->tb_data.clear();
+        this->heap_.clear();
         this->col_metadata_.clear();
         this->col_metadata_.resize(this->tfields_);
         set_binary_table_info(data_buffer);
@@ -249,7 +252,7 @@ public:
     }
 
 private:
-   
+    std::string heap_;   //! Bytes after the rows (PCOUNT), kept for writing
 
     /**
      * @brief    Populates the metadata information for all fields of binary_table_extension
@@ -356,6 +359,10 @@ private:
         if (row_size != total_characters_per_row) { throw fits_exception(); }
         if (total_rows != 0 && (row_size == 0 || data_buffer.size() / total_rows < row_size)) { throw fits_exception(); }
 
+        if (this->pcount > 0 && data_buffer.size() > total_rows * row_size) {
+            this->heap_ = data_buffer.substr(total_rows * row_size, this->pcount);
+        }
+
         auto starting_offset = data_buffer.begin();
         auto ending_offset = starting_offset;
 
diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index ece2b0a..26c7f6f 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -196,10 +196,19 @@ namespace boost { namespace astronomy { namespace io {
          * @param[in] hdu_header Header information related to the current HDU
         */
         void skip_heap(typename ExtensionsSupported::header_type& hdu_header) {
+            file_reader.set_reading_pos(file_reader.get_current_pos() + heap_size(hdu_header));
+        }
+
+        /**
+         * @brief Returns the number of bytes (PCOUNT) which follow the main data array in the data unit of an extension
+         * @param[in] hdu_header Header information related to the current HDU
+        */
+        std::size_t heap_size(typename ExtensionsSupported::header_type& hdu_header) {
             if (hdu_header.total_dimensions() != 0 && hdu_header.contains_keyword("XTENSION") && hdu_header.contains_keyword("PCOUNT")) {
                 auto heap_elements = hdu_header.template value_of<std::size_t>("PCOUNT");
-                file_reader.set_reading_pos(file_reader.get_current_pos() + heap_elements * get_element_size_from_bitpix(hdu_header.bitpix()));
+                return heap_elements * get_element_size_from_bitpix(hdu_header.bitpix());
             }
+            return 0;
         }
 
         /**
@@ -207,19 +216,23 @@ namespace boost { namespace astronomy { namespace io {
          * @param[in] hdu_header Header information related to the current HDU
         */
         std::string extract_data_buffer(typename ExtensionsSupported::header_type& hdu_header) {
-            if (hdu_header.data_size() == 0) {
+            auto total_elements = hdu_header.data_size();
+            auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
+            auto total_bytes = total_elements * element_size;
+            // The heap of a binary table is a part of its data
+            bool with_heap = hdu_header.contains_keyword("XTENSION") && hdu_header.template value_of<std::string>("XTENSION") == "BINTABLE";
+            if (with_heap) { total_bytes += heap_size(hdu_header); }
+            if (total_bytes == 0) {
                 skip_heap(hdu_header);
                 file_reader.set_unit_end();
                 return "";
             }
             else {
-                auto total_elements = hdu_header.data_size();
-                auto element_size = get_element_size_from_bitpix(hdu_header.bitpix());
-                std::string data_buffer = file_reader.read(total_elements * element_size);
+                std::string data_buffer = file_reader.read(total_bytes);
                 if (file_reader.get_current_pos() == static_cast<std::size_t>(-1)) {
                     throw file_reading_exception("File ends before the end of the data");
                 }
-                skip_heap(hdu_header);
+                if (!with_heap) { skip_heap(hdu_header); }
                 file_reader.set_unit_end();
                 return data_buffer;
             }
-- 
2.43.0


From 332ffbb0b49f802b8605e96e56d6be68573bfada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:31 +0000
Subject: [PATCH 55/59] fix: read decimal numbers with the exponent letter D

---
 include/boost/astronomy/io/string_conversion_utility.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index 9c8dcb9..c7c213d 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -10,6 +10,9 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 
 #include <sstream>
 #include <limits>
+#include <string>
+#include <algorithm>
+#include <type_traits>
 #include <boost/lexical_cast.hpp>
 #include <boost/hana/eval_if.hpp>
 #include <boost/astronomy/exception/fits_exception.hpp>
@@ -34,6 +37,12 @@ namespace boost{namespace astronomy{namespace io{
         template<typename T>
         static T deserialize_to(const std::string& convert_str, int) {
             try {
+                if (std::is_floating_point<T>::value) {
+                    // The FITS standard has E and D for the exponent letter
+                    std::string number = convert_str;
+                    std::replace(number.begin(), number.end(), 'D', 'E');
+                    return boost::lexical_cast<T>(number);
+                }
                 return boost::lexical_cast<T>(convert_str);
             }
             catch (bad_lexical_cast&) {
-- 
2.43.0


From b425988843d5f889ff1578d85847c1b362dd6ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:31 +0000
Subject: [PATCH 56/59] fix: real values of cards keep their digits (six were
 written) and have the exponent letter E of the standard

---
 .../astronomy/io/default_card_policy.hpp      | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/default_card_policy.hpp b/include/boost/astronomy/io/default_card_policy.hpp
index d8a4ac7..5516411 100644
--- a/include/boost/astronomy/io/default_card_policy.hpp
+++ b/include/boost/astronomy/io/default_card_policy.hpp
@@ -13,6 +13,8 @@ file License.txt or copy at https://www.boost.org/LICENSE_1_0.txt)
 #include <map>
 #include <algorithm>
 #include <sstream>
+#include <iomanip>
+#include <limits>
 #include <complex>
 #include <boost/lexical_cast.hpp>
 #include <boost/astronomy/exception/fits_exception.hpp>
@@ -153,6 +155,13 @@ public:
         return val;
     }
 
+    /**
+     * @brief Serializes a real number to string and pads it according to requirements in FITS standard
+     * @param[in] value real number to serialize
+    */
+    std::string serialize_to_fits_format(double value) const { return serialize_real(value); }
+    std::string serialize_to_fits_format(float value) const { return serialize_real(value); }
+
     /**
      * @brief Pads the string according to the requirements in FITS standard
      * @param[in] value Value to be serialized and padded according to requirements
@@ -190,7 +199,10 @@ public:
     */
     template<typename T>
     std::string serialize_to_fits_format(std::complex<T> value)const {
-        return serialize_to_fits_format(value.real())+ serialize_to_fits_format(value.imag());        
+        std::string real_part = serialize_to_fits_format(value.real());
+        std::string imag_part = serialize_to_fits_format(value.imag());
+        if (imag_part[0] != ' ') { imag_part.insert(0, 1, ' '); }
+        return real_part + imag_part;
     }
 
     /**
@@ -231,6 +243,22 @@ public:
 
 private:
 
+    /**
+     * @brief Serializes a real number with the fewest digits that give back the same number
+    */
+    template<typename T>
+    std::string serialize_real(T value) const {
+        std::string val;
+        for (int digits = std::numeric_limits<T>::digits10; digits <= std::numeric_limits<T>::max_digits10; ++digits) {
+            std::stringstream value_stream;
+            value_stream << std::setprecision(digits) << std::uppercase << value;
+            val = value_stream.str();
+            if (parse_to<T>(val) == value) { break; }
+        }
+        if (val.length() < 20) { val.insert(0, 20 - val.length(), ' '); }
+        return val;
+    }
+
     /**
      * @brief Checks whether the keyword is in list of reserved keywords
     */
-- 
2.43.0


From e28c7b77d75d944c537e2c6f6cdb7fb22d831537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:31 +0000
Subject: [PATCH 57/59] fix: real numbers in ASCII tables have the exponent
 letter E of the standard

---
 include/boost/astronomy/io/string_conversion_utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/astronomy/io/string_conversion_utility.hpp b/include/boost/astronomy/io/string_conversion_utility.hpp
index c7c213d..a2d6c71 100644
--- a/include/boost/astronomy/io/string_conversion_utility.hpp
+++ b/include/boost/astronomy/io/string_conversion_utility.hpp
@@ -64,7 +64,7 @@ namespace boost{namespace astronomy{namespace io{
                         //to_string does not maintain the same rep for floating point numbers causing field size problems
                         //to_string dosent work for custom types as well(although here it is)
                         std::stringstream conversion_stream;
-                        conversion_stream << value;
+                        conversion_stream << std::uppercase << value;
                         return conversion_stream.str();
                     });
         }
-- 
2.43.0


From 4dbbbe99fffe17345d8a0625d7f63527194bd8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:33 +0000
Subject: [PATCH 58/59] fix: keep image extensions and extensions of an unknown
 kind when a file is rewritten

---
 include/boost/astronomy/io/fits_reader.hpp | 24 ++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/boost/astronomy/io/fits_reader.hpp b/include/boost/astronomy/io/fits_reader.hpp
index 26c7f6f..1ede0f3 100644
--- a/include/boost/astronomy/io/fits_reader.hpp
+++ b/include/boost/astronomy/io/fits_reader.hpp
@@ -60,6 +60,7 @@ namespace boost { namespace astronomy { namespace io {
     private:
         FileReader file_reader;
         std::deque<typename ExtensionsSupported::Extension> hdu_list;
+        std::map<std::size_t, std::string> unsupported_hdus; // Bytes of the HDUs which are blank in hdu_list
         control_block hdus_control_block;
     public:
         /**
@@ -83,6 +84,7 @@ namespace boost { namespace astronomy { namespace io {
             file_reader.set_file(filepath);
             hdus_control_block.clear();
             hdu_list.clear();
+            unsupported_hdus.clear();
             hdus_control_block.filepath = filepath;
         }
 
@@ -126,6 +128,9 @@ namespace boost { namespace astronomy { namespace io {
                 std::string hdu_data = extract_data_buffer(hdu_header);
                 hdus_control_block.hdus_info[hdu_header.get_hdu_name()] = control_block::info(header_loc,data_loc, hdu_list.size(), false);
                 auto hdu_instance = ExtensionsSupported::construct_hdu(hdu_header, hdu_data);
+                if (boost::get<boost::blank>(&hdu_instance)) {
+                    unsupported_hdus[hdu_list.size()] = extract_unit(header_loc);
+                }
                 hdu_list.push_back(hdu_instance);
                 hdus_control_block.hdu_count = hdu_list.size();
             }
@@ -143,8 +148,13 @@ namespace boost { namespace astronomy { namespace io {
             }
             typename ExtensionsSupported::template writer_visitor<FileReader> writer_visitor(file_writer);
 
-            for (auto& hdu : hdu_list) {
-            boost::apply_visitor(writer_visitor, hdu);
+            for (std::size_t i = 0; i < hdu_list.size(); i++) {
+                if (boost::get<boost::blank>(&hdu_list[i]) && unsupported_hdus.count(i)) {
+                    file_writer.write(unsupported_hdus[i]);
+                }
+                else {
+                    boost::apply_visitor(writer_visitor, hdu_list[i]);
+                }
             }
         }
 
@@ -191,6 +201,16 @@ namespace boost { namespace astronomy { namespace io {
             return hdu_header;
         }
 
+        /**
+         * @brief Returns the bytes of the file from the given location up to the current one
+         * @param[in] hdu_position Location of the start of the HDU
+        */
+        std::string extract_unit(std::size_t hdu_position) {
+            auto hdu_end = file_reader.get_current_pos();
+            file_reader.set_reading_pos(hdu_position);
+            return file_reader.read(hdu_end - hdu_position);
+        }
+
         /**
          * @brief Moves over the bytes (PCOUNT) which follow the main data array in the data unit of an extension
          * @param[in] hdu_header Header information related to the current HDU
-- 
2.43.0


From 45ea8cdb02b31ac488be8163af73e22e21701eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:00 +0000
Subject: [PATCH 59/59] fix: the display format of the columns of an ASCII
 table is read

---
 include/boost/astronomy/io/ascii_table.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/astronomy/io/ascii_table.hpp b/include/boost/astronomy/io/ascii_table.hpp
index f2c7e9a..8bc48e6 100644
--- a/include/boost/astronomy/io/ascii_table.hpp
+++ b/include/boost/astronomy/io/ascii_table.hpp
@@ -233,6 +233,13 @@ private:
             }
             catch (std::out_of_range&) {/*Do Nothing*/ }
 
+            try {
+                this->col_metadata_[i].TDISP(
+                    this->hdu_header.template value_of<std::string>("TDISP" + boost::lexical_cast<std::string>(i + 1))
+                );
+            }
+            catch (std::out_of_range&) {/*Do Nothing*/ }
+
             this->col_metadata_[i].total_elements(0);
 
         }
-- 
2.43.0


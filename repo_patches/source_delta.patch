From 9a85947291997eb038be86cd5f574d4e29cd3ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 01/25] fix: always write four hex digits in \u escapes

---
 include/configor/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index e41aaa0..0eb79ea 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -82,7 +82,7 @@ struct json_hex
     friend inline std::basic_ostream<_CharTy>& operator<<(std::basic_ostream<_CharTy>& os, const json_hex& i)
     {
         os << std::setfill(_CharTy('0')) << std::hex << std::uppercase;
-        os << '\\' << 'u' << std::setw(sizeof(i.i)) << i.i;
+        os << '\\' << 'u' << std::setw(4) << i.i;
         os << std::dec << std::nouppercase;
         return os;
     }
-- 
2.43.0


From 6632f0ca96b27a17b6b80a1d0f656875c83a2b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 02/25] fix: do not truncate codepoints when testing for digits

---
 include/configor/json.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 0eb79ea..0ffc2b5 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -624,9 +624,9 @@ public:
         return code;
     }
 
-    inline bool is_digit(source_char_type ch) const
+    inline bool is_digit(uint32_t ch) const
     {
-        return source_char_type('0') <= ch && ch <= source_char_type('9');
+        return static_cast<uint32_t>('0') <= ch && ch <= static_cast<uint32_t>('9');
     }
 
     inline void fail(const std::string& msg)
-- 
2.43.0


From c32aed70498bcf63099004f801439c8303a1e532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 03/25] fix: do not truncate codepoints when matching literals

---
 include/configor/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 0ffc2b5..7e807f0 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -326,7 +326,7 @@ public:
     {
         for (const auto ch : text)
         {
-            if (ch != std::char_traits<source_char_type>::to_char_type(current_))
+            if (static_cast<uint32_t>(ch) != current_)
             {
                 detail::fast_ostringstream ss;
                 ss << "unexpected character '" << static_cast<char>(current_) << "'";
-- 
2.43.0


From 99efa703c7e1946392a1d55a631bb7d1c96203c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 04/25] fix: report a sign without digits instead of aborting

---
 include/configor/json.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 7e807f0..3470ea9 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -509,7 +509,8 @@ public:
     {
         using integer_type = typename value_type::integer_type;
 
-        CONFIGOR_ASSERT(is_digit(current_));
+        if (!is_digit(current_))
+            fail("invalid number, got", current_);
 
         number_integer_ = static_cast<integer_type>(current_ - '0');
         while (true)
-- 
2.43.0


From b9aac609133b9c9d9bc928e5e0f36a78bfd15216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 05/25] fix: recognize '**/' and the end of input inside
 comments

---
 include/configor/json.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 3470ea9..86b5d08 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -288,7 +288,7 @@ public:
                     break;
                 }
 
-                if (this->is_.eof())
+                if (this->is_.eof() || current_ == '\0')
                 {
                     break;
                 }
@@ -297,21 +297,23 @@ public:
         else if (current_ == '*')
         {
             // multiple line comment
+            read_next();
             while (true)
             {
-                if (read_next() == '*')
+                if (this->is_.eof() || current_ == '\0')
                 {
-                    if (read_next() == '/')
-                    {
-                        // end of comment
-                        read_next();
-                        break;
-                    }
+                    fail("unexpected eof while reading comment");
                 }
 
-                if (this->is_.eof())
+                if (current_ != '*')
                 {
-                    fail("unexpected eof while reading comment");
+                    read_next();
+                }
+                else if (read_next() == '/')
+                {
+                    // end of comment
+                    read_next();
+                    break;
                 }
             }
             skip_spaces();
-- 
2.43.0


From 2d4517d7a289851f4ff286b18b00ecae4d12fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 06/25] fix: skip consecutive comments without recursion

---
 include/configor/json.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 86b5d08..e2dac58 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -262,12 +262,14 @@ public:
 
     void skip_spaces()
     {
-        while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
-            read_next();
-
-        // skip comments
-        if (current_ == '/')
+        while (true)
         {
+            while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
+                read_next();
+
+            // skip comments
+            if (current_ != '/')
+                break;
             skip_comments();
         }
     }
@@ -284,7 +286,6 @@ public:
                 if (current_ == '\n' || current_ == '\r')
                 {
                     // end of comment
-                    skip_spaces();
                     break;
                 }
 
@@ -316,7 +317,6 @@ public:
                     break;
                 }
             }
-            skip_spaces();
         }
         else
         {
-- 
2.43.0


From 8d86d6509ad1621c36056c66ec734fe0ef2b397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 07/25] fix: report errors in the first character through the
 error handler

---
 include/configor/details/parser.hpp | 3 +++
 include/configor/json.hpp           | 3 +--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 74555fa..2fc455d 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -56,6 +56,7 @@ public:
     {
         try
         {
+            begin();
             do_parse(c, token_type::uninitialized);
             if (scan() != token_type::end_of_input)
                 fail(token_type::end_of_input);
@@ -87,6 +88,8 @@ public:
     }
 
 protected:
+    virtual void begin() {}
+
     virtual token_type scan() = 0;
 
     virtual void get_integer(typename value_type::integer_type& out) = 0;
diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index e2dac58..7c80077 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -154,11 +154,10 @@ public:
         std::for_each(options.begin(), options.end(), [&](const option& option) { option(*this); });
     }
 
-    virtual void parse(value_type& c) override
+    virtual void begin() override
     {
         // read first char
         read_next();
-        basic_parser<value_type, source_char_type>::parse(c);
     }
 
     virtual void get_integer(typename value_type::integer_type& out) override
-- 
2.43.0


From ab8af66d5bc82eae67a54c5ee3a9c75e41fdf165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 08/25] fix: reject \u escapes of unpaired trail surrogates

---
 include/configor/json.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 7c80077..117f3c2 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -434,6 +434,10 @@ public:
                 case 'u':
                 {
                     uint32_t codepoint = read_escaped_codepoint();
+                    if (encoding::unicode::is_trail_surrogate(codepoint))
+                    {
+                        fail("trail surrogate must follow a lead surrogate, but got", codepoint);
+                    }
                     if (encoding::unicode::is_lead_surrogate(codepoint))
                     {
                         if (read_next() != '\\' || read_next() != 'u')
-- 
2.43.0


From 681cf21dc26caf3271409e99de31c5ab43707545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 09/25] fix: reject integers that do not fit instead of
 overflowing

---
 include/configor/json.hpp | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 117f3c2..36b49cc 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -162,7 +162,7 @@ public:
 
     virtual void get_integer(typename value_type::integer_type& out) override
     {
-        out = is_negative_ ? -number_integer_ : number_integer_;
+        out = number_integer_;
     }
 
     virtual void get_float(typename value_type::float_type& out) override
@@ -488,6 +488,7 @@ public:
     {
         is_negative_    = false;
         number_integer_ = 0;
+        number_float_   = 0;
 
         if (current_ == '-' || current_ == '+')
         {
@@ -513,22 +514,46 @@ public:
     token_type scan_integer()
     {
         using integer_type = typename value_type::integer_type;
+        using float_type   = typename value_type::float_type;
+        using limits       = std::numeric_limits<integer_type>;
 
         if (!is_digit(current_))
             fail("invalid number, got", current_);
 
-        number_integer_ = static_cast<integer_type>(current_ - '0');
+        bool overflow = false;
         while (true)
         {
+            // keep the magnitude, in case of a float number with a large integer part
+            number_float_ = number_float_ * 10 + static_cast<float_type>(current_ - '0');
+
+            const auto digit = static_cast<integer_type>(current_ - '0');
+            if (overflow)
+            {
+                // only the magnitude is needed
+            }
+            else if (is_negative_)
+            {
+                overflow = number_integer_ < (limits::min() + digit) / 10;
+                if (!overflow)
+                    number_integer_ = number_integer_ * 10 - digit;
+            }
+            else
+            {
+                overflow = number_integer_ > (limits::max() - digit) / 10;
+                if (!overflow)
+                    number_integer_ = number_integer_ * 10 + digit;
+            }
+
             const auto ch = read_next();
             if (ch == '.' || ch == 'e' || ch == 'E')
                 return scan_float();
 
-            if (is_digit(ch))
-                number_integer_ = number_integer_ * 10 + static_cast<integer_type>(ch - '0');
-            else
+            if (!is_digit(ch))
                 break;
         }
+
+        if (overflow)
+            fail("integer number out of range");
         return token_type::value_integer;
     }
 
@@ -536,8 +561,6 @@ public:
     {
         using float_type = typename value_type::float_type;
 
-        number_float_ = static_cast<float_type>(number_integer_);
-
         if (current_ == 'e' || current_ == 'E')
             return scan_exponent();
 
-- 
2.43.0


From 7ddf9a85d13492d5f2c0a48757d64979169ebdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 10/25] fix: require digits after an exponent sign and do not
 wrap large exponents

---
 include/configor/json.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 36b49cc..6d6dbb3 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -612,10 +612,17 @@ public:
             read_next();
         }
 
+        if (!is_digit(current_))
+            fail("invalid exponent number, got", current_);
+
+        // larger exponents are out of range, whatever their value
+        constexpr uint32_t max_exponent = 100000;
+
         uint32_t exponent = static_cast<uint32_t>(current_ - '0');
         while (is_digit(read_next()))
         {
-            exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
+            if (exponent < max_exponent)
+                exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
         }
 
         float_type power = 1;
-- 
2.43.0


From 8027a6958be3ec78e876a1b48d88581fe1d3fd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 11/25] fix: reject float numbers that are out of range instead
 of storing inf or nan

---
 include/configor/json.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 6d6dbb3..7fa8834 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -22,6 +22,7 @@
 #include "configor.hpp"
 
 #include <algorithm>  // std::for_each
+#include <cmath>      // std::ceil, std::floor, std::isfinite
 #include <iomanip>    // std::setprecision
 #include <ios>        // std::noskipws, std::noshowbase, std::right
 
@@ -586,6 +587,13 @@ public:
             else
                 break;
         }
+        return finish_float();
+    }
+
+    token_type finish_float()
+    {
+        if (!std::isfinite(number_float_))
+            fail("float number out of range");
         return token_type::value_float;
     }
 
@@ -630,8 +638,9 @@ public:
             if (exponent & 1)
                 power *= base;
 
-        number_float_ *= power;
-        return token_type::value_float;
+        if (number_float_ != 0)
+            number_float_ *= power;
+        return finish_float();
     }
 
     uint32_t read_escaped_codepoint()
-- 
2.43.0


From 6f38d61099f4170da7fa7d3f81371473bd08a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 12/25] fix: do not cast floats that do not fit to int64_t when
 dumping

---
 include/configor/json.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 7fa8834..188d363 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -22,7 +22,7 @@
 #include "configor.hpp"
 
 #include <algorithm>  // std::for_each
-#include <cmath>      // std::ceil, std::floor, std::isfinite
+#include <cmath>      // std::ceil, std::floor, std::isfinite, std::ldexp
 #include <iomanip>    // std::setprecision
 #include <ios>        // std::noskipws, std::noshowbase, std::right
 
@@ -907,7 +907,14 @@ public:
 
     virtual void put_float(typename value_type::float_type f) override
     {
-        if (std::ceil(f) == std::floor(f))
+        if (!std::isfinite(f))
+        {
+            throw configor_serialization_error("inf and nan cannot be serialized");
+        }
+
+        // every integral float in [-2^63, 2^63) fits in int64_t
+        const auto limit = std::ldexp(static_cast<typename value_type::float_type>(1), 63);
+        if (std::ceil(f) == std::floor(f) && -limit <= f && f < limit)
         {
             // integer
             this->os_ << static_cast<int64_t>(f) << ".0";
-- 
2.43.0


From c162b28b71cdb3e5cc59776cb9e6b6c188994884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 13/25] fix: reject malformed UTF-8

---
 include/configor/details/encoding.hpp | 52 ++++++++++++++++-----------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index 7ca64fa..ef048fd 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -169,38 +169,48 @@ public:
             0x00000000, 0x00003080, 0x000E2080, 0x03C82080, 0xFA082080, 0x82082080,
         };
 
+        static const std::array<std::uint32_t, 4> utf8_minimums = {
+            0x00000000,
+            0x00000080,
+            0x00000800,
+            0x00010000,
+        };
+
         // peek one byte and check eof
         const auto first_byte = static_cast<uint8_t>(is.peek());
 
         if (is.eof())
             return false;
 
-        codepoint = 0;
+        // read the first byte
+        is.get();
+
+        codepoint = first_byte;
 
-        // read bytes
+        // continuation bytes and bytes that cannot start a sequence
         const auto extra_bytes_to_read = utf8_extra_bytes[first_byte];
-        switch (extra_bytes_to_read)
+        if (extra_bytes_to_read > 3 || (first_byte & 0xC0) == 0x80)
+        {
+            is.setstate(std::ios_base::failbit);
+            return true;
+        }
+
+        // read continuation bytes
+        for (auto i = extra_bytes_to_read; i > 0; --i)
         {
-        case 5:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 4:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 3:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 2:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 1:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 0:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
+            const auto byte = static_cast<uint8_t>(is.get());
+            if (!is.good() || (byte & 0xC0) != 0x80)
+            {
+                is.setstate(std::ios_base::failbit);
+                return true;
+            }
+            codepoint = (codepoint << 6) + static_cast<uint32_t>(byte);
         }
         codepoint -= utf8_offsets[extra_bytes_to_read];
-        if (codepoint > 0x10FFFF)
+
+        // overlong forms, surrogates and out of range codepoints
+        if (codepoint < utf8_minimums[extra_bytes_to_read] || codepoint > 0x10FFFF
+            || unicode::is_lead_surrogate(codepoint) || unicode::is_trail_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
-- 
2.43.0


From a5c0e022dce2a589b4cb89c9e3b1815799e76d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 14/25] fix: reject malformed UTF-16

---
 include/configor/details/encoding.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index ef048fd..8a1aea7 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -250,7 +250,7 @@ public:
 
     static bool decode(istream_type& is, uint32_t& codepoint)
     {
-        codepoint = static_cast<uint32_t>(static_cast<uint16_t>(is.get()));
+        codepoint = static_cast<uint32_t>(is.get());
 
         if (is.eof())
             return false;
@@ -258,7 +258,7 @@ public:
         if (unicode::is_lead_surrogate(codepoint))
         {
             uint32_t lead_surrogate  = codepoint;
-            uint32_t trail_surrogate = static_cast<uint32_t>(static_cast<uint16_t>(is.get()));
+            uint32_t trail_surrogate = static_cast<uint32_t>(is.get());
 
             if (unicode::is_trail_surrogate(trail_surrogate))
             {
@@ -269,8 +269,7 @@ public:
                 is.setstate(std::ios_base::failbit);
             }
         }
-
-        if (codepoint > 0x10FFFF)
+        else if (unicode::is_trail_surrogate(codepoint) || codepoint > 0xFFFF)
         {
             is.setstate(std::ios_base::failbit);
         }
-- 
2.43.0


From 47ec5015775451fbf3a8e985f38bb47d83b9bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 15/25] fix: reject surrogates in UTF-32

---
 include/configor/details/encoding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index 8a1aea7..c2b5cf2 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -304,7 +304,7 @@ public:
         if (is.eof())
             return false;
 
-        if (codepoint > 0x10FFFF)
+        if (codepoint > 0x10FFFF || unicode::is_lead_surrogate(codepoint) || unicode::is_trail_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
-- 
2.43.0


From 25944c164a7b78aee30534b5298b7327cf0a9a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 16/25] fix: replace the contents of maps like other containers
 when converting

---
 include/configor/details/conversion.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/configor/details/conversion.hpp b/include/configor/details/conversion.hpp
index e3bcba9..218b6db 100644
--- a/include/configor/details/conversion.hpp
+++ b/include/configor/details/conversion.hpp
@@ -449,6 +449,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
@@ -474,6 +475,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::unordered_map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
-- 
2.43.0


From 17a2fe08b157f7f793e781b5c4293c9d6994b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 17/25] fix: do not drop NUL characters that were peeked from
 adapters and files

---
 include/configor/details/stream.hpp | 47 ++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index a99761e..2c2023d 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -156,42 +156,49 @@ private:
         explicit streambuf(basic_iadapter<char_type>& adapter)
             : adapter_(adapter)
             , last_char_(0)
+            , has_last_char_(false)
         {
         }
 
     protected:
         virtual int_type underflow() override
         {
-            if (last_char_ != 0)
+            if (has_last_char_)
                 return last_char_;
-            last_char_ = traits_type::to_char_type(adapter_.read());
+            last_char_     = traits_type::to_char_type(adapter_.read());
+            has_last_char_ = true;
             return last_char_;
         }
 
         virtual int_type uflow() override
         {
-            int_type c = underflow();
-            last_char_ = 0;
+            int_type c     = underflow();
+            has_last_char_ = false;
             return c;
         }
 
         virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
         {
-            if (last_char_ != 0)
+            if (num <= 0)
+                return 0;
+
+            std::streamsize rest = num;
+            if (has_last_char_)
             {
                 // read last char
-                s[0]       = traits_type::to_char_type(last_char_);
-                last_char_ = 0;
+                s[0]           = traits_type::to_char_type(last_char_);
+                has_last_char_ = false;
                 ++s;
-                --num;
+                --rest;
             }
-            adapter_.read(s, static_cast<size_t>(num));
+            adapter_.read(s, static_cast<size_t>(rest));
             return num;
         }
 
     private:
         basic_iadapter<char_type>& adapter_;
         int_type                   last_char_;
+        bool                       has_last_char_;
     };
 
     streambuf buf_;
@@ -348,22 +355,24 @@ public:
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
         , last_char_(0)
+        , has_last_char_(false)
     {
     }
 
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
+        if (has_last_char_)
             return last_char_;
-        last_char_ = std::fgetc(file_);
+        last_char_     = std::fgetc(file_);
+        has_last_char_ = true;
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
-        int_type c = underflow();
-        last_char_ = 0;
+        int_type c     = underflow();
+        has_last_char_ = false;
         return c;
     }
 
@@ -377,6 +386,7 @@ protected:
 private:
     std::FILE* file_;
     int_type   last_char_;
+    bool       has_last_char_;
 };
 
 template <>
@@ -391,22 +401,24 @@ public:
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
         , last_char_(0)
+        , has_last_char_(false)
     {
     }
 
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
+        if (has_last_char_)
             return last_char_;
-        last_char_ = std::fgetwc(file_);
+        last_char_     = std::fgetwc(file_);
+        has_last_char_ = true;
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
-        int_type c = underflow();
-        last_char_ = 0;
+        int_type c     = underflow();
+        has_last_char_ = false;
         return c;
     }
 
@@ -420,6 +432,7 @@ protected:
 private:
     std::FILE* file_;
     int_type   last_char_;
+    bool       has_last_char_;
 };
 
 //
-- 
2.43.0


From b8dcda10e7da12efbfc83379f22df5feb3f3301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:23 +0000
Subject: [PATCH 18/25] fix: make bulk reads from input buffers start at the
 current position and consume it

---
 include/configor/details/stream.hpp | 36 +++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 2c2023d..595d181 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -21,7 +21,7 @@
 #pragma once
 #include <algorithm>    // std::none_of
 #include <cmath>        // std::ceil, std::floor
-#include <cstdio>       // std::FILE, std::fgetc, std::fgets, std::fgetwc, std::fgetws, std::snprintf
+#include <cstdio>       // std::FILE, std::fgetc, std::fgetwc, std::snprintf
 #include <iomanip>      // std::fill, std::setw
 #include <ios>          // std::basic_ios, std::streamsize, std::hex, std::dec, std::uppercase, std::nouppercase
 #include <istream>      // std::basic_istream
@@ -278,13 +278,15 @@ protected:
     virtual int_type uflow() override
     {
         int_type c = underflow();
-        ++index_;
+        if (index_ < str_.size())
+            ++index_;
         return c;
     }
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
         const auto copied = str_.copy(s, static_cast<size_t>(num), index_);
+        index_ += copied;
         return static_cast<std::streamsize>(copied);
     }
 
@@ -320,7 +322,8 @@ protected:
     virtual int_type uflow() override
     {
         int_type c = underflow();
-        ++index_;
+        if (index_ < size_)
+            ++index_;
         return c;
     }
 
@@ -330,7 +333,8 @@ protected:
             num = static_cast<std::streamsize>(size_ - index_);
         if (num == 0)
             return 0;
-        traits_type::copy(s, buffer_, static_cast<size_t>(num));
+        traits_type::copy(s, buffer_ + index_, static_cast<size_t>(num));
+        index_ += static_cast<size_t>(num);
         return num;
     }
 
@@ -378,9 +382,15 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgets(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize count = 0;
+        for (; count < num; ++count)
+        {
+            const int_type c = uflow();
+            if (traits_type::eq_int_type(c, traits_type::eof()))
+                break;
+            s[count] = traits_type::to_char_type(c);
+        }
+        return count;
     }
 
 private:
@@ -424,9 +434,15 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgetws(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize count = 0;
+        for (; count < num; ++count)
+        {
+            const int_type c = uflow();
+            if (traits_type::eq_int_type(c, traits_type::eof()))
+                break;
+            s[count] = traits_type::to_char_type(c);
+        }
+        return count;
     }
 
 private:
-- 
2.43.0


From 2ac2c83d5d7730a728946ec80473388da01157ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 19/25] fix: check the bounds of erase(index) and of the
 largest index of operator[]

---
 include/configor/details/value.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 97c9bbe..eba14d8 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -360,6 +360,10 @@ public:
         {
             throw configor_invalid_key("cannot use erase() with non-array value");
         }
+        if (index >= data().vector->size())
+        {
+            throw std::out_of_range("erase() index out of range");
+        }
         data().vector->erase(data().vector->begin() + static_cast<difference_type>(index));
     }
 
@@ -720,6 +724,10 @@ public:
             throw configor_invalid_key("operator[] called on a non-array object");
         }
 
+        if (index >= data().vector->max_size())
+        {
+            throw std::out_of_range("operator[] index out of range");
+        }
         if (index >= data().vector->size())
         {
             data().vector->insert(data().vector->end(), index - data().vector->size() + 1, basic_value());
-- 
2.43.0


From 67805fc58d39786203944c9242ca4dee0d1bbfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 20/25] fix: neither leak nor reuse a payload when an
 allocation fails

---
 include/configor/details/value.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index eba14d8..065c571 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -1032,8 +1032,9 @@ public:
     static void reset(value_type& v, _Args&&... args)
     {
         destroy(v);
-        v.type(_Ty);
+        v.type(value_constant::null);
         construct<_Ty>(v, std::forward<_Args>(args)...);
+        v.type(_Ty);
     }
 
     template <value_constant::type _Ty, typename... _Args>
@@ -1111,7 +1112,15 @@ private:
         static allocator_type<_Ty> allocator;
 
         auto ptr = allocator_traits::allocate(allocator, 1);
-        allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        try
+        {
+            allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        }
+        catch (...)
+        {
+            allocator_traits::deallocate(allocator, ptr, 1);
+            throw;
+        }
         return ptr;
     }
 
-- 
2.43.0


From a3ee61ee836785c4144809d8344cdd3d70c12dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 21/25] fix: do not hand out mutable references to the elements
 of const values

---
 include/configor/details/value.hpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 065c571..463bc5e 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -735,7 +735,7 @@ public:
         return (*data().vector)[index];
     }
 
-    inline basic_value& operator[](const size_type index) const
+    inline const basic_value& operator[](const size_type index) const
     {
         return at(index);
     }
@@ -753,12 +753,17 @@ public:
         return (*data().object)[key];
     }
 
-    inline basic_value& operator[](const typename object_type::key_type& key) const
+    inline const basic_value& operator[](const typename object_type::key_type& key) const
     {
         return at(key);
     }
 
-    basic_value& at(const size_type index) const
+    basic_value& at(const size_type index)
+    {
+        return const_cast<basic_value&>(static_cast<const basic_value&>(*this).at(index));
+    }
+
+    const basic_value& at(const size_type index) const
     {
         if (!is_array())
         {
@@ -787,12 +792,17 @@ public:
     }
 
     template <typename _CharTy>
-    inline basic_value& operator[](_CharTy* key) const
+    inline const basic_value& operator[](_CharTy* key) const
     {
         return at(key);
     }
 
-    basic_value& at(const typename object_type::key_type& key) const
+    basic_value& at(const typename object_type::key_type& key)
+    {
+        return const_cast<basic_value&>(static_cast<const basic_value&>(*this).at(key));
+    }
+
+    const basic_value& at(const typename object_type::key_type& key) const
     {
         if (!is_object())
         {
@@ -808,7 +818,13 @@ public:
     }
 
     template <typename _CharTy>
-    basic_value& at(_CharTy* key) const
+    basic_value& at(_CharTy* key)
+    {
+        return const_cast<basic_value&>(static_cast<const basic_value&>(*this).at(key));
+    }
+
+    template <typename _CharTy>
+    const basic_value& at(_CharTy* key) const
     {
         if (!is_object())
         {
-- 
2.43.0


From ceffb213c54a73b04552f2ac0ab2971693f956fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 22/25] fix: report a failed output stream instead of losing
 the text

---
 include/configor/details/serializer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index 6eba96f..bb1271f 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -60,6 +60,8 @@ public:
         {
             do_dump(c);
             next(token_type::end_of_input);
+            if (!os_.good())
+                throw configor_serialization_error("the output stream failed");
         }
         catch (...)
         {
-- 
2.43.0


From 7d06e844382afec42cdf062d0e6f0bb6fa6dc48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 23/25] fix: release the payload when a conversion fails inside
 a constructor

---
 include/configor/details/value.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 463bc5e..0bbb34c 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -156,8 +156,7 @@ public:
               typename std::enable_if<!is_value<_UTy>::value && detail::has_to_value<basic_value, _UTy>::value,
                                       int>::type = 0>
     basic_value(_CompatibleTy&& value)
-        : type_{ value_constant::null }
-        , data_{}
+        : basic_value(nullptr)
     {
         binder_type<_UTy>::to_value(*this, std::forward<_CompatibleTy>(value));
     }
-- 
2.43.0


From b8dbe0a0e08533a4ff04cb64e3bb8ab02f937e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 24/25] fix: refuse object members without a colon and a value

---
 include/configor/details/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 2fc455d..0cce6f5 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -185,7 +185,7 @@ protected:
 
                 token = scan();
                 if (token != token_type::name_separator)
-                    break;
+                    fail(token, token_type::name_separator);
 
                 _ValTy object;
                 do_parse(object, token);
-- 
2.43.0


From 8cb60a160de672696989b78b0048674a6669fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 25/25] fix: a float whose digits are rounded to an integer
 keeps its fraction when written

---
 include/configor/json.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 188d363..2b36ff5 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -921,7 +921,17 @@ public:
         }
         else
         {
-            this->os_ << f;
+            fast_basic_ostringstream<target_char_type> ss;
+            ss.imbue(this->os_.getloc());
+            ss.flags(this->os_.flags());
+            ss.precision(this->os_.precision());
+            ss << f;
+
+            // rounding may leave nothing but digits, which would be read as an integer
+            const target_char_type marks[] = { '.', 'e', 'E', '\0' };
+            this->os_ << ss.str();
+            if (ss.str().find_first_of(marks) == ss.str().npos)
+                this->os_ << ".0";
         }
     }
 
-- 
2.43.0


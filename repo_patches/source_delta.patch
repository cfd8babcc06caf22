From 423c69b1efd104fbb45eeb335df7cfa78982ebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 01/19] fix: abs_rev does not compile for float and long double

---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index a9289fb..b8c8f9e 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -207,7 +207,7 @@ mpfr_bin_ieee754_flavor<T>::abs_rev(mpfr_bin_ieee754_flavor<T>::representation c
     if (c.second < 0.0)
         return empty();
 
-    representation p(std::max(0.0, c.first), c.second);
+    representation p(std::max(static_cast<T>(0.0), c.first), c.second);
     representation n = neg(p);
 
     return convex_hull(intersection(p, x), intersection(n, x));
-- 
2.43.0


From 29de7eeac7491785a5dc256a1df9d7cc50c33962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 02/19] fix: exception state and control word are shared
 between threads

The documentation promises thread local storage for both.
---
 p1788/exception/exception.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/exception/exception.hpp b/p1788/exception/exception.hpp
index c63100b..83bae89 100644
--- a/p1788/exception/exception.hpp
+++ b/p1788/exception/exception.hpp
@@ -100,7 +100,7 @@ inline exception_bits& operator^= (exception_bits& x, exception_bits y)
 inline exception_bits& cwd()
 {
     // Thread local cwd
-    static exception_bits exception_cwd_ = none_bit;
+    static thread_local exception_bits exception_cwd_ = none_bit;
 
     return exception_cwd_;
 }
@@ -183,7 +183,7 @@ public:
 inline exception_bits& state()
 {
     // Thread local exception state
-    static exception_bits exception_state_ = none_bit;
+    static thread_local exception_bits exception_state_ = none_bit;
 
     return exception_state_;
 }
-- 
2.43.0


From 703ab518492adf9db3ce1f5f0426c6b9cf89f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 03/19] fix: is_valid(decoration) is defined non-inline in a
 header

---
 p1788/decoration/decoration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/decoration/decoration.hpp b/p1788/decoration/decoration.hpp
index 8f18f59..502a9e6 100644
--- a/p1788/decoration/decoration.hpp
+++ b/p1788/decoration/decoration.hpp
@@ -64,7 +64,7 @@ enum class decoration : uint8_t
 
 
 
-bool is_valid(decoration dec)
+inline bool is_valid(decoration dec)
 {
     switch(dec)
     {
-- 
2.43.0


From bd31288303f724eba44ca38c082708e29d2a62a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 04/19] fix: heap buffer overflow in mpfr_var::get_str

The conditional operator has a lower precedence than +, so the buffer was
sized by the whole sum being non-zero, and the hex case ignored the
precision. Let MPFR tell the required length.
---
 p1788/util/mpfr_var.hpp      |  2 +
 p1788/util/mpfr_var_impl.hpp | 94 ++----------------------------------
 2 files changed, 7 insertions(+), 89 deletions(-)

diff --git a/p1788/util/mpfr_var.hpp b/p1788/util/mpfr_var.hpp
index 490d93d..c87a20c 100644
--- a/p1788/util/mpfr_var.hpp
+++ b/p1788/util/mpfr_var.hpp
@@ -29,7 +29,9 @@
 #define MPFR_USE_INTMAX_T
 
 #include <mpfr.h>
+#include <algorithm>
 #include <string>
+#include <vector>
 
 #include "p1788/io/io_manip.hpp"
 
diff --git a/p1788/util/mpfr_var_impl.hpp b/p1788/util/mpfr_var_impl.hpp
index 1b15392..dafffde 100644
--- a/p1788/util/mpfr_var_impl.hpp
+++ b/p1788/util/mpfr_var_impl.hpp
@@ -234,119 +234,35 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
 {
     std::string format = width > 0 ? "%" + std::to_string(width) : "%";
 
-    size_t req_string_width =  0;
-
     switch (rep)
     {
     case p1788::io::decimal_representation:
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "F" : "f";
-
-        {
-            // Compute  upper bound for required integer digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_digits;
-            mpfr_abs(req_digits(), var_, MPFR_RNDU);
-            mpfr_log10(req_digits(), req_digits(), MPFR_RNDU);
-
-            req_string_width = 1                                                             // for the sign
-                               + req_digits.template get<unsigned long int>(MPFR_RNDD) + 1   // for the digits
-                               + 3                                                           // for dot
-                               + precision > 0 ? precision : 6;                              // for the digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     case p1788::io::scientific_representation:
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "E" : "e";
-        {
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 3                                                            // for the pattern "-1."
-                               + precision > 0 ? precision : 6                              // for the digits
-                               + 2                                                          // for the pattern "E+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;    // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     case p1788::io::hex_representation:
         format += precision > 0 ? "." + std::to_string(precision) : "";     // no precision prints sufficient digits for an exact rep
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "A" : "a";
-        {
-            // Compute  upper bound of required hex digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_prec(PREC_, MPFR_RNDU);
-            mpfr_div_d(req_prec(), req_prec(), 4.0, MPFR_RNDU);     // 4 mantissa bits per hex digit
-
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 5                                                            // for the pattern "-0X1."
-                               + req_prec.template get<unsigned long int>(MPFR_RNDU) + 1    // for the hex digits
-                               + 2                                                          // for the pattern "P+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;    // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     default:    // decimal_scientific
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "G" : "g";
-        {
-            // Compute  upper bound of required integer digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_digits;
-            mpfr_abs(req_digits(), var_, MPFR_RNDU);
-            mpfr_log10(req_digits(), req_digits(), MPFR_RNDU);
-
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 1                                                             // for the sign
-                               + req_digits.template get<unsigned long int>(MPFR_RNDD) + 1   // for the digits
-                               + 3                                                           // for dot
-                               + precision > 0 ? precision : 6                               // for the digits
-                               + 2                                                           // for the pattern "E+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;     // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     }
 
-    // RAII for char array
-    struct string_buffer
-    {
-        char* data;
-
-        string_buffer(size_t n)
-        {
-            data = new char[n + 1];     // take "\0" into account
-        }
-
-        ~string_buffer()
-        {
-            delete[] data;
-        };
-    } buffer(req_string_width);
-
-    // generate string
-    mpfr_sprintf(buffer.data, format.c_str(), rnd, var_ );
-    return buffer.data;
+    // determine the required string length and generate the string
+    std::vector<char> buffer(std::max(mpfr_snprintf(nullptr, 0, format.c_str(), rnd, var_), 0) + 1);   // take "\0" into account
+    mpfr_snprintf(buffer.data(), buffer.size(), format.c_str(), rnd, var_);
+
+    return buffer.data();
 }
 
 // Reference to the underlying mpfr_t
-- 
2.43.0


From 527fee9bd6d651e95ccebffc5e81dd293d74df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 05/19] fix: interval literals are written with the decimal
 point of the C locale

Under a locale with a comma the literal [1.5,2.5] came out as [1,5,2,5],
which is a different literal or none.
---
 p1788/util/mpfr_var.hpp      |  1 +
 p1788/util/mpfr_var_impl.hpp | 11 ++++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/p1788/util/mpfr_var.hpp b/p1788/util/mpfr_var.hpp
index c87a20c..65a2f17 100644
--- a/p1788/util/mpfr_var.hpp
+++ b/p1788/util/mpfr_var.hpp
@@ -30,6 +30,7 @@
 
 #include <mpfr.h>
 #include <algorithm>
+#include <clocale>
 #include <string>
 #include <vector>
 
diff --git a/p1788/util/mpfr_var_impl.hpp b/p1788/util/mpfr_var_impl.hpp
index dafffde..a4285fb 100644
--- a/p1788/util/mpfr_var_impl.hpp
+++ b/p1788/util/mpfr_var_impl.hpp
@@ -262,7 +262,16 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
     std::vector<char> buffer(std::max(mpfr_snprintf(nullptr, 0, format.c_str(), rnd, var_), 0) + 1);   // take "\0" into account
     mpfr_snprintf(buffer.data(), buffer.size(), format.c_str(), rnd, var_);
 
-    return buffer.data();
+    std::string str = buffer.data();
+
+    // MPFR uses the decimal point of the current C locale, but literals are written with '.'
+    std::string const point = std::localeconv()->decimal_point;
+    size_t const pos = point == "." ? std::string::npos : str.find(point);
+
+    if (pos != std::string::npos)
+        str.replace(pos, point.size(), ".");
+
+    return str;
 }
 
 // Reference to the underlying mpfr_t
-- 
2.43.0


From 3a7e58e3f9296643ec59f125731d8bf88018fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 06/19] fix: huge exponents in interval literals throw or
 exhaust memory

std::stoi throws std::out_of_range, which escapes from the extraction, and
an exponent of e.g. 2000000000 makes GMP compute that power of ten. Limit
exponents to a magnitude where the value has left the number format.
---
 .../setbased/mpfr_bin_ieee754_flavor.hpp      |  1 +
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 23 +++++++++++++------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
index c34828b..00b6ff5 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
@@ -33,6 +33,7 @@
 #include <iostream>
 #include <algorithm>
 #include <cctype>
+#include <cstdlib>
 #include <sstream>
 #include <regex>
 
diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 3697d20..abc88f9 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -540,6 +540,15 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
         mpq_t var_;
     };
 
+    // Exponent of a literal with the given digits, limited to a magnitude far beyond the point where any
+    // such digits overflow or underflow the number format
+    auto literal_exponent = [] (std::string const& exponent, std::string const& digits)
+    {
+        long int const limit = 100000l + 4l * static_cast<long int>(digits.size());
+
+        return static_cast<int>(std::max(-limit, std::min(limit, std::strtol(exponent.c_str(), nullptr, 10))));
+    };
+
     // remove whitespaces if necessary
     if (is.flags() & std::ios_base::skipws)
     {
@@ -691,7 +700,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[3].length() > 0)
                                     {
-                                        p += std::stoi(match[3].str());
+                                        p += literal_exponent(match[3].str(), n_str);
                                     }
 
                                     mpz_var e;
@@ -749,7 +758,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[5].str());
+                                    p += literal_exponent(match[5].str(), n_str);
 
 
                                     mpz_var e;
@@ -850,7 +859,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[13].length() > 0)
                                     {
-                                        p += std::stoi(match[13].str());
+                                        p += literal_exponent(match[13].str(), n_str);
                                     }
 
                                     mpz_var e;
@@ -897,7 +906,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[15].str());
+                                    p += literal_exponent(match[15].str(), n_str);
 
                                     mpz_var e;
                                     mpz_ui_pow_ui(e.var_, 2, std::abs(p));
@@ -962,7 +971,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[22].length() > 0)
                                     {
-                                        p += std::stoi(match[22].str());
+                                        p += literal_exponent(match[22].str(), n_str);
                                     }
 
                                     mpz_var e;
@@ -1009,7 +1018,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[24].str());
+                                    p += literal_exponent(match[24].str(), n_str);
 
                                     mpz_var e;
                                     mpz_ui_pow_ui(e.var_, 2, std::abs(p));
@@ -1240,7 +1249,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             // exponent (and precision)
                             if (match[6].length() > 0)
                             {
-                                p += std::stoi(match[6].str());
+                                p += literal_exponent(match[6].str(), m_str + match[3].str());
                             }
 
                             mpz_var e;
-- 
2.43.0


From f347c67ead2a6d3173bea1e03f029dd0ca92ce0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 07/19] fix: numbers with a leading plus sign are rejected in
 interval literals

The grammar allows the sign, GMP's parser does not.
---
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index abc88f9..fe8ccd4 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -540,6 +540,12 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
         mpq_t var_;
     };
 
+    // GMP does not accept a leading plus sign
+    auto skip_plus = [] (std::string const& number)
+    {
+        return number.c_str() + (number[0] == '+' ? 1 : 0);
+    };
+
     // Exponent of a literal with the given digits, limited to a magnitude far beyond the point where any
     // such digits overflow or underflow the number format
     auto literal_exponent = [] (std::string const& exponent, std::string const& digits)
@@ -692,7 +698,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
 
                                 // parse number as integer
                                 mpz_var n;
-                                int i = mpz_set_str(n.var_, n_str.c_str(), 10);
+                                int i = mpz_set_str(n.var_, skip_plus(n_str), 10);
 
                                 // everything ok
                                 if (i == 0)
@@ -752,7 +758,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
 
                                 // parse number as integer
                                 mpz_var n;
-                                int i = mpz_set_str(n.var_, n_str.c_str(), 0);
+                                int i = mpz_set_str(n.var_, skip_plus(n_str), 0);
 
                                 // everything ok
                                 if (i == 0)
@@ -793,7 +799,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             {
                                 mpq_var q;
 
-                                int i = mpq_set_str(q.var_, (match[6].str() + "/" + match[7].str()).c_str(), 10);
+                                int i = mpq_set_str(q.var_, skip_plus(match[6].str() + "/" + match[7].str()), 10);
 
                                 mpfr_var l;
                                 mpfr_var u;
@@ -851,7 +857,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 }
 
                                 // parse number as integer
-                                int i = mpz_set_str(zl.var_, n_str.c_str(), 10);
+                                int i = mpz_set_str(zl.var_, skip_plus(n_str), 10);
 
                                 // everything ok
                                 if (i == 0)
@@ -900,7 +906,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 p *= 4;
 
                                 // parse number as integer
-                                int i = mpz_set_str(zl.var_, n_str.c_str(), 0);
+                                int i = mpz_set_str(zl.var_, skip_plus(n_str), 0);
 
                                 // everything ok
                                 if (i == 0)
@@ -928,7 +934,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             }
                             else if (match[16].length() > 0) // rational
                             {
-                                int i = mpq_set_str(ql.var_, (match[16].str() + "/" + match[17].str()).c_str(), 10);
+                                int i = mpq_set_str(ql.var_, skip_plus(match[16].str() + "/" + match[17].str()), 10);
 
                                 if (i == 0)
                                     l.subnormalize(mpfr_set_q(l(), ql.var_, MPFR_RNDD), MPFR_RNDD);
@@ -963,7 +969,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 }
 
                                 // parse number as integer
-                                int i = mpz_set_str(zu.var_, n_str.c_str(), 10);
+                                int i = mpz_set_str(zu.var_, skip_plus(n_str), 10);
 
                                 // everything ok
                                 if (i == 0)
@@ -1012,7 +1018,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 p *= 4;
 
                                 // parse number as integer
-                                int i = mpz_set_str(zu.var_, n_str.c_str(), 0);
+                                int i = mpz_set_str(zu.var_, skip_plus(n_str), 0);
 
                                 // everything ok
                                 if (i == 0)
@@ -1040,7 +1046,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             }
                             else if (match[25].length() > 0) // rational
                             {
-                                int i = mpq_set_str(qu.var_, (match[25].str() + "/" + match[26].str()).c_str(), 10);
+                                int i = mpq_set_str(qu.var_, skip_plus(match[25].str() + "/" + match[26].str()), 10);
 
                                 if (i == 0)
                                     u.subnormalize(mpfr_set_q(u(), qu.var_, MPFR_RNDU), MPFR_RNDU);
@@ -1227,7 +1233,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
 
                         // parse number as integer
                         mpz_var m;
-                        int im = mpz_set_str(m.var_, m_str.c_str(), 10);
+                        int im = mpz_set_str(m.var_, skip_plus(m_str), 10);
 
                         mpz_var ulps;
                         int iu = 0;
-- 
2.43.0


From 5cb9ba4dd2f6fac546af243f2ca506c552ed032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 08/19] fix: extraction stores a value although the stream
 failed

When the device fails while looking for a decoration suffix, the stream is
bad, but the target was assigned.
---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index fe8ccd4..aca6511 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -1089,7 +1089,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             }
 
                             // default decoration
-                            if (!read_decoration)
+                            if (!read_decoration && !is.bad())
                             {
                                 // if is.peek() == '_' reached eof than reset state
                                 if (is.eof())
@@ -1376,7 +1376,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 }
 
                                 // default decoration
-                                if (!read_decoration)
+                                if (!read_decoration && !is.bad())
                                 {
                                     // if is.peek() == '_' reached eof than reset state
                                     if (is.eof())
-- 
2.43.0


From 26aa44b57fb2035b5739c1fca8b96b55f07bbc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 09/19] fix: cancel_minus does not check the validity of its
 second operand

---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index c92b805..47a2c67 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -86,7 +86,7 @@ typename mpfr_bin_ieee754_flavor<T>::representation
 mpfr_bin_ieee754_flavor<T>::cancel_minus(mpfr_bin_ieee754_flavor<T>::representation const& x,
         mpfr_bin_ieee754_flavor<T>::representation const& y)
 {
-    if (!is_valid(x) || !is_valid(x))
+    if (!is_valid(x) || !is_valid(y))
         return empty();
 
     if (x.first == -std::numeric_limits<T>::infinity()
-- 
2.43.0


From 0b8ab8abb6a97ec1d985d2ba1180ffcaeba65cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 10/19] fix: reductions leak every element and round products
 before summing

The mpfr_t objects were cleared but never deleted, everything was lost when
an iterator or an allocation threw, and squares and products were rounded
to the exponent range of the elements, so that for example sum_sqr of the
largest finite number rounded downward was infinity.
---
 p1788/reduction/reduction.hpp | 184 ++++++++++++++++++----------------
 1 file changed, 99 insertions(+), 85 deletions(-)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index a56a01e..0900de9 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -29,6 +29,8 @@
 
 #include <iterator>
 #include <initializer_list>
+#include <list>
+#include <vector>
 
 #include "p1788/util/mpfr_var.hpp"
 
@@ -89,74 +91,93 @@ class reduction_sum_op
 public:
 
     // perform op on one iterator
-    reduction_sum_op(void (*op) (Iter, mpfr_ptr*), Iter begin, Iter end, rnd_mode rnd) : n_(end - begin)
+    reduction_sum_op(void (*op) (Iter, mpfr_ptr), mpfr_prec_t prec, Iter begin, Iter end, rnd_mode rnd)
     {
-        mpfr_var::setup();
-        tab_ = new mpfr_ptr[n_];    // array of elemets
-
-        mpfr_ptr* p = tab_;
-
         // perform op on iterator
         while (begin != end)
-            op(begin++, p++);
-
-        mpfr_var res;
+            op(begin++, add_element(prec));
 
-        // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        accumulate(rnd);
+    }
 
-        // get result
-        result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
+    // perform op on two interators
+    reduction_sum_op(void (*op) (Iter, Iter, mpfr_ptr), mpfr_prec_t prec, Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd)
+    {
+        // perform op on iterator
+        while (begin_a != end_a)
+            op(begin_a++, begin_b++, add_element(prec));
 
-        if (result_ == 0.0)
-            result_ = rnd == rnd_mode::downward ? -0.0 : 0.0;
+        accumulate(rnd);
     }
 
-    // perform op on two interators
-    reduction_sum_op(void (*op) (Iter, Iter, mpfr_ptr*), Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd) : n_(end_a - begin_a)
+    // get result
+    typename std::iterator_traits<Iter>::value_type
+    result()
     {
-        mpfr_var::setup();
-        tab_ = new mpfr_ptr[n_];    // array of elemets
+        return result_;
+    }
 
-        mpfr_ptr* p = tab_;
+private:
 
-        // perform op on iterator
-        while (begin_a != end_a)
-            op(begin_a++, begin_b++, p++);
+    // RAII for mpfr_t
+    struct element
+    {
+        element(mpfr_prec_t prec)
+        {
+            mpfr_init2(var_, prec);
+        }
 
-        mpfr_var res;
+        ~element()
+        {
+            mpfr_clear(var_);
+        }
 
-        // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        element(element const&) = delete;
+        element& operator=(element const&) = delete;
 
-        // get result
-        result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
+        mpfr_t var_;
+    };
 
-        if (result_ == 0.0)
-            result_ = rnd == rnd_mode::downward ? -0.0 : 0.0;
+    // add a new element
+    mpfr_ptr add_element(mpfr_prec_t prec)
+    {
+        elements_.emplace_back(prec);
+
+        return elements_.back().var_;
     }
 
-    // cleanup
-    ~reduction_sum_op()
+    // sum of all elements
+    void accumulate(rnd_mode rnd)
     {
-        for(mpfr_ptr* b = tab_; b != tab_ + n_; ++b)
-            mpfr_clear(*b);
+        mpfr_rnd_t const mpfr_rnd = get_mpfr_rnd_mode(rnd);
 
-        delete[] tab_;
+        std::vector<mpfr_ptr> tab;
 
-    }
+        for (element& e : elements_)
+            tab.push_back(e.var_);
 
-    // get result
-    typename std::iterator_traits<Iter>::value_type
-    result()
-    {
-        return result_;
+        mpfr_var res;
+
+        // accumulate without leaving the exponent range
+        mpfr_set_emin(mpfr_get_emin_min());
+        mpfr_set_emax(mpfr_get_emax_max());
+
+        int t = mpfr_sum(res(), tab.data(), tab.size(), mpfr_rnd);
+
+        // round to the number format
+        mpfr_var::setup();
+        t = mpfr_check_range(res(), t, mpfr_rnd);
+        res.subnormalize(t, mpfr_rnd);
+
+        // get result
+        result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(mpfr_rnd);
+
+        if (result_ == 0.0)
+            result_ = rnd == rnd_mode::downward ? -0.0 : 0.0;
     }
 
-private:
-    size_t const n_;
+    std::list<element> elements_;
     typename std::iterator_traits<Iter>::value_type result_;
-    mpfr_ptr* tab_;
 };
 
 
@@ -178,17 +199,16 @@ inline sum(Iter begin, Iter end, rnd_mode rnd)
         > mpfr_var;
 
     reduction_sum_op<Iter> op(
-        [] (Iter i, mpfr_ptr* p)
+        [] (Iter i, mpfr_ptr p)
     {
-        *p = new mpfr_t;
-
-        mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits);
+        typename std::iterator_traits<Iter>::value_type const x = *i;
 
-        mpfr_var tmp(*i, MPFR_RNDN);
+        mpfr_var::setup();
+        mpfr_var tmp(x, MPFR_RNDN);
 
-        mpfr_set(*p, tmp(), MPFR_RNDN);
+        mpfr_set(p, tmp(), MPFR_RNDN);
     },
-    begin, end, rnd
+    mpfr_var::PREC, begin, end, rnd
     );
 
     return op.result();
@@ -219,18 +239,17 @@ inline sum_abs(Iter begin, Iter end, rnd_mode rnd)
         > mpfr_var;
 
     reduction_sum_op<Iter> op(
-        [] (Iter i, mpfr_ptr* p)
+        [] (Iter i, mpfr_ptr p)
     {
-        *p = new mpfr_t;
-
-        mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits);
+        typename std::iterator_traits<Iter>::value_type const x = *i;
 
-        mpfr_var tmp(*i, MPFR_RNDN);
+        mpfr_var::setup();
+        mpfr_var tmp(x, MPFR_RNDN);
         mpfr_abs(tmp(), tmp(), MPFR_RNDN);
 
-        mpfr_set(*p, tmp(), MPFR_RNDN);
+        mpfr_set(p, tmp(), MPFR_RNDN);
     },
-    begin, end, rnd
+    mpfr_var::PREC, begin, end, rnd
     );
 
     return op.result();
@@ -250,29 +269,26 @@ template<class Iter>
 typename std::iterator_traits<Iter>::value_type
 inline sum_sqr(Iter begin, Iter end, rnd_mode rnd)
 {
-    // Typedef for the corresponding mpfr wrapper class representing the IEEE 754 binary floating point format of the iterator value type with twice the mantissa size
+    // Typedef for a mpfr wrapper class representing all products of two numbers of the iterator value type
     typedef p1788::util::mpfr_var<
     std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits * 2,
-        std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::has_denorm != std::denorm_present
-        ? std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::min_exponent
-        : std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::min_exponent - std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits * 2 + 1,
-        std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::max_exponent,
-        std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::has_denorm == std::denorm_present
+        2 * (std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::min_exponent - std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits),
+        2 * std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::max_exponent,
+        false
         > mpfr_var;
 
     reduction_sum_op<Iter> op(
-        [] (Iter i, mpfr_ptr* p)
+        [] (Iter i, mpfr_ptr p)
     {
-        *p = new mpfr_t;
-
-        mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits * 2);
+        typename std::iterator_traits<Iter>::value_type const x = *i;
 
-        mpfr_var tmp(*i, MPFR_RNDN);
+        mpfr_var::setup();
+        mpfr_var tmp(x, MPFR_RNDN);
         mpfr_sqr(tmp(), tmp(), MPFR_RNDN);
 
-        mpfr_set(*p, tmp(), MPFR_RNDN);
+        mpfr_set(p, tmp(), MPFR_RNDN);
     },
-    begin, end, rnd
+    mpfr_var::PREC, begin, end, rnd
     );
 
     return op.result();
@@ -292,31 +308,29 @@ template<class Iter>
 typename std::iterator_traits<Iter>::value_type
 inline dot(Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd)
 {
-    // Typedef for the corresponding mpfr wrapper class representing the IEEE 754 binary floating point format of the iterator value type with twice the mantissa size
+    // Typedef for a mpfr wrapper class representing all products of two numbers of the iterator value type
     typedef p1788::util::mpfr_var<
     std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits * 2,
-        std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::has_denorm != std::denorm_present
-        ? std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::min_exponent
-        : std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::min_exponent - std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits * 2 + 1,
-        std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::max_exponent,
-        std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::has_denorm == std::denorm_present
+        2 * (std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::min_exponent - std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits),
+        2 * std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::max_exponent,
+        false
         > mpfr_var;
 
     reduction_sum_op<Iter> op(
-        [] (Iter a, Iter b, mpfr_ptr* p)
+        [] (Iter a, Iter b, mpfr_ptr p)
     {
-        *p = new mpfr_t;
-
-        mpfr_init2(*p, std::numeric_limits<typename std::iterator_traits<Iter>::value_type>::digits * 2);
+        typename std::iterator_traits<Iter>::value_type const x = *a;
+        typename std::iterator_traits<Iter>::value_type const y = *b;
 
-        mpfr_var tmp_a(*a, MPFR_RNDN);
-        mpfr_var tmp_b(*b, MPFR_RNDN);
+        mpfr_var::setup();
+        mpfr_var tmp_a(x, MPFR_RNDN);
+        mpfr_var tmp_b(y, MPFR_RNDN);
 
         mpfr_mul(tmp_a(), tmp_a(), tmp_b(), MPFR_RNDN);
 
-        mpfr_set(*p, tmp_a(), MPFR_RNDN);
+        mpfr_set(p, tmp_a(), MPFR_RNDN);
     },
-    begin_a, end_a, begin_b, rnd
+    mpfr_var::PREC, begin_a, end_a, begin_b, rnd
     );
 
     return op.result();
-- 
2.43.0


From a8fd54c35771402aa0fc45c5444b26bb27caf3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 11/19] fix: uncertain form throws or is wrong for bounds with
 many digits

The digits of a bound were held in a long long, digits were cut off beyond
the beginning of the string, and the exponent of the midpoint was read from
as many characters as the significand has.
---
 .../setbased/mpfr_bin_ieee754_flavor.hpp      |  1 +
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 69 +++++++++++++++----
 2 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
index 00b6ff5..1ed6f51 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
@@ -36,6 +36,7 @@
 #include <cstdlib>
 #include <sstream>
 #include <regex>
+#include <vector>
 
 #include <gmp.h>
 #include <mpfr.h>
diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index aca6511..ea754fd 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -134,6 +134,37 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
         }
         else    // all other
         {
+            // RAII for mpz_t, the digits of a bound do not fit into a built-in integer type
+            struct mpz_var
+            {
+                mpz_var(std::string const& digits) : var_()
+                {
+                    mpz_init_set_str(var_, digits.c_str(), 10);
+                }
+
+                ~mpz_var()
+                {
+                    mpz_clear(var_);
+                }
+
+                mpz_t var_;
+            };
+
+            // removes the last n digits and returns true if they are not all zero
+            auto remove_digits = [] (std::string& digits, size_t n)
+            {
+                size_t const sign = digits[0] == '-' ? 1 : 0;
+                n = std::min(n, digits.size() - sign);
+
+                bool const res = digits.find_first_not_of('0', digits.size() - n) != std::string::npos;
+                digits.resize(digits.size() - n);
+
+                if (digits.size() == sign)
+                    digits = "0";
+
+                return res;
+            };
+
             mpfr_var::setup();
             mpfr_var xl(x.first, MPFR_RNDD);
             mpfr_var xu(x.second, MPFR_RNDU);
@@ -158,7 +189,7 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
 
             std::string exp_str = "";
 
-            long long int ulps = 0;
+            mpz_var ulps("0");
 
             // symmetric
             if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_representation)
@@ -186,7 +217,7 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                 tmp_m.erase(tmp_m.size() - prec - 1, 1);
 
                 // compute exponent difference
-                int exp_m = p_m >= 0 ? std::stoi(exp_str.substr(1, tmp_m.size() - 1)) : 0;
+                int exp_m = p_m >= 0 ? std::stoi(exp_str.substr(1)) : 0;
                 int ulp_l = 0;
                 int ulp_u = 0;
                 if (p_l >= 0)
@@ -199,8 +230,7 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                     if (exp_l < 0)
                     {
                         // remove trailing digits and remind ulp if necessary
-                        ulp_l = std::stoll(tmp_l.substr(tmp_l.size() + exp_l)) != 0 && x.first < 0.0 ? 1 : 0;
-                        tmp_l.resize(tmp_l.size() + exp_l);
+                        ulp_l = remove_digits(tmp_l, -exp_l) && x.first < 0.0 ? 1 : 0;
                     }
                     else if (exp_l > 0)
                         // add some digits
@@ -222,8 +252,7 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                     if (exp_u > 0)
                     {
                         // remove trailing digits and remind ulp if necessary
-                        ulp_u = std::stoll(tmp_u.substr(tmp_u.size() - exp_u)) != 0 && x.second > 0.0  ? 1 : 0;
-                        tmp_u.resize(tmp_u.size() - exp_u);
+                        ulp_u = remove_digits(tmp_u, exp_u) && x.second > 0.0  ? 1 : 0;
                     }
                     else if (exp_u < 0)
                         // add some digits
@@ -236,10 +265,17 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                 }
 
                 // compute max ulps to lower and upper bound
-                long long int tmp = std::stoll(tmp_m);
+                mpz_var m_digits(tmp_m);
+                mpz_var l_digits(tmp_l);
+                mpz_var u_digits(tmp_u);
+
+                mpz_sub(l_digits.var_, m_digits.var_, l_digits.var_);
+                mpz_add_ui(l_digits.var_, l_digits.var_, ulp_l);
 
-                ulps = std::max(-std::stoll(tmp_l) + tmp + ulp_l,
-                                -tmp + std::stoll(tmp_u) + ulp_u);
+                mpz_sub(u_digits.var_, u_digits.var_, m_digits.var_);
+                mpz_add_ui(u_digits.var_, u_digits.var_, ulp_u);
+
+                mpz_set(ulps.var_, mpz_cmp(l_digits.var_, u_digits.var_) < 0 ? u_digits.var_ : l_digits.var_);
             }
             else // downward or upward
             {
@@ -281,8 +317,7 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                     if (exp < 0)
                     {
                         // remove trailing digits and adjust ulps if necessary
-                        ulps += std::stoll(tmp_l.substr(tmp_l.size() + exp)) != 0 && x.first < 0.0 ? 1 : 0;
-                        tmp_l.resize(tmp_l.size() + exp);
+                        mpz_add_ui(ulps.var_, ulps.var_, remove_digits(tmp_l, -exp) && x.first < 0.0 ? 1 : 0);
                     }
                     else if (exp > 0)
                         // add some digits
@@ -293,8 +328,7 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                     if (exp > 0)
                     {
                         // remove trailing digits and adjust ulps if necessary
-                        ulps += std::stoll(tmp_u.substr(tmp_u.size() - exp)) != 0 && x.second > 0.0  ? 1 : 0;
-                        tmp_u.resize(tmp_u.size() - exp);
+                        mpz_add_ui(ulps.var_, ulps.var_, remove_digits(tmp_u, exp) && x.second > 0.0  ? 1 : 0);
                     }
                     else if (exp < 0)
                         // add some digits
@@ -302,10 +336,15 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                 }
 
                 // compute ulps
-                ulps += -std::stoll(tmp_l) +  std::stoll(tmp_u);
+                mpz_var l_digits(tmp_l);
+                mpz_var u_digits(tmp_u);
+
+                mpz_add(ulps.var_, ulps.var_, u_digits.var_);
+                mpz_sub(ulps.var_, ulps.var_, l_digits.var_);
             }
 
-            str += "?" + std::to_string(ulps);
+            std::vector<char> ulps_str(mpz_sizeinbase(ulps.var_, 10) + 2);
+            str += "?" + std::string(mpz_get_str(ulps_str.data(), 10, ulps.var_));
 
             // add downward or upward flag
             switch(os.iword(p1788::io::representation_manip_id))
-- 
2.43.0


From 245e680f9af41a35910d027b6ea6adde3d84c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 12/19] fix: reverse trigonometric functions lose solutions

sin_rev and tan_rev looked at two branches from each bound although the
first solution may be in the third, and all three counted the multiples of
pi in a long and in the number format, which fails for huge bounds.
---
 .../mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 74 +++++++++++++++----
 1 file changed, 58 insertions(+), 16 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index b8c8f9e..c544837 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -706,6 +706,10 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
     mpfr_var tmp;
     long n;
 
+    // beyond this bound multiples of pi can not be counted in the number format,
+    // its numbers are farther apart than the solutions
+    T const max_multiple = std::ldexp(T(1), std::numeric_limits<T>::digits);
+
 
     // move result of asin(c) to the left bound of x (pi-stepwise)
     // to compute the left box of the result
@@ -719,6 +723,11 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         lbox.first = -std::numeric_limits<T>::infinity();
         lbox.second = -std::numeric_limits<T>::max();
     }
+    else if (std::abs(x.first) > max_multiple)
+    {
+        lbox.first = x.first;
+        lbox.second = x.first;
+    }
     else
     {
         // Compute max integer n with: n * pi <= lower bound of x
@@ -726,14 +735,14 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) < 0)
             --n;
 
-        for (int i = 0; is_empty(lbox) && i <= 1; i++)
+        for (int i = 0; is_empty(lbox) && i <= 2; i++)
         {
             if ((n + i) % 2 == 0)     // n is even => move asin(c)
             {
                 tmp.set(n + i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
                 lbox.first = rl.template get<T>(MPFR_RNDD);
                 lbox.second = ru.template get<T>(MPFR_RNDU);
@@ -742,8 +751,8 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n - i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
 
                 lbox.first = -rl.template get<T>(MPFR_RNDD);
                 lbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -767,6 +776,11 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         rbox.first = std::numeric_limits<T>::max();
         rbox.second = std::numeric_limits<T>::infinity();
     }
+    else if (std::abs(x.second) > max_multiple)
+    {
+        rbox.first = x.second;
+        rbox.second = x.second;
+    }
     else
     {
         // Compute min integer n with: n * pi >= upper bound of x
@@ -774,14 +788,14 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) > 0)
             ++n;
 
-        for (int i = 0; is_empty(rbox) && i <= 1; i++)
+        for (int i = 0; is_empty(rbox) && i <= 2; i++)
         {
             if ((n - i) % 2 == 0)     // n is even => move asin(c)
             {
                 tmp.set(n - i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
                 rbox.first = rl.template get<T>(MPFR_RNDD);
                 rbox.second = ru.template get<T>(MPFR_RNDU);
@@ -790,8 +804,8 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n + i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
 
                 rbox.first = -rl.template get<T>(MPFR_RNDD);
                 rbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -953,6 +967,10 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
     mpfr_var tmp;
     long n;
 
+    // beyond this bound multiples of pi can not be counted in the number format,
+    // its numbers are farther apart than the solutions
+    T const max_multiple = std::ldexp(T(1), std::numeric_limits<T>::digits);
+
 
     // move result of acos(c) to the left bound of x (pi-stepwise)
     // to compute the left box of the result
@@ -966,6 +984,11 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         lbox.first = -std::numeric_limits<T>::infinity();
         lbox.second = -std::numeric_limits<T>::max();
     }
+    else if (std::abs(x.first) > max_multiple)
+    {
+        lbox.first = x.first;
+        lbox.second = x.first;
+    }
     else
     {
         // Compute max integer n with: n * pi <= lower bound of x
@@ -1014,6 +1037,11 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         rbox.first = std::numeric_limits<T>::max();
         rbox.second = std::numeric_limits<T>::infinity();
     }
+    else if (std::abs(x.second) > max_multiple)
+    {
+        rbox.first = x.second;
+        rbox.second = x.second;
+    }
     else
     {
         // Compute max integer n with: n * pi <= upper bound of x
@@ -1188,6 +1216,10 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
     mpfr_var tmp;
     long n;
 
+    // beyond this bound multiples of pi can not be counted in the number format,
+    // its numbers are farther apart than the solutions
+    T const max_multiple = std::ldexp(T(1), std::numeric_limits<T>::digits);
+
 
     // move result of atan(c) to the left bound of x (pi-stepwise)
     // to compute the left box of the result
@@ -1201,6 +1233,11 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
         lbox.first = -std::numeric_limits<T>::infinity();
         lbox.second = -std::numeric_limits<T>::max();
     }
+    else if (std::abs(x.first) > max_multiple)
+    {
+        lbox.first = x.first;
+        lbox.second = x.first;
+    }
     else
     {
         // Compute max integer n with: n * pi <= lower bound of x
@@ -1209,12 +1246,12 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
             --n;
 
         // move atan(c)
-        for (int i = 0; is_empty(lbox) && i <= 1; i++)
+        for (int i = 0; is_empty(lbox) && i <= 2; i++)
         {
             tmp.set(n + i, MPFR_RNDN);
 
-            mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
-            mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
+            mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+            mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
             lbox.first = rl.template get<T>(MPFR_RNDD);
             lbox.second = ru.template get<T>(MPFR_RNDU);
@@ -1237,6 +1274,11 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
         rbox.first = std::numeric_limits<T>::max();
         rbox.second = std::numeric_limits<T>::infinity();
     }
+    else if (std::abs(x.second) > max_multiple)
+    {
+        rbox.first = x.second;
+        rbox.second = x.second;
+    }
     else
     {
         // Compute min integer n with: n * pi >= upper bound of x
@@ -1245,12 +1287,12 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
             ++n;
 
         // move atan(c)
-        for (int i = 0; is_empty(rbox) && i <= 1; i++)
+        for (int i = 0; is_empty(rbox) && i <= 2; i++)
         {
             tmp.set(n - i, MPFR_RNDN);
 
-            mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
-            mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
+            mpfr_fma(rl(), tmp(), mpfr_sgn(tmp()) < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+            mpfr_fma(ru(), tmp(), mpfr_sgn(tmp()) < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
             rbox.first = rl.template get<T>(MPFR_RNDD);
             rbox.second = ru.template get<T>(MPFR_RNDU);
-- 
2.43.0


From 05e8c31932104629aaabb42b07771d4be7b859f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 13/19] fix: mixed type cancel_plus rounds its second operand
 to the result type

A wider second operand makes the result narrower, so that it no longer
contains the difference of the bounds.
---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index 47a2c67..435742c 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -56,7 +56,7 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 template<typename T>
@@ -76,7 +76,7 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 
-- 
2.43.0


From cd9f0dc0d0247767a1d136d95a8b0570f8cc7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:02 +0000
Subject: [PATCH 14/19] fix: decoration of a written interval is lost or torn
 off

The suffix was put together in a separate stream that used the field width
and number base of the output stream, so that [1,2]_com became
'[1,2]   _com' and [1,2]_16 became '[1,2]_10', and whose failure (no
memory) was ignored.
---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index ea754fd..7364a3b 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -493,8 +493,17 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
     // generate the decoration string
     std::stringstream buf;
     buf.copyfmt(os);
+    buf.width(0);
+    buf.setf(std::ios_base::dec, std::ios_base::basefield);
     buf << ((os.iword(p1788::io::punctuation_manip_id) == p1788::io::show_no_punctuation) ? " " : "_") << x.second;
 
+    // the decoration must not get lost
+    if (!buf)
+    {
+        os.setstate(std::ios_base::badbit);
+        return os;
+    }
+
 
     // RAII class to handle the string_width_manip
     class string_width_helper
-- 
2.43.0


From c2be3ebd1cff1852765104f6987a3dc75aba7076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:47 +0000
Subject: [PATCH 15/19] fix: numeric decorations are read in the number base
 and locale of the stream

With std::hex [1,2]_16 was rejected and with a grouping locale characters
behind the decoration were taken for a part of the number.
---
 p1788/decoration/decoration.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/p1788/decoration/decoration.hpp b/p1788/decoration/decoration.hpp
index 502a9e6..47e7469 100644
--- a/p1788/decoration/decoration.hpp
+++ b/p1788/decoration/decoration.hpp
@@ -187,8 +187,14 @@ std::basic_istream<CharT, Traits>& operator>>(
         // starts with digit
         if (std::isdigit(is.peek()))
         {
-            unsigned int n;
-            is >> n;
+            // independent of the number base and the locale of the stream
+            unsigned int n = 0;
+
+            for (int c = is.peek(); is && std::isdigit(c); c = is.peek())
+            {
+                n = std::min(10 * n + static_cast<unsigned int>(c - '0'), 1000u);
+                is.get();
+            }
 
             if (is)
             {
-- 
2.43.0


From cea503d1e39c00de6d76624cf803efb08896f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 16/19] fix: cubic work for white space in interval literals

The optional bounds of the regular expression could match the empty string
between two runs of white space, so that a malformed literal of 1600
characters took minutes to be rejected.
---
 .../setbased/mpfr_bin_ieee754_flavor_io_impl.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 7364a3b..1f6c365 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -672,24 +672,24 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                     //    [27] :  string if second argument is "+inf" or "+infinity"
                     static std::regex inf_sup_regex(
                         //one argument or empty
-                        "(?:\\[\\s*("
-                        "|(?:([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))(?:e([+-]?[0-9]+))?)"             // float
+                        "(?:\\[\\s*(?:("
+                        "(?:([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))(?:e([+-]?[0-9]+))?)"             // float
                         "|(?:([+-]?0x(?:(?:[0-9a-f]*\\.[0-9a-f]+)|(?:[0-9a-f]+[\\.])|(?:[0-9a-f]+)))(?:p([+-]?[0-9]+)))"   // hex
                         "|(?:([+-]?[0-9]+)\\s*/\\s*([0]*[1-9][0-9]*))"                                              // rational
                         "|(?:(empty)|(entire)|(nai))"                                                               // empty, entire, nai strings
-                        ")?\\s*\\])"
+                        ")\\s*)?\\])"
                         // two arguments separated by a comma
-                        "|(?:\\[\\s*("
-                        "|(?:([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))(?:e([+-]?[0-9]+))?)"             // float
+                        "|(?:\\[\\s*(?:("
+                        "(?:([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))(?:e([+-]?[0-9]+))?)"             // float
                         "|(?:([+-]?0x(?:(?:[0-9a-f]*\\.[0-9a-f]+)|(?:[0-9a-f]+[\\.])|(?:[0-9a-f]+)))(?:p([+-]?[0-9]+)))"   // hex
                         "|(?:([+-]?[0-9]+)\\s*/\\s*([0]*[1-9][0-9]*))"                                              // rational
                         "|(?:-(inf|infinity))"                                                                // inf string
-                        ")?\\s*(,)\\s*("
-                        "|(?:([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))(?:e([+-]?[0-9]+))?)"             // float
+                        ")\\s*)?(,)\\s*(?:("
+                        "(?:([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))(?:e([+-]?[0-9]+))?)"             // float
                         "|(?:([+-]?0x(?:(?:[0-9a-f]*\\.[0-9a-f]+)|(?:[0-9a-f]+[\\.])|(?:[0-9a-f]+)))(?:p([+-]?[0-9]+)))"   // hex
                         "|(?:([+-]?[0-9]+)\\s*/\\s*([0]*[1-9][0-9]*))"                                              // rational
                         "|(?:[+]?(inf|infinity))"                                                             // inf string
-                        ")?\\s*\\])",
+                        ")\\s*)?\\])",
                         std::regex_constants::icase                                                     // ignore case
                     );
 
-- 
2.43.0


From bc0504bf145413da8df7c89ed13a39184ab7ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:47 +0000
Subject: [PATCH 17/19] fix: interval literals are read with the letter case
 rules of the global locale

The regular expressions used the global C++ locale of their first use. Under
a Turkish locale [ENTIRE], [NAI] and [1,INF] were rejected, for the rest of
the process, also after the locale had been changed.
---
 .../setbased/mpfr_bin_ieee754_flavor_io_impl.hpp   | 10 ++++------
 p1788/util/io.hpp                                  | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 1f6c365..2ac0a34 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -670,7 +670,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                     //    [25] :  rational representation: nominator
                     //    [26] :  rational representation: denominator
                     //    [27] :  string if second argument is "+inf" or "+infinity"
-                    static std::regex inf_sup_regex(
+                    static std::regex const inf_sup_regex = p1788::util::ascii_icase_regex(
                         //one argument or empty
                         "(?:\\[\\s*(?:("
                         "(?:([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))(?:e([+-]?[0-9]+))?)"             // float
@@ -689,8 +689,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                         "|(?:([+-]?0x(?:(?:[0-9a-f]*\\.[0-9a-f]+)|(?:[0-9a-f]+[\\.])|(?:[0-9a-f]+)))(?:p([+-]?[0-9]+)))"   // hex
                         "|(?:([+-]?[0-9]+)\\s*/\\s*([0]*[1-9][0-9]*))"                                              // rational
                         "|(?:[+]?(inf|infinity))"                                                             // inf string
-                        ")\\s*)?\\])",
-                        std::regex_constants::icase                                                     // ignore case
+                        ")\\s*)?\\])"
                     );
 
 
@@ -1241,13 +1240,12 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                     // [4]   direction upward
                     // [5]   direction downward
                     // [6]   exponent
-                    static std::regex uncertain_regex(
+                    static std::regex const uncertain_regex = p1788::util::ascii_icase_regex(
                         "([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))"          // number
                         "\\?"                                                               // ?
                         "(?:(\\?)|([0-9]+))?"                                               // radius
                         "(?:(u|U)|(d|D))?"                                                  // direction
-                        "(?:[eE]([+-]?[0-9]+))?",                                           // exponent
-                        std::regex_constants::icase                                         // ignore case
+                        "(?:[eE]([+-]?[0-9]+))?"                                            // exponent
                     );
 
                     std::smatch match;
diff --git a/p1788/util/io.hpp b/p1788/util/io.hpp
index ce3bf2f..dd10d01 100644
--- a/p1788/util/io.hpp
+++ b/p1788/util/io.hpp
@@ -26,6 +26,8 @@
 #include <iostream>
 #include <cctype>
 #include <ctype.h>
+#include <locale>
+#include <regex>
 #include <string>
 #include <algorithm>
 
@@ -51,11 +53,21 @@ inline void ascii_to_lower(std::string& s)
     std::transform(s.begin(), s.end(), s.begin(),
                    [](int const c)
     {
-        return (c >= 0 && c < 128 ) ? std::tolower(c) : c;
+        return (c >= 'A' && c <= 'Z') ? c - 'A' + 'a' : c;
     }
                   );
 }
 
+// regular expression which ignores the case of letters and does not depend on the global locale
+inline std::regex ascii_icase_regex(char const* str)
+{
+    std::regex r;
+    r.imbue(std::locale::classic());
+    r.assign(str, std::regex_constants::ECMAScript | std::regex_constants::icase);
+
+    return r;
+}
+
 } // namespace util
 
 } // namespace p1788
-- 
2.43.0


From 6948188ea727d38827732b347b7786f81506df3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:12 +0000
Subject: [PATCH 18/19] fix: manipulators applied in another translation unit
 were ignored

---
 p1788/io/io_manip.hpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/p1788/io/io_manip.hpp b/p1788/io/io_manip.hpp
index 84327b7..57b9ebb 100644
--- a/p1788/io/io_manip.hpp
+++ b/p1788/io/io_manip.hpp
@@ -34,8 +34,19 @@ namespace p1788
 namespace io
 {
 
+// Index of the storage of a manipulator in a stream. The index is the same in all translation units of a program.
+template<typename Tag>
+struct manip_id
+{
+    operator int() const
+    {
+        static int const id = std::ios_base::xalloc();
+        return id;
+    }
+};
+
 // Unique ID for a manipulator to choose between lower and upper case
-int const text_representation_manip_id =  std::ios_base::xalloc();
+manip_id<struct text_representation_manip_tag> const text_representation_manip_id = {};
 
 enum text_representation_flags
 {
@@ -77,7 +88,7 @@ std::basic_ostream<CharT, Traits>& upper_case(std::basic_ostream<CharT, Traits>&
 
 
 // Unique ID for a manipulator to choose the preferred string width of an interval or decorated interval
-int const string_width_manip_id =  std::ios_base::xalloc();
+manip_id<struct string_width_manip_tag> const string_width_manip_id = {};
 
 ///@name Output manipulators to choose the preferred width of the whole interval or decorated interval string.
 ///
@@ -105,7 +116,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose between inf sup and uncertain representation
-int const representation_manip_id =  std::ios_base::xalloc();
+manip_id<struct representation_manip_tag> const representation_manip_id = {};
 
 enum representation_flags
 {
@@ -170,7 +181,7 @@ std::basic_ostream<CharT, Traits>& uncertain_down_form(std::basic_ostream<CharT,
 
 
 // Unique ID for a manipulator to choose between decimal, scientifc or hex representation
-int const number_representation_manip_id =  std::ios_base::xalloc();
+manip_id<struct number_representation_manip_tag> const number_representation_manip_id = {};
 
 enum number_representation_flags
 {
@@ -235,7 +246,7 @@ std::basic_ostream<CharT, Traits>& hex(std::basic_ostream<CharT, Traits>& os)
 
 
 // Unique ID for a manipulator to choose the preferred width of a number
-int const width_manip_id =  std::ios_base::xalloc();
+manip_id<struct width_manip_tag> const width_manip_id = {};
 
 ///@name Output manipulators to choose the preferred width of a number.
 ///
@@ -265,7 +276,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose the preferred precision of a number
-int const precision_manip_id =  std::ios_base::xalloc();
+manip_id<struct precision_manip_tag> const precision_manip_id = {};
 
 ///@name Output manipulators to choose the precision of a number.
 ///
@@ -294,7 +305,7 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose between different text representaions for special intervals
-int const special_representation_manip_id =  std::ios_base::xalloc();
+manip_id<struct special_representation_manip_tag> const special_representation_manip_id = {};
 
 enum interval_special_representation_flags
 {
@@ -347,7 +358,7 @@ std::basic_ostream<CharT, Traits>& special_no_bounds(std::basic_ostream<CharT, T
 
 
 // Unique ID for a manipulator to choose between interval representaions with or without punctuation
-int const punctuation_manip_id =  std::ios_base::xalloc();
+manip_id<struct punctuation_manip_tag> const punctuation_manip_id = {};
 
 enum interval_punctuation_flags
 {
@@ -389,7 +400,7 @@ std::basic_ostream<CharT, Traits>& no_punctuation(std::basic_ostream<CharT, Trai
 
 
 // Unique ID for a manipulator to choose if an exponent is shown in uncertain mode
-int const uncertain_exponent_manip_id =  std::ios_base::xalloc();
+manip_id<struct uncertain_exponent_manip_tag> const uncertain_exponent_manip_id = {};
 
 enum uncertain_exponent_flags
 {
@@ -434,7 +445,7 @@ std::basic_ostream<CharT, Traits>& uncertain_exponent(std::basic_ostream<CharT,
 //-----------------------------------------------------------------------------
 
 // Unique ID for a manipulator to print decorations
-int const dec_manip_id =  std::ios_base::xalloc();
+manip_id<struct dec_manip_tag> const dec_manip_id = {};
 
 // enum for the manipulator to print decorations
 enum dec_manip_flags
@@ -481,7 +492,7 @@ std::basic_ostream<CharT, Traits>& dec_numeric(std::basic_ostream<CharT, Traits>
 //-----------------------------------------------------------------------------
 
 // Unique ID for a manipulator to print decorations
-int const overlapping_manip_id =  std::ios_base::xalloc();
+manip_id<struct overlapping_manip_tag> const overlapping_manip_id = {};
 
 // enum for the manipulator to print decorations
 enum overlapping_manip_flags
-- 
2.43.0


From b69b8aa083ad7cebd57748cca849c305593ee5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:59 +0000
Subject: [PATCH 19/19] fix: reverse powers with the smallest int as exponent
 lost solutions

pown_rev compared p with -p to recognise INT_MIN; the negation overflows, so an optimising compiler drops the special case and the root of a huge order is taken instead.
---
 .../mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 26 +++----------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index c544837..762507d 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -323,17 +323,8 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_inf(mpfr_var const& c,
         mpfr_var& x,
         int p)
 {
-    int t1;
-    if (p != -p)
-    {
-        t1 = -mpfr_root(x(), c(), -p, MPFR_RNDU);
-    }
-    else
-    {
-        int t2 = -mpfr_sqrt(x(), c(), MPFR_RNDU);
-        t1 = -mpfr_root(x(), x(), -(p >> 1), MPFR_RNDU);
-        if (t1 == 0) t1 = t2;
-    }
+    // |p|, also for the smallest int, whose negation is no int
+    int t1 = -mpfr_root(x(), c(), -static_cast<unsigned long>(p), MPFR_RNDU);
     int t = mpfr_ui_div(x(), 1, x(), MPFR_RNDD);
     if (t == 0) t = t1;
     if (p == -1 || t == 0) return t;
@@ -359,17 +350,8 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_sup(mpfr_var const& c,
         mpfr_var& x,
         int p)
 {
-    int t1;
-    if (p != -p)
-    {
-        t1 = -mpfr_root(x(), c(), -p, MPFR_RNDD);
-    }
-    else
-    {
-        int t2 = -mpfr_sqrt(x(), c(), MPFR_RNDD);
-        t1 = -mpfr_root(x(), x(), -(p >> 1), MPFR_RNDD);
-        if (t1 == 0) t1 = t2;
-    }
+    // |p|, also for the smallest int, whose negation is no int
+    int t1 = -mpfr_root(x(), c(), -static_cast<unsigned long>(p), MPFR_RNDD);
     int t = mpfr_ui_div(x(), 1, x(), MPFR_RNDU);
     if (t == 0) t = t1;
     if (p == -1 || t == 0) return t;
-- 
2.43.0


From 0a826e1fce06dffca8fe8a6b13300a0d280eaae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:46 +0000
Subject: [PATCH 01/39] fix: strerrno: add the Linux error numbers 123 up to
 133

---
 src/strerrno.cxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/strerrno.cxx b/src/strerrno.cxx
index f32a167..71f86f5 100644
--- a/src/strerrno.cxx
+++ b/src/strerrno.cxx
@@ -133,7 +133,18 @@ char const* const strerrno_table_c[] = {
     "ENAVAIL", /* No XENIX semaphores available */
     "EISNAM", /* Is a named type file */
     "EREMOTEIO", /* Remote I/O error */
-    "EDQUOT" /* Quota exceeded */
+    "EDQUOT", /* Quota exceeded */
+    "ENOMEDIUM", /* No medium found */
+    "EMEDIUMTYPE", /* Wrong medium type */
+    "ECANCELED", /* Operation canceled */
+    "ENOKEY", /* Required key not available */
+    "EKEYEXPIRED", /* Key has expired */
+    "EKEYREVOKED", /* Key has been revoked */
+    "EKEYREJECTED", /* Key was rejected by service */
+    "EOWNERDEAD", /* Owner died */
+    "ENOTRECOVERABLE", /* State not recoverable */
+    "ERFKILL", /* Operation not possible due to RF-kill */
+    "EHWPOISON" /* Memory page has hardware error */
 };
 
 } // namespace
-- 
2.43.0


From a38e42d56c332ef6723a93d72f490b85e7bd3645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:41 +0000
Subject: [PATCH 02/39] fix: rcfile: do not turn off the ELFUTILS channel when
 it is already off

---
 src/utils/rcfile.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index cfa1335..9993f7d 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -138,7 +138,9 @@ void RcFile::process_channel(Channel& debugChannel, std::string const& mask, act
       else if (elfutils_on_ && (action == off || action == toggle))
       {
         elfutils_on_ = false;
-        debugChannel.off();
+        // The channel itself is only turned on at the very end.
+        if (debugChannel.is_on())
+          debugChannel.off();
         __Dout(dc::rcfile, "Turned off ELFUTILS");
       }
     }
-- 
2.43.0


From 21a98d6352834c9d2abac01cc1326a95954da115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:42 +0000
Subject: [PATCH 03/39] fix: DebugObject::is_on: an object that is turned on
 more than once is on

---
 include/libcwd/DebugObject.inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index b74f8a9..c6ebe33 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -278,7 +278,7 @@ inline void DebugObject::on()
 
 inline bool DebugObject::is_on(LIBCWD_TSD_PARAM) const
 {
-  return __libcwd_tsd.debug_object_off_array[index_] == -1;
+  return __libcwd_tsd.debug_object_off_array[index_] < 0;
 }
 
 /**
-- 
2.43.0


From a7f921adfb0dd42d518c9e66e22ea14bbf373f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:19 +0000
Subject: [PATCH 04/39] fix: wait_cf: stop waiting for a newline at the end of
 the input

---
 src/debug.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index ce7ed2a..a677293 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1124,7 +1124,8 @@ void DebugObject_ThreadSpecificData::finish(DebugObject& debug_object,
       if (debug_object.interactive_)
       {
         *locked_os << std::flush;
-        while (std::cin.get() != '\n')
+        // Also stop waiting when there is no more input.
+        for (int c = std::cin.get(); c != '\n' && c != std::char_traits<char>::eof(); c = std::cin.get())
           ;
       }
       if (locked_mutex)
-- 
2.43.0


From 73a31791229d37d65553bf32ab0e24883be85262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 05/39] fix: write the interrupted part of a continued message
 to the stream of that message

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index a677293..692e4e8 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -922,7 +922,7 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
 #endif
     int saved_errno = errno; // The writeto below changes errno.
     // And write out what is in the buffer till now.
-    std::ostream* target_os = (channel_set.mask & cerr_cf) ? &std::cerr : nullptr;
+    std::ostream* target_os = (current->mask & cerr_cf) ? &std::cerr : nullptr;
     current->buffer.writeto(
         target_os, LIBCWD_TSD, debug_object,
         true, // This thread requests an <unfinished> because of previous, unfinished 'continued' output.
-- 
2.43.0


From c7d26396f532f0f10445b4d9a8f8098c82520d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:18 +0000
Subject: [PATCH 06/39] fix: OstreamState::try_lock_os: try_lock returns true
 when the mutex was locked

---
 include/libcwd/DebugObject.inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index c6ebe33..fc8e613 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -190,7 +190,7 @@ inline bool OstreamState::try_lock_os(std::ostream* os, std::ostream** locked_os
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
   // LOCK ORDER: state_mutex_ -> LockInterfaceBase
-  if (mutex_ && mutex_->try_lock())
+  if (mutex_ && !mutex_->try_lock())
     return false;
   *locked_os_out = os ? os : real_os_;
   *locked_mutex_out = mutex_;
-- 
2.43.0


From ae629494d25f2869898cdad78d81ce4f7f42b127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 07/39] fix: demangler: buffer for a real literal is one byte
 too small for negative doubles

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 38bbc16..3511310 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -866,7 +866,7 @@ bool session<Allocator>::decode_real(string_type& output, size_t size_of_real)
     }
     ++word;
   }
-  char buf[24];
+  char buf[25]; // 17 digits, sign, '.', "e-ddd" and the trailing '\0'.
   if (implementation_details_.decode_real(buf, words, size_of_real))
   {
     output += buf;
-- 
2.43.0


From 7adfc8a2dd5e7672b2511ac49dc63286e44d2311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 08/39] fix: demangler: do not read past the end of a truncated
 anonymous namespace name

---
 include/cwd_demangle.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 3511310..123b646 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2166,11 +2166,12 @@ bool session<Allocator>::decode_source_name(string_type& output)
   while (isdigit(next()))
     length = 10 * length + current() - '0';
   char const* ptr = &str_[pos_];
-  if (length > 11 && !strncmp(ptr, "_GLOBAL_", 8) && ptr[9] == 'N' && ptr[8] == ptr[10])
+  if (length > 11 && !strncmp(ptr, "_GLOBAL_", 8) && ptr[8] != 0 && ptr[9] == 'N' && ptr[8] == ptr[10])
   {
     output += "(anonymous namespace)";
-    if ((pos_ += length) > maxpos_ + 1)
-      _GLIBCXX_DEMANGLER_FAILURE;
+    while (length--)
+      if (eat_current() == 0)
+        _GLIBCXX_DEMANGLER_FAILURE;
   }
   else
     while (length--)
-- 
2.43.0


From 4221a63e3d8ef2fd787c73ec108b6c3fe03e0819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 09/39] fix: demangler: fail on a template argument expression
 that refers to itself

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 123b646..98e6519 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -812,7 +812,7 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
     _GLIBCXX_DEMANGLER_FAILURE;
   int saved_pos = pos_;
   pos_ = template_arg_pos_[value];
-  if (inside_type_ > 20) // Rather than core dump.
+  if (inside_type_ > 20 || inside_substitution_ > 20) // Rather than core dump.
     _GLIBCXX_DEMANGLER_FAILURE;
   ++inside_substitution_;
   if (current() == 'X')
-- 
2.43.0


From 593453e1aa2727ed3b5c3ddeae3c94615656f963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 10/39] fix: demangler: covariant return thunks: eat the 'c'

---
 include/cwd_demangle.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 98e6519..8f03a8b 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2422,6 +2422,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
       _GLIBCXX_DEMANGLER_RETURN;
     case 'c':
       output += "covariant return thunk to ";
+      eat_current();
       if (!decode_call_offset(output) || !decode_call_offset(output) ||
           (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
         _GLIBCXX_DEMANGLER_FAILURE;
-- 
2.43.0


From 825e8a48e571a00a4aebf8e8a5bf9c3152bbc4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 11/39] fix: demangler: value of denormalized double literals
 with more than 28 leading zero bits

---
 src/demangle.cxx | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/demangle.cxx b/src/demangle.cxx
index d44ec52..ab421e9 100644
--- a/src/demangle.cxx
+++ b/src/demangle.cxx
@@ -173,7 +173,6 @@ class decimal_float
   void set_2pow2pow(int power);
   void set_2pow(int power);
   void set_expstart(int expsize);
-  void set_zero();
   void divide_by_two(bool decrement_exponent);
   bool decrement_exponent();
   decimal_float& operator+=(decimal_float const& term);
@@ -304,13 +303,6 @@ inline void decimal_float::set_expstart(int expsize)
   std::memcpy(&data_, &constants[m1023 + 11 - expsize], sizeof(decimal_float_data));
 }
 
-// Initialize the object to zero.  Must have the same exponent as m0.
-inline void decimal_float::set_zero()
-{
-  std::memcpy(&data_, &constants[m0], sizeof(decimal_float_data));
-  data_.mantissa[0] = 0;
-}
-
 // Divide the value of this object by two in one of two possible ways:
 // If `decrement_exponent' is true - then decrement the exponent by
 // one and multiply the mantissa with five.  Otherwise just divide
@@ -605,19 +597,26 @@ void print_IEEE_fp(char* buf, unsigned long* words, int nbits_exponent, int nbit
   }
 
   decimal_float result;
-  if (normalized)
-    result.set_2pow(m0); // 1.0 ; The 1 in (1.F)
-  else
-    result.set_zero(); // 0.0 ; The 0 in (0.F)
+  result.set_2pow(m0); // 1.0 ; The 1 in (1.F)
   decimal_float bit;
   bit.set_2pow(m1); // 0.5 ; 2 ** (-bit_cnt - 1)
   unsigned long mask = 0x40000000 >> nbits_exponent;
+  int denormal_shift = 0; // The number of bits that a denormalized value (0.F) is shifted left in order to get 1.F.
   for (int bit_cnt = 0; bit_cnt < nbits_fraction; ++bit_cnt)
   {
-    if ((*words & mask))
-      result += bit;
-    bool success = result.decrement_exponent();
-    bit.divide_by_two(success); // Keep exponents equal for easy addition.
+    if (!normalized)
+    {
+      ++denormal_shift;
+      if ((*words & mask))
+        normalized = true; // This is the 1 in (1.F).
+    }
+    else
+    {
+      if ((*words & mask))
+        result += bit;
+      bool success = result.decrement_exponent();
+      bit.divide_by_two(success); // Keep exponents equal for easy addition.
+    }
     if (!(mask >>= 1))
     {
       mask = 0x80000000;
@@ -639,6 +638,8 @@ void print_IEEE_fp(char* buf, unsigned long* words, int nbits_exponent, int nbit
     }
     mask >>= 1;
   }
+  for (; denormal_shift > 0; --denormal_shift)
+    two_pow_exponent.divide_by_two(true);
   result *= two_pow_exponent;
   result.print_to_with_precision(buf, precision);
 }
-- 
2.43.0


From 02363e6ec6cbba64a7a1415b876ec133b89fecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 12/39] fix: demangler: an encoding inside a name shares the
 substitutions of that name

---
 include/cwd_demangle.h | 68 ++++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 8f03a8b..acafa20 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -363,6 +363,8 @@ class session
 
   bool decode_type_with_postfix(string_type& prefix, string_type& postfix,
                                 qualifier_list<Allocator>* qualifiers = NULL);
+  bool decode_encoding(string_type& output);
+  bool decode_nested_encoding(string_type& output);
   bool decode_bare_function_type(string_type& output);
   bool decode_builtin_type(string_type& output);
   bool decode_call_offset(string_type& output);
@@ -898,7 +900,7 @@ bool session<Allocator>::decode_literal(string_type& output)
     if (next() != 'Z')
       _GLIBCXX_DEMANGLER_FAILURE;
     eat_current();
-    if ((pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+    if (!decode_nested_encoding(output))
       _GLIBCXX_DEMANGLER_FAILURE;
   }
   else
@@ -2132,8 +2134,8 @@ bool session<Allocator>::decode_local_name(string_type& output)
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_local_name");
   if (current() != 'Z' || pos_ >= maxpos_)
     _GLIBCXX_DEMANGLER_FAILURE;
-  if ((pos_ += decode_encoding(output, str_ + pos_ + 1, maxpos_ - pos_, implementation_details_) + 1) < 0 ||
-      eat_current() != 'E')
+  eat_current();
+  if (!decode_nested_encoding(output) || eat_current() != 'E')
     _GLIBCXX_DEMANGLER_FAILURE;
   output += "::";
   if (current() == 's')
@@ -2423,8 +2425,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
     case 'c':
       output += "covariant return thunk to ";
       eat_current();
-      if (!decode_call_offset(output) || !decode_call_offset(output) ||
-          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+      if (!decode_call_offset(output) || !decode_call_offset(output) || !decode_nested_encoding(output))
         _GLIBCXX_DEMANGLER_FAILURE;
       _GLIBCXX_DEMANGLER_RETURN;
     case 'C': // GNU extension?
@@ -2449,8 +2450,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
         output += "virtual thunk to ";
       else
         output += "non-virtual thunk to ";
-      if (!decode_call_offset(output) ||
-          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+      if (!decode_call_offset(output) || !decode_nested_encoding(output))
         _GLIBCXX_DEMANGLER_FAILURE;
       _GLIBCXX_DEMANGLER_RETURN;
   }
@@ -2473,37 +2473,61 @@ int session<Allocator>::decode_encoding(string_type& output, char const* in, int
   if (len <= 0)
     return INT_MIN;
   session<Allocator> demangler_session(in, len, id);
+  return demangler_session.decode_encoding(output) ? demangler_session.pos_ : INT_MIN;
+}
+
+// Decode the <encoding> of which the first character is the current character,
+// as part of another mangled name.  The <encoding> has its own template parameters,
+// but shares the substitutions with the name that it is a part of.
+template <typename Allocator>
+bool session<Allocator>::decode_nested_encoding(string_type& output)
+{
+  if (current() == 0)
+    return result_ = false;
+  session<Allocator> demangler_session(str_, 0, implementation_details_);
+  demangler_session.pos_ = pos_;
+  demangler_session.maxpos_ = maxpos_;
+  demangler_session.inside_substitution_ = inside_substitution_;
+  demangler_session.substitutions_pos_.swap(substitutions_pos_);
+  result_ = demangler_session.decode_encoding(output);
+  demangler_session.substitutions_pos_.swap(substitutions_pos_);
+  pos_ = demangler_session.pos_;
+  return result_;
+}
+
+template <typename Allocator>
+bool session<Allocator>::decode_encoding(string_type& output)
+{
   string_type nested_name_qualifiers;
   int saved_pos;
-  demangler_session.store(saved_pos);
-  if (demangler_session.decode_special_name(output))
-    return demangler_session.pos_;
-  demangler_session.restore(saved_pos);
+  store(saved_pos);
+  if (decode_special_name(output))
+    return true;
+  restore(saved_pos);
   string_type name;
-  if (!demangler_session.decode_name(name, nested_name_qualifiers))
-    return INT_MIN;
-  if (demangler_session.current() == 0 || demangler_session.current() == 'E')
+  if (!decode_name(name, nested_name_qualifiers))
+    return false;
+  if (current() == 0 || current() == 'E')
   {
     output += name;
     output += nested_name_qualifiers;
-    return demangler_session.pos_;
+    return true;
   }
   // Must have been a <function name>.
   string_type return_type_postfix;
-  if (demangler_session.name_is_template_ &&
-      !(demangler_session.name_is_cdtor_ || demangler_session.name_is_conversion_operator_))
+  if (name_is_template_ && !(name_is_cdtor_ || name_is_conversion_operator_))
   {
     // Return type of function
-    if (!demangler_session.decode_type_with_postfix(output, return_type_postfix))
-      return INT_MIN;
+    if (!decode_type_with_postfix(output, return_type_postfix))
+      return false;
     output += ' ';
   }
   output += name;
-  if (!demangler_session.decode_bare_function_type(output))
-    return INT_MIN;
+  if (!decode_bare_function_type(output))
+    return false;
   output += nested_name_qualifiers;
   output += return_type_postfix;
-  return demangler_session.pos_;
+  return true;
 }
 
 } // namespace demangler
-- 
2.43.0


From 172034c64577b28d86057063e37d21d45ed9d73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:00 +0000
Subject: [PATCH 13/39] fix: demangler: cv-qualifiers of a member function of a
 local class go after its parameters

---
 include/cwd_demangle.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index acafa20..869d1f3 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -371,7 +371,7 @@ class session
   bool decode_class_enum_type(string_type& output);
   bool decode_expression(string_type& output);
   bool decode_literal(string_type& output);
-  bool decode_local_name(string_type& output);
+  bool decode_local_name(string_type& output, string_type& nested_name_qualifiers);
   bool decode_name(string_type& output, string_type& nested_name_qualifiers);
   bool decode_nested_name(string_type& output, string_type& qualifiers);
   bool decode_number(string_type& output);
@@ -2129,7 +2129,7 @@ bool session<Allocator>::decode_nested_name(string_type& output, string_type& qu
 // <discriminator> := _ <non-negative number>
 //
 template <typename Allocator>
-bool session<Allocator>::decode_local_name(string_type& output)
+bool session<Allocator>::decode_local_name(string_type& output, string_type& nested_name_qualifiers)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_local_name");
   if (current() != 'Z' || pos_ >= maxpos_)
@@ -2145,10 +2145,8 @@ bool session<Allocator>::decode_local_name(string_type& output)
   }
   else
   {
-    string_type nested_name_qualifiers;
     if (!decode_name(output, nested_name_qualifiers))
       _GLIBCXX_DEMANGLER_FAILURE;
-    output += nested_name_qualifiers;
   }
   string_type discriminator;
   if (current() == '_' && next() != 'n' && !decode_number(discriminator))
@@ -2305,7 +2303,7 @@ bool session<Allocator>::decode_name(string_type& output, string_type& nested_na
   }
   else if (current() == 'Z')
   {
-    decode_local_name(output);
+    decode_local_name(output, nested_name_qualifiers);
     _GLIBCXX_DEMANGLER_RETURN;
   }
   else if (!decode_unscoped_name(output))
-- 
2.43.0


From 89ede0d1ecdae9c421e8d7672edeea88e34c4d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 14/39] fix: demangler: cast operators to std::string,
 std::allocator and other abbreviated types

---
 include/cwd_demangle.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 869d1f3..acc4e7d 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2198,30 +2198,25 @@ bool session<Allocator>::decode_unqualified_name(string_type& output)
   }
   else if (isdigit(current()))
   {
-    bool recursive_unqualified_name = (&function_name_ == &output);
-    // This can be a recursive call when we are decoding
-    // an <operator-name> that is a cast operator for a some
-    // <unqualified-name>; for example "operator Foo()".
-    // In that case this is thus not a ctor or dtor and we
-    // are not interested in updating function_name_.
-    if (!recursive_unqualified_name)
-      function_name_.clear();
+    function_name_.clear();
     name_is_template_ = false;
     name_is_cdtor_ = false;
     name_is_conversion_operator_ = false;
     if (!decode_source_name(function_name_))
       _GLIBCXX_DEMANGLER_FAILURE;
-    if (!recursive_unqualified_name)
-      output += function_name_;
+    output += function_name_;
   }
   else if (islower(current()))
   {
-    function_name_.clear();
     name_is_template_ = false;
     name_is_cdtor_ = false;
     name_is_conversion_operator_ = false;
-    if (!decode_operator_name(function_name_))
+    // Do not decode directly into function_name_: the type of a cast operator
+    // can change that variable; for example "operator std::string()".
+    string_type operator_name;
+    if (!decode_operator_name(operator_name))
       _GLIBCXX_DEMANGLER_FAILURE;
+    function_name_ = operator_name;
     output += function_name_;
   }
   else if (current() == 'C' || current() == 'D')
-- 
2.43.0


From 9822120214d5888d958888f1504ec8b03e11318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 15/39] fix: demangler: pointers to const or volatile data
 members

---
 include/cwd_demangle.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index acc4e7d..520aeaa 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1792,8 +1792,13 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           break;
         }
         char c = current();
-        if (c == 'F' || c == 'K' || c == 'V' || c == 'r')
-        // Must be CV-qualifiers and a member function pointer.
+        int member_pos = pos_;
+        for (char m = c; m == 'K' || m == 'V' || m == 'r'; m = current())
+          eat_current();
+        bool is_member_function = current() == 'F';
+        pos_ = member_pos;
+        if (is_member_function)
+        // (CV-qualifiers and) a member function pointer.
         {
           // <Q>M<C><Q2>F<R><B>E	==> R (C::*Q)B Q2
           //     substitutions: "<C>", "F<R><B>E" (<R> and <B>
-- 
2.43.0


From a1e48d476018446ef714a5c178ae9fe0fe2a6c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:29 +0000
Subject: [PATCH 16/39] fix: demangler: substitutions that start with a
 template parameter

---
 include/cwd_demangle.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 520aeaa..0099f0d 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -769,6 +769,11 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
             if (!decode_substitution(output))
               _GLIBCXX_DEMANGLER_FAILURE;
           }
+          else if (current() == 'T')
+          {
+            if (!decode_template_param(output))
+              _GLIBCXX_DEMANGLER_FAILURE;
+          }
           else if (!decode_unqualified_name(output))
             _GLIBCXX_DEMANGLER_FAILURE;
         }
-- 
2.43.0


From 514b3ce7dccc0b7392e52f5da837e2a98c5aebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 17/39] fix: demangler: integer overflow while decoding the
 number of a source name, substitution or template parameter

---
 include/cwd_demangle.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 0099f0d..c219d47 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -728,6 +728,8 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
             break;
           else
             _GLIBCXX_DEMANGLER_FAILURE;
+          if (value >= substitutions_pos_.size()) // Avoid an overflow of value.
+            _GLIBCXX_DEMANGLER_FAILURE;
         }
         ++value;
         break;
@@ -808,6 +810,8 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
     while (isdigit(c))
     {
       value = value * 10 + c - '0';
+      if (value >= template_arg_pos_.size()) // Avoid an overflow of value.
+        _GLIBCXX_DEMANGLER_FAILURE;
       c = next();
     }
     ++value;
@@ -2174,7 +2178,11 @@ bool session<Allocator>::decode_source_name(string_type& output)
   if (length < 1 || length > 9)
     _GLIBCXX_DEMANGLER_FAILURE;
   while (isdigit(next()))
+  {
+    if (length >= INT_MAX / 10) // Avoid an overflow of length.
+      _GLIBCXX_DEMANGLER_FAILURE;
     length = 10 * length + current() - '0';
+  }
   char const* ptr = &str_[pos_];
   if (length > 11 && !strncmp(ptr, "_GLOBAL_", 8) && ptr[8] != 0 && ptr[9] == 'N' && ptr[8] == ptr[10])
   {
-- 
2.43.0


From 657f79e272be2d4fdaf6f66574213fd8fe5a7f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 18/39] fix: demangler: do not read past the terminating zero
 of the input

---
 include/cwd_demangle.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index c219d47..b80a6c8 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -345,11 +345,12 @@ class session
  private:
   char current() const { return (pos_ > maxpos_) ? 0 : str_[pos_]; }
 
-  char next_peek() const { return (pos_ >= maxpos_) ? 0 : str_[pos_ + 1]; }
+  // The input can be zero-terminated before maxpos_; do not read past the terminating zero.
+  char next_peek() const { return (pos_ >= maxpos_ || str_[pos_] == 0) ? 0 : str_[pos_ + 1]; }
 
-  char next() { return (pos_ >= maxpos_) ? 0 : str_[++pos_]; }
+  char next() { return (pos_ >= maxpos_ || str_[pos_] == 0) ? 0 : str_[++pos_]; }
 
-  char eat_current() { return (pos_ > maxpos_) ? 0 : str_[pos_++]; }
+  char eat_current() { return (pos_ > maxpos_ || str_[pos_] == 0) ? 0 : str_[pos_++]; }
 
   void store(int& saved_pos) { saved_pos = pos_; }
 
-- 
2.43.0


From caa575067edf8329a1952d5459299a32d736df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 19/39] fix: demangler: a cast operator to a template parameter
 is only templated when template arguments follow

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index b80a6c8..eb442d6 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1147,7 +1147,7 @@ bool session<Allocator>::decode_operator_name(string_type& output)
       {
         eat_current();
         output += "operator ";
-        if (current() == 'T')
+        if (current() == 'T' && next_peek() == '_' && str_[pos_ + 2] == 'I')
         {
           // This is a templated cast operator.
           // It must be of the form "cvT_I...E".
-- 
2.43.0


From e0cbd8b028e80a304a516712b55d8b540023cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:58 +0000
Subject: [PATCH 20/39] fix: demangler: pointers to arrays as element type of
 an array (return from decode_KVrA at the first other qualifier)

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index eb442d6..d96f611 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -20,7 +20,7 @@
 #define _GLIBCXX_DEMANGLER_DOUT_ENTERING3(...)
 #define _GLIBCXX_DEMANGLER_RETURN return result_
 #define _GLIBCXX_DEMANGLER_RETURN2 return result_
-#define _GLIBCXX_DEMANGLER_RETURN3
+#define _GLIBCXX_DEMANGLER_RETURN3 return
 #define _GLIBCXX_DEMANGLER_FAILURE \
   do                               \
   {                                \
-- 
2.43.0


From 7754f878ab4124637a159c1271a63fc2a85e8827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 21/39] fix: demangler: functions returning a pointer to
 function that is a substitution or template parameter

---
 include/cwd_demangle.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index d96f611..202e499 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -378,9 +378,9 @@ class session
   bool decode_number(string_type& output);
   bool decode_operator_name(string_type& output);
   bool decode_source_name(string_type& output);
-  bool decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers = NULL);
+  bool decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers = NULL, string_type* postfix = NULL);
   bool decode_template_args(string_type& output);
-  bool decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers = NULL);
+  bool decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers = NULL, string_type* postfix = NULL);
   bool decode_unqualified_name(string_type& output);
   bool decode_unscoped_name(string_type& output);
   bool decode_non_negative_decimal_integer(string_type& output);
@@ -621,7 +621,7 @@ bool session<Allocator>::decode_class_enum_type(string_type& output)
 //       [<seq-id>]	# Base 36 number
 //
 template <typename Allocator>
-bool session<Allocator>::decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers)
+bool session<Allocator>::decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers, string_type* postfix)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_substitution");
   unsigned int value = 0;
@@ -746,10 +746,13 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
   switch (substitution.type)
   {
     case type:
-      decode_type(output, qualifiers);
+      if (postfix)
+        decode_type_with_postfix(output, *postfix, qualifiers);
+      else
+        decode_type(output, qualifiers);
       break;
     case template_template_param:
-      decode_template_param(output, qualifiers);
+      decode_template_param(output, qualifiers, postfix);
       break;
     case nested_name_prefix:
     case nested_name_template_prefix:
@@ -799,7 +802,7 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
 //                  ::= T <parameter-2 non-negative number> _
 //
 template <typename Allocator>
-bool session<Allocator>::decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers)
+bool session<Allocator>::decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers, string_type* postfix)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_template_parameter");
   if (current() != 'T')
@@ -834,6 +837,8 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
   }
   else if (current() == 'L')
     decode_literal(output);
+  else if (postfix)
+    decode_type_with_postfix(output, *postfix, qualifiers);
   else
     decode_type(output, qualifiers);
   --inside_substitution_;
@@ -1937,7 +1942,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         break;
       }
       case 'T':
-        if (!decode_template_param(prefix, qualifiers))
+        if (!decode_template_param(prefix, qualifiers, &postfix))
         {
           failure = true;
           break;
@@ -1969,7 +1974,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         }
         if (str_[pos_ + 1] != 't')
         {
-          if (!decode_substitution(prefix, qualifiers))
+          if (!decode_substitution(prefix, qualifiers, &postfix))
           {
             failure = true;
             break;
-- 
2.43.0


From 238a78de8e8154b9a39e44eb0064271bacb27a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 22/39] fix: demangler: a template parameter that is bound to a
 function or member function pointer is a substitution candidate

---
 include/cwd_demangle.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 202e499..2509257 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1942,6 +1942,16 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         break;
       }
       case 'T':
+      {
+        // Except when it is a template-template-param, a template-param must be added
+        // as substitution before the qualified types that decode_template_param might add.
+        int param_len = 1;
+        while (isdigit(str_[pos_ + param_len]))
+          ++param_len;
+        bool is_template_template_param = str_[pos_ + param_len] == '_' && str_[pos_ + param_len + 1] == 'I';
+        if (!recursive_template_param_or_substitution_call && !is_template_template_param)
+          add_substitution(start_pos, type);
+          // substitution: "<template-param>".
         if (!decode_template_param(prefix, qualifiers, &postfix))
         {
           failure = true;
@@ -1959,13 +1969,14 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         }
         if (!recursive_template_param_or_substitution_call && qualifiers->suppressed())
         {
-          add_substitution(start_pos, type);
-          // substitution: "<template-param>" or
-          // "<template-template-param> <template-args>".
+          if (is_template_template_param)
+            add_substitution(start_pos, type);
+            // substitution: "<template-template-param> <template-args>".
           qualifiers->decode_qualifiers(prefix, postfix);
           // substitution: all qualified types, if any.
         }
         break;
+      }
       case 'S':
         if (pos_ >= maxpos_)
         {
-- 
2.43.0


From fd2b388b01e7d9c0aa1ebded8974de602ebcfd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:12 +0000
Subject: [PATCH 23/39] fix: type_info_of: set ref_size also for cv-qualified
 pointers

type_info_of<int* const>().ref_size() and that of a volatile pointer
object was 0 instead of the size of what is pointed to.
---
 include/libcwd/type_info.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index 92021cc..3e9a306 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -11,6 +11,7 @@
 #define LIBCWD_TYPE_INFO_H
 
 #include <cstddef> // Needed for size_t
+#include <type_traits> // Needed for remove_cv
 #include <typeinfo> // Needed for typeid()
 
 namespace libcwd {
@@ -44,6 +45,19 @@ struct sizeof_ref
 template <typename T>
 size_t sizeof_ref_v = sizeof_ref<T>::value;
 
+// The size of what T points to; 0 when T is not a (possibly cv-qualified) pointer.
+template <typename T>
+struct sizeof_pointee
+{
+  static constexpr size_t value = 0;
+};
+
+template <typename T>
+struct sizeof_pointee<T*>
+{
+  static constexpr size_t value = sizeof_ref<T>::value;
+};
+
 } // namespace _private_
 
 /**
@@ -150,7 +164,7 @@ TypeInfo const& type_info<T>::value()
 {
   if (!s_initialized_)
   {
-    s_value_.init(typeid(T).name(), sizeof(T), 0);
+    s_value_.init(typeid(T).name(), sizeof(T), sizeof_pointee<std::remove_cv_t<T>>::value);
     s_initialized_ = true;
   }
   return s_value_;
@@ -232,7 +246,7 @@ template <typename T>
           typeid(libcwd_type_info_exact<T>).name(),
           typeid(T).name()),
         sizeof(T),
-        0);
+        ::libcwd::_private_::sizeof_pointee<std::remove_cv_t<T>>::value);
     s_initialized_ = true;
   }
   return s_value_;
-- 
2.43.0


From c05545c93543592dc504e49231a1f29a9722d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:23 +0000
Subject: [PATCH 24/39] fix: type_info_of: exact name of arrays of const and of
 names that end in 'S'

type_info_of<int const[3]>() and, for example, type_info_of<void (*)(FS, FS)>()
where FS is a class, failed an assertion: typeid strips the qualifiers of
the elements of an array, and the 'S' of an identifier was taken for the
start of a substitution.
---
 src/type_info.cxx | 75 +++++++++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 42 deletions(-)

diff --git a/src/type_info.cxx b/src/type_info.cxx
index 35fc28a..fac8044 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -7,6 +7,9 @@
 #include "libcwd/demangle.h"
 #include "libcwd/type_info.h"
 
+#include <cctype>
+#include <cstring>
+
 namespace libcwd {
 
 /**
@@ -32,28 +35,6 @@ char const* extract_exact_name(char const* encap_mangled_name)
   return exact_name;
 }
 #else
-char const* skip_substitution(char const* const ptr, char const* const begin)
-{
-  char const* S_ptr = ptr;
-  // S_ptr now points to a trailing '_'.
-  for (int digits = 0; S_ptr > begin && digits < 3; ++digits)
-  {
-    --S_ptr;
-    // All legal substitution patterns have the form "S[0-9A-Z]*_" where we
-    // limit the number of base-36 digits to two (because it seems extremely
-    // unlikely that there are more than 1296 substitutions).
-    //
-    // We allow "SS_" where the second S is a digit; but not "SSS_" because
-    // it's already unlikely to have 841 substitutions, too.
-    if (*S_ptr == 'S' && (digits > 0 || S_ptr[-1] != 'S'))
-      return S_ptr;
-    // Substitutions use base-36 with 'digits' [0-9A-Z].
-    if (!('0' <= *S_ptr && *S_ptr <= '9') && !('A' <= *S_ptr && *S_ptr <= 'Z'))
-      break;
-  }
-  return ptr;
-}
-
 // As an example, the input could be:
 //
 // encap_mangled_name =
@@ -64,30 +45,40 @@ char const* extract_exact_name(char const* encap_mangled_name, char const* strip
 {
   encap_mangled_name += 25; // Strip "22libcwd_type_info_exactI" from the beginning.
   // encap_mangled_name now points to the qualifiers string (if any) "RK".
-  char const* encap_ptr = encap_mangled_name + strlen(encap_mangled_name) - 1;
-  // encap_ptr now points to the last E of encap_mangled_name.
-  size_t len = strlen(stripped_mangled_name);
-  char const* ptr = stripped_mangled_name + len;
-  // ptr now points to the terminating zero of stripped_mangled_name.
-  while (ptr > stripped_mangled_name)
+  char const* encap_ptr = encap_mangled_name;
+  char const* ptr = stripped_mangled_name;
+  char* const exact_name = new char[strlen(encap_mangled_name) + 1]; // LEAK58
+  char* out = exact_name;
+  bool at_qualifiers = true;
+  while (*ptr)
   {
-    --ptr;
-    --encap_ptr;
-    LIBCWD_ASSERT(*ptr == *encap_ptr); // This is how we assume the encapsulation works!
-    if (*ptr == '_')
+    if (*ptr == *encap_ptr)
+    {
+      at_qualifiers = *ptr == '_';
+      *out++ = *ptr++;
+      ++encap_ptr;
+    }
+    else if (at_qualifiers)
     {
-      // Now we want to put both pointers on the 'S',
-      // but only if this could be a substitution.
-      ptr = skip_substitution(ptr, stripped_mangled_name);
-      encap_ptr = skip_substitution(encap_ptr, encap_mangled_name);
+      // A qualifier that is missing in stripped_mangled_name: that of the type itself,
+      // or of the elements if this is an array ("A3_Ki").
+      LIBCWD_ASSERT(strchr("ORrVK", *encap_ptr) && *encap_ptr); // This is how we assume the encapsulation works!
+      *out++ = *encap_ptr++;
+    }
+    else
+    {
+      // Something only differs otherwise inside a substitution, because of the extra candidate
+      // that libcwd_type_info_exact itself is. The last common character is an 'S' or a base-36 digit.
+      LIBCWD_ASSERT(out[-1] == 'S' || isdigit((unsigned char)out[-1]) || isupper((unsigned char)out[-1]));
+      while (*ptr != '_')
+        *out++ = *ptr++;
+      while (*encap_ptr != '_')
+        ++encap_ptr;
     }
   }
-  // ptr is now equal to stripped_mangled_name, and encap_ptr points to the first character after the qualifiers.
-  size_t qlen = encap_ptr - encap_mangled_name;
-  char* exact_name = new char[qlen + len + 1]; // LEAK58
-  // Add the qualifiers to the mangled name:
-  strncpy(exact_name, encap_mangled_name, qlen);
-  strcpy(exact_name + qlen, stripped_mangled_name);
+  // encap_ptr now points to the last E of encap_mangled_name.
+  LIBCWD_ASSERT(encap_ptr[0] == 'E' && !encap_ptr[1]);
+  *out = 0;
   return exact_name;
 }
 #endif
-- 
2.43.0


From 500b538fca36fccd618dc453432047d8252fd590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 25/39] fix: DebugString: copy the given length, also when the
 text contains a NUL

---
 src/debug.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 692e4e8..856ec39 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -20,6 +20,7 @@
 #include <atomic>
 #include <cerrno>
 #include <cstdlib> // Needed for _Exit() (C99)
+#include <cstring> // Needed for std::memcpy and std::strcmp
 #include <iostream>
 #include <new>
 #ifdef HAVE_SYS_RESOURCE_H
@@ -721,7 +722,7 @@ void DebugString::NS_internal_init(char const* str, size_t len)
   default_capacity_ = min_capacity;
   str_ = (char*)malloc((default_capacity_ = capacity_ = calculate_capacity(len)) +
                        1); // Add one for the terminating zero. LEAK46
-  strncpy(str_, str, len);
+  std::memcpy(str_, str, len);
   size_ = len;
   str_[size_] = 0;
 }
@@ -748,7 +749,7 @@ void DebugString::internal_assign(char const* str, size_t len)
 {
   if (len > capacity_ || (capacity_ > default_capacity_ && len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(len)) + 1);
-  strncpy(str_, str, len);
+  std::memcpy(str_, str, len);
   size_ = len;
   str_[size_] = 0;
 }
@@ -757,7 +758,7 @@ void DebugString::internal_append(char const* str, size_t len)
 {
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
-  strncpy(str_ + size_, str, len);
+  std::memcpy(str_ + size_, str, len);
   size_ += len;
   str_[size_] = 0;
 }
@@ -767,7 +768,7 @@ void DebugString::internal_prepend(char const* str, size_t len)
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
   memmove(str_ + len, str_, size_ + 1);
-  strncpy(str_, str, len);
+  std::memcpy(str_, str, len);
   size_ += len;
 }
 
-- 
2.43.0


From 87f98301f5b55cb824a967ec85280d56f2b50318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 26/39] fix: only the channel with label WARNING is on by
 default, not those whose label is a prefix of it

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 856ec39..22cdc71 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -515,7 +515,7 @@ void DebugChannels::initialize_channel(Channel& channel, char const* label, LIBC
   channel.initialize(channels_w, label, label_len);
 
   // Turn debug channel "WARNING" on by default.
-  __libcwd_tsd.off_cnt_array[channel.index()] = strncmp(channel.get_label(), "WARNING", label_len) == 0 ? -1 : 0;
+  __libcwd_tsd.off_cnt_array[channel.index()] = std::strcmp(label, "WARNING") == 0 ? -1 : 0;
 
   if (add_to_channel_list)
   {
-- 
2.43.0


From e6a1f4c4d217e9c9ab94ee0ea4c031abfea41818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 27/39] fix: attach_gdb: do not report an uninitialized status
 when waitpid fails with ECHILD

---
 src/utils/attach_gdb.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/attach_gdb.cxx b/src/utils/attach_gdb.cxx
index f81f711..50cf01a 100644
--- a/src/utils/attach_gdb.cxx
+++ b/src/utils/attach_gdb.cxx
@@ -83,7 +83,9 @@ void attach_gdb()
           if (pid3 == pid2 || ((int)pid3 == -1 && errno == ECHILD))
           {
             libcwd_attach_gdb_hook = 0;
-            if (WIFEXITED(status))
+            if (pid3 != pid2) // waitpid failed: status was not set.
+              ;
+            else if (WIFEXITED(status))
               __DoutFatal(dc::core,
                         "Failed to start gdb: 'xterm' terminated with exit code "
                             << WEXITSTATUS(status)
-- 
2.43.0


From 6853fe9c724e68eaf48b6af3dc57a2585e7347c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 28/39] fix: forget the buffer of a flushed continued message
 when dc::finish adds nothing to it

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 22cdc71..1c97aaf 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -171,7 +171,7 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
     debug_object.unfinished_oss_ = NULL;
     debug_object.newlineless_tsd_ = NULL;
   }
-  else if (curlen > 0)
+  else if (curlen > 0 || debug_object.unfinished_oss_ == this) // Never keep a pointer to this buffer when it is done.
   {
     debug_object.newlineless_tsd_ = &__libcwd_tsd;
     if (possible_nonewline_cf)
-- 
2.43.0


From ba95a66fad658cbccb498e903fa7f0d61bc822af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 29/39] fix: a thread may end with an incomplete line: do not
 use its released thread specific data

---
 include/libcwd/DebugObject.h                |  7 ++++++-
 include/libcwd/private/ThreadSpecificData.h |  1 +
 src/debug.cxx                               | 21 ++++++++++++---------
 src/threading.cxx                           |  2 ++
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index 913b9cc..2f4cba6 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -130,7 +130,12 @@ class DebugObject
   // Ostream destination and matching external lock, protected as one unit.
 
   Buffer* unfinished_oss_;
-  void const* newlineless_tsd_;
+  unsigned long newlineless_id_;
+  // The id of the thread that wrote an incomplete line, or 0.
+
+  char* newlineless_color_off_;
+  size_t newlineless_color_off_size_;
+  // A copy of the color_off string of that thread.
 
  private:
   //-------------------------------------------------------------------------------------------------
diff --git a/include/libcwd/private/ThreadSpecificData.h b/include/libcwd/private/ThreadSpecificData.h
index a1afdde..194e4fd 100644
--- a/include/libcwd/private/ThreadSpecificData.h
+++ b/include/libcwd/private/ThreadSpecificData.h
@@ -75,6 +75,7 @@ struct ThreadSpecificData
 #if CWDEBUG_LOCATION
   location_format_t format{}; // Determines how to print Location to an ostream.
 #endif
+  unsigned long id{}; // A unique number, larger than zero, that is not reused after this thread ended.
   bool lock_interface_is_locked =
       false; // Set while writing debugout to the final ostream if OstreamState::mutex_ was locked.
   bool recursive_fatal = false; // Detect loop involving dc::fatal or dc::core.
diff --git a/src/debug.cxx b/src/debug.cxx
index 1c97aaf..50ea231 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -116,14 +116,10 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
                 "documentation/group__group__destination.html).");
     }
   }
-  if (debug_object.newlineless_tsd_ && debug_object.newlineless_tsd_ != &__libcwd_tsd)
+  if (debug_object.newlineless_id_ && debug_object.newlineless_id_ != __libcwd_tsd.id)
   {
-    _private_::ThreadSpecificData const* newlineless_tsd =
-        static_cast<_private_::ThreadSpecificData const*>(debug_object.newlineless_tsd_);
-    DebugString const& color_off = newlineless_tsd->debug_object_array[debug_object.index_]->color_off;
-    size_t color_off_size = color_off.size();
-    if (color_off_size > 0)
-      locked_os->write(color_off.c_str(), color_off_size);
+    if (debug_object.newlineless_color_off_size_ > 0)
+      locked_os->write(debug_object.newlineless_color_off_, debug_object.newlineless_color_off_size_);
     if (debug_object.unfinished_oss_)
     {
       if (debug_object.unfinished_oss_ != this)
@@ -169,11 +165,18 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
   if (ends_on_newline)
   {
     debug_object.unfinished_oss_ = NULL;
-    debug_object.newlineless_tsd_ = NULL;
+    debug_object.newlineless_id_ = 0;
   }
   else if (curlen > 0 || debug_object.unfinished_oss_ == this) // Never keep a pointer to this buffer when it is done.
   {
-    debug_object.newlineless_tsd_ = &__libcwd_tsd;
+    debug_object.newlineless_id_ = __libcwd_tsd.id;
+    // Make a copy: this thread might have ended when another thread needs it.
+    if (color_off_size > 0)
+    {
+      debug_object.newlineless_color_off_ = (char*)realloc(debug_object.newlineless_color_off_, color_off_size);
+      std::memcpy(debug_object.newlineless_color_off_, color_off.c_str(), color_off_size);
+    }
+    debug_object.newlineless_color_off_size_ = color_off_size;
     if (possible_nonewline_cf)
       debug_object.unfinished_oss_ = NULL;
     else
diff --git a/src/threading.cxx b/src/threading.cxx
index eb005ce..8209404 100644
--- a/src/threading.cxx
+++ b/src/threading.cxx
@@ -81,6 +81,8 @@ ThreadSpecificData& ThreadSpecificData::instance()
 ThreadSpecificData& ThreadSpecificData::S_create(ThreadSpecificData& real_tsd)
 {
   real_tsd.initialized_ = true;
+  static std::atomic<unsigned long> last_id{0};
+  real_tsd.id = ++last_id;
 
   if (!main_thread_tsd)
     main_thread_tsd = &real_tsd;
-- 
2.43.0


From b9d6d786c6936ddbf3a3ecbbe7906b482c629499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 30/39] fix: let the dynamic loader decide which object files
 are (un)registered

dlopen only registered the object file of the returned handle, not the
object files that were loaded because that one depends on them. And dlclose
unregistered an object file when it was closed as often as it was opened with
our dlopen, also when the loader did not unload it (because another object needs
it, because it was linked with the program, or because it cannot be
unloaded), or unloaded more than just that object.

Synchronize with dl_iterate_phdr after each (un)load instead.
---
 src/dwarf.cxx | 236 ++++++++++++++++----------------------------------
 1 file changed, 75 insertions(+), 161 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 59d4404..710ba29 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -22,6 +22,7 @@
 #include <limits>
 #include <map>
 #include <string>
+#include <vector>
 #include <dlfcn.h>
 #include <dwarf.h>
 #include <elf.h>
@@ -175,28 +176,22 @@ class ObjectFileRegistry
   // Accessor.
   libcwd::ObjectFileName const& object_file_name() const { return object_file_name_; }
 
-  // Information passed to the cb_dl_iterate_phdr call back function.
-  struct CallBackData
+  // An object file as reported by dl_iterate_phdr.
+  struct LoadedObject
   {
-    std::string executable_path_; // The full path to the current executable.
-    // Used for targeted dlopen-driven object discovery:
-    uintptr_t target_lbase_; // When non-zero, create an ObjectFile only for the DSO with this load base.
-    mutable ObjectFile const* object_file_{}; // Set to the ObjectFile aggregate for target_lbase_.
-
-    CallBackData(std::string const& executable_path, uintptr_t target_lbase = 0) :
-        executable_path_(executable_path), target_lbase_(target_lbase)
-    {
-    }
+    uintptr_t lbase_;
+    std::string name_;
+    std::vector<ElfW(Phdr)> program_headers_;
   };
 
   friend bool ensure_initialization(LIBCWD_TSD_PARAM);
   static void register_initial_object_files();
-  static ObjectFile const* iterate_program_headers(CallBackData const& data);
   static int cb_dl_iterate_phdr(dl_phdr_info* info, size_t size, void* call_back_data);
-  static ObjectFile const* find_registered_object_file(uintptr_t lbase, object_files_ts::wat const& object_files_w);
+  static ObjectFile const* register_object_file(LoadedObject const& loaded_object);
 
-  // Called from dlopen.
-  static ObjectFile const* register_object_file_at_lbase(uintptr_t lbase);
+  // Called from dlopen and dlclose.
+  static void synchronize_with_loader();
+  static bool is_initialized() { return s_object_files_initialized_.load(std::memory_order_relaxed); }
   // Needed for Location.
   static ObjectFile const* find_object_file(uintptr_t addr);
 };
@@ -719,8 +714,6 @@ void ObjectFileRegistry::register_initial_object_files()
   //
   // Start a new scope for the write lock.
   {
-    CallBackData const data{current_executable_path()};
-
     // This is the initial population pass for the dwarf object/segment cache.
     // Even if dlopen is called first, that still will first call this function.
     LIBCWD_ASSERT(object_files_ts::rat{object_files_map()}->empty());
@@ -729,7 +722,7 @@ void ObjectFileRegistry::register_initial_object_files()
     if (!statically_linked)
     {
       // Iterate over all currently loaded object files and create new ObjectFile's for them.
-      iterate_program_headers(data);
+      synchronize_with_loader();
     }
 
     // Relaxed is OK: we get here from the main thread before any other thread (that
@@ -739,51 +732,78 @@ void ObjectFileRegistry::register_initial_object_files()
 }
 
 //static
-ObjectFile const* ObjectFileRegistry::iterate_program_headers(CallBackData const& data)
+void ObjectFileRegistry::synchronize_with_loader()
 {
+  // The mutex is held from before the snapshot is taken until the registry agrees with it,
+  // so that an older snapshot never overwrites the result of a newer one.
+  static std::mutex synchronize_mutex;
+  std::lock_guard<std::mutex> lock(synchronize_mutex);
+
+  // All objects that are registered, as key the load base and the name that the dynamic loader reported.
+  // Intentionally leaked for late DSO teardown.
+  static auto& registered = *new std::map<std::pair<uintptr_t, std::string>, ObjectFile const*>;
+
   // From https://man7.org/linux/man-pages/man3/dl_iterate_phdr.3.html:
   //
   // The dl_iterate_phdr() function walks through the list of an application's shared objects and
   // calls the function cb_dl_iterate_phdr once for each object, until either all shared objects
   // have been processed or cb_dl_iterate_phdr returns a nonzero value.
   //
-  // A non-zero data.target_lbase_ makes the callback stop after the matching object;
-  // zero means enumerate all currently loaded objects.
+  std::vector<LoadedObject> loaded_objects;
+  dl_iterate_phdr(cb_dl_iterate_phdr, &loaded_objects);
+
+  // Unregister what is no longer loaded.
   //
-  dl_iterate_phdr(cb_dl_iterate_phdr, const_cast<CallBackData*>(&data));
-  return data.object_file_;
+  // It is the dynamic loader that decides what is unloaded, and when: an object can still be in use by another object,
+  // be referenced more often than it was opened with our dlopen, or be marked as not removable.
+  for (auto iter = registered.begin(); iter != registered.end();)
+  {
+    bool const still_loaded = std::any_of(loaded_objects.begin(), loaded_objects.end(), [&](LoadedObject const& loaded) {
+      return loaded.lbase_ == iter->first.first && loaded.name_ == iter->first.second;
+    });
+    if (still_loaded)
+    {
+      ++iter;
+      continue;
+    }
+    ObjectFile const* object_file = iter->second;
+    iter = registered.erase(iter);
+    object_file->write_locked_data()->unregister_object_file_ranges(object_file);
+    // Now that the object_file_data_ts Access object has been destroyed, we can delete the ObjectFile that is no longer
+    // in use.
+    delete object_file;
+  }
+
+  // Register what is new, including the objects that a newly opened object depends on.
+  for (LoadedObject const& loaded_object : loaded_objects)
+  {
+    std::pair<uintptr_t, std::string> key(loaded_object.lbase_, loaded_object.name_);
+    if (registered.find(key) != registered.end())
+      continue;
+    if (ObjectFile const* object_file = register_object_file(loaded_object))
+      registered.emplace(key, object_file);
+  }
 }
 
 //static
 int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/, void* call_back_data)
 {
-  CallBackData const* data = static_cast<CallBackData const*>(call_back_data);
-  uintptr_t const lbase = static_cast<uintptr_t>(info->dlpi_addr);
-  bool const target_lbase_only = data->target_lbase_ != 0;
+  auto* loaded_objects = static_cast<std::vector<LoadedObject>*>(call_back_data);
+  loaded_objects->push_back({static_cast<uintptr_t>(info->dlpi_addr), info->dlpi_name ? info->dlpi_name : "",
+                             std::vector<ElfW(Phdr)>(info->dlpi_phdr, info->dlpi_phdr + info->dlpi_phnum)});
+  return 0;
+}
 
-  // If this is not the target object; advance to the next.
-  if (target_lbase_only && lbase != data->target_lbase_)
-    return 0;
+//static
+ObjectFile const* ObjectFileRegistry::register_object_file(LoadedObject const& loaded_object)
+{
+  uintptr_t const lbase = loaded_object.lbase_;
 
   // dl_iterate_phdr reports an empty name for the main executable.
   // Use the already resolved /proc/self/exe path in that case so ObjectFileName remains
   // useful for diagnostics and later public location data.
-  char const* object_filename =
-      (info->dlpi_name && info->dlpi_name[0] != '\0') ? info->dlpi_name : data->executable_path_.c_str();
-
-  // A DSO can be discovered through a delayed dlopen registration while an
-  // outer dl_iterate_phdr pass is still running.  Avoid constructing and
-  // inserting a duplicate ObjectFile when the iterator later reaches the same
-  // link-map entry.
-  {
-    object_files_ts::wat object_files_w(object_files_map());
-    ScopedTracker scoped_{s_object_files_is_locked_};
-    if (ObjectFile const* existing_object_file = find_registered_object_file(lbase, object_files_w))
-    {
-      data->object_file_ = existing_object_file;
-      return target_lbase_only;
-    }
-  }
+  std::string const filename = !loaded_object.name_.empty() ? loaded_object.name_ : current_executable_path();
+  char const* const object_filename = filename.c_str();
 
   // Create a new ObjectFileData wrapper.  The wrapper address, not the protected
   // ObjectFile payload address, is stored in every PTLoadSegment so all future
@@ -798,16 +818,15 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
   // The map owns the discoverable active address ranges; the pointed-to objects are intentionally kept stable
   // for the process lifetime until later dlclose/tombstone semantics are designed.
   bool have_pt_load_segment = false;
-  for (ElfW(Half) phdr_index = 0; phdr_index < info->dlpi_phnum; ++phdr_index)
+  for (ElfW(Phdr) const& phdr : loaded_object.program_headers_)
   {
-    ElfW(Phdr) const& phdr = info->dlpi_phdr[phdr_index];
     if (phdr.p_type != PT_LOAD ||
         // The Elf-64 Object File Format specifies that p_memsz may be zero
         // (https://man7.org/linux/man-pages/man5/elf.5.html)
         phdr.p_memsz == 0)
       continue;
 
-    uintptr_t const segment_start = static_cast<uintptr_t>(info->dlpi_addr + phdr.p_vaddr);
+    uintptr_t const segment_start = lbase + static_cast<uintptr_t>(phdr.p_vaddr);
     uintptr_t const segment_end = segment_start + static_cast<uintptr_t>(phdr.p_memsz);
     LIBCWD_ASSERT(segment_end > segment_start);
 
@@ -823,50 +842,17 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
                                   << (void*)segment_start << '-' << (void*)segment_end
                                   << ") flags=" << flags_to_string(phdr.p_flags));
 
-    // Set data->object_file_ to point to the ObjectFile member of the first PTLoadSegment element of
-    // object_files_map().
     have_pt_load_segment = true;
   }
 
   // If no PTLoadSegment was inserted, then we want to ignore this object file.
-  if (have_pt_load_segment)
-    data->object_file_ = object_file;
-  else
-    delete object_file;
-
-  // Stop iterating iff there was only one target.
-  return target_lbase_only;
-}
-
-//static
-ObjectFile const* ObjectFileRegistry::find_registered_object_file(uintptr_t lbase,
-                                                                  object_files_ts::wat const& object_files_w)
-{
-  // The writable map is keyed by PT_LOAD end address and can contain multiple
-  // segments for the same object file.  Treat any segment whose owning
-  // ObjectFile has the requested load base as proof that the object was already
-  // registered; this prevents duplicate ObjectFile creation when loader
-  // enumeration reports a DSO that was discovered through an earlier path.
-  for (auto const& [segment_end, segment] : *object_files_w)
+  if (!have_pt_load_segment)
   {
-    if (segment.object_file()->get_lbase() == lbase)
-      return segment.object_file();
+    delete object_file;
+    return nullptr;
   }
-  return nullptr;
-}
-
-//static
-ObjectFile const* ObjectFileRegistry::register_object_file_at_lbase(uintptr_t lbase)
-{
-  // Locks object_files_map().
-  CallBackData const data{current_executable_path(), lbase};
 
-  // If this object file was already loaded before, then return that instead of creating a new ObjectFile.
-  ObjectFile const* existing_object_file = find_registered_object_file(lbase, object_files_ts::wat{object_files_map()});
-
-  // Otherwise iterate over all currently loaded object files to find the just dynamically
-  // opened object file, loaded at data.target_lbase_, and create a new ObjectFile for it.
-  return existing_object_file ? existing_object_file : iterate_program_headers(data);
+  return object_file;
 }
 
 //static
@@ -1286,26 +1272,6 @@ static union
 std::once_flag initialize_real_dlopen;
 std::once_flag initialize_real_dlclose;
 
-struct DynamicLoaderRecord
-{
-  int refcount_;
-  int flags_;
-  ObjectFile const* object_file_;
-
-  DynamicLoaderRecord(ObjectFile const* object_file, int flags) : refcount_(1), flags_(flags), object_file_(object_file)
-  {
-  }
-};
-
-using dynamic_loader_records_ts = threadsafe::Unlocked<std::map<void*, DynamicLoaderRecord, std::less<void*>>,
-                                                       threadsafe::policy::Primitive<std::mutex>>;
-
-dynamic_loader_records_ts& dlopen_map()
-{
-  static dynamic_loader_records_ts* map = new dynamic_loader_records_ts; // Intentionally leaked for late DSO teardown.
-  return *map;
-}
-
 } // namespace
 #endif // HAVE_DLOPEN
 
@@ -1346,42 +1312,12 @@ void* dlopen(char const* name, int flags)
     return handle;
 #endif
 
-  // If the record already exist, increment DynamicLoaderRecord::refcount_ and return.
-  {
-    dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
-    {
-      auto iter = dynamic_loader_records_w->find(handle);
-      if (iter != dynamic_loader_records_w->end())
-      {
-        ++iter->second.refcount_;
-        iter->second.flags_ |= flags;
-        return handle;
-      }
-    }
-  }
-
   if (need_register_object_file)
   {
-    struct link_map* link_map;
-    if (::dlinfo(handle, RTLD_DI_LINKMAP, &link_map) == 0)
-    {
-      uintptr_t const lbase = static_cast<uintptr_t>(link_map->l_addr);
-      ObjectFile const* object_file = nullptr;
-      bool skip_dlopen_map = false;
-      ForceLoadingDebugOutput scoped_;
-      object_file = ObjectFileRegistry::register_object_file_at_lbase(lbase);
-      // NULL would mean that there is no DSO at the `l_addr` that `dlinfo` just returned.
-      // That shouldn't be possible because no thread can have dlclose-d it without already haven gotten the handle that
-      // we didn't even return yet. However, in theory it can also mean that this DSO didn't have any non-empty PT_LOAD
-      // segments, in which case we just want to ignore the DSO.
-      if (!object_file)
-        skip_dlopen_map = true;
-      if (!skip_dlopen_map)
-        dynamic_loader_records_ts::wat(dlopen_map())->emplace(handle, DynamicLoaderRecord{object_file, flags});
-    }
+    ForceLoadingDebugOutput scoped_;
+    ObjectFileRegistry::synchronize_with_loader();
   }
 
-  // Unlock dlopen_map and return handle.
   return handle;
 }
 
@@ -1396,34 +1332,12 @@ int dlclose(void* handle)
   if (error != 0 || statically_linked)
     return error;
 
-  ObjectFile const* object_file_to_unregister = nullptr;
-
-  // Remove the corresponding DynamicLoaderRecord from the dlopen_map if this was the last reference.
-  {
-    dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
-
-    auto iter = dynamic_loader_records_w->find(handle);
-    if (iter != dynamic_loader_records_w->end() && --iter->second.refcount_ == 0)
-    {
-#ifdef RTLD_NODELETE
-      if (!(iter->second.flags_ & RTLD_NODELETE))
-#endif
-        object_file_to_unregister = iter->second.object_file_;
-      dynamic_loader_records_w->erase(iter);
-    }
-  }
-
-  if (object_file_to_unregister)
+  if (ObjectFileRegistry::is_initialized())
   {
     ForceLoadingDebugOutput scoped_;
-    ObjectFile const* obsolete_object_file =
-        object_file_to_unregister->write_locked_data()->unregister_object_file_ranges(object_file_to_unregister);
-    // Now that the object_file_data_ts Access object has been destroyed, we can delete the ObjectFile that is no longer
-    // in use.
-    delete obsolete_object_file;
+    ObjectFileRegistry::synchronize_with_loader();
   }
 
-  // Unlock dlopen_map and return success.
   return 0;
 }
 
-- 
2.43.0


From 39d55889760415ad89f1d14d49509aaa59bc227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 31/39] fix: don't deadlock in get_ostream and has_mutex when
 the caller holds the mutex of the stream

OstreamState::get_locked_os locks the mutex of the stream while it holds state_mutex_.
A thread that locked that mutex (because it writes to the stream directly) and then
calls get_ostream() or has_mutex() deadlocked when another thread is writing debug output.
---
 include/libcwd/DebugObject.h     |  8 ++++----
 include/libcwd/DebugObject.inl.h | 22 ++++++++++++----------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index 2f4cba6..b53cbe6 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -33,11 +33,11 @@ namespace _private_ {
 struct OstreamState
 {
  private:
-  mutable std::mutex state_mutex_; // Protects real_os_ and mutex_ as one pair.
-  std::ostream*
+  mutable std::mutex state_mutex_; // Protects real_os_ and mutex_ as one pair. Each by itself can be read without.
+  std::atomic<std::ostream*>
       real_os_{}; // The destination selected with DebugObject::set_ostream. mutex points at the user-provided lock
-  LockInterfaceBase* mutex_{}; // User-provided lock adapter for that stream, or null while the debug object is still
-                               // limited to single-threaded output.
+  std::atomic<LockInterfaceBase*> mutex_{}; // User-provided lock adapter for that stream, or null while the debug object
+                                            // is still limited to single-threaded output.
 
  public:
   // Replace both the ostream and its lock adapter with os and new_mutex.
diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index fc8e613..ec3bd60 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -161,13 +161,13 @@ inline void OstreamState::set_ostream(std::ostream* os)
 
 inline std::ostream* OstreamState::read_real_os() const
 {
-  std::lock_guard<std::mutex> lock(state_mutex_);
+  // Do not lock state_mutex_: the caller might have locked the LockInterfaceBase already (see LOCK ORDER).
   return real_os_;
 }
 
 inline bool OstreamState::has_mutex() const
 {
-  std::lock_guard<std::mutex> lock(state_mutex_);
+  // Do not lock state_mutex_: the caller might have locked the LockInterfaceBase already (see LOCK ORDER).
   return mutex_ != nullptr;
 }
 
@@ -175,12 +175,13 @@ inline std::ostream* OstreamState::get_locked_os(std::ostream* os,
                                                             LockInterfaceBase** locked_mutex_out) const
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
-  std::ostream* locked_os = os ? os : real_os_;
-  *locked_mutex_out = mutex_;
-  if (mutex_)
+  std::ostream* locked_os = os ? os : real_os_.load();
+  LockInterfaceBase* mutex = mutex_;
+  *locked_mutex_out = mutex;
+  if (mutex)
   {
     // LOCK ORDER: state_mutex_ -> LockInterfaceBase
-    mutex_->lock();
+    mutex->lock();
   }
   return locked_os;
 }
@@ -190,10 +191,11 @@ inline bool OstreamState::try_lock_os(std::ostream* os, std::ostream** locked_os
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
   // LOCK ORDER: state_mutex_ -> LockInterfaceBase
-  if (mutex_ && !mutex_->try_lock())
+  LockInterfaceBase* mutex = mutex_;
+  if (mutex && !mutex->try_lock())
     return false;
-  *locked_os_out = os ? os : real_os_;
-  *locked_mutex_out = mutex_;
+  *locked_os_out = os ? os : real_os_.load();
+  *locked_mutex_out = mutex;
   return true;
 }
 
@@ -201,7 +203,7 @@ inline void OstreamState::write_color_off_newline(std::ostream* os, char const*
                                                              std::size_t color_off_size) const
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
-  std::ostream* target_os = os ? os : real_os_;
+  std::ostream* target_os = os ? os : real_os_.load();
   if (color_off_size > 0)
     target_os->write(color_off, color_off_size);
   target_os->put('\n');
-- 
2.43.0


From c3ec3a4882cd08d95237d11a88d2b0ed86da74fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 32/39] fix: data race on first_thread when several threads
 call init_thread at the same time

---
 src/init_functions.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/init_functions.cxx b/src/init_functions.cxx
index 4c5a344..796b0bf 100644
--- a/src/init_functions.cxx
+++ b/src/init_functions.cxx
@@ -152,7 +152,8 @@ void init_thread(std::string thread_name, thread_init_t thread_init)
   if (!libcwd::libcw_do.has_mutex())
     libcwd::libcw_do.set_ostream(libcwd::libcw_do.get_ostream(), &libcwd::cout_mutex);
 
-  static bool first_thread = true;
+  static std::atomic_bool s_first_thread{true};
+  bool const first_thread = s_first_thread.exchange(false);
   if (!thread_name.empty())
   {
     std::string margin = thread_name.substr(0, 15) + std::string(16 - std::min(15UL, thread_name.length()), ' ');
@@ -174,7 +175,6 @@ void init_thread(std::string thread_name, thread_init_t thread_init)
     __Debug(libcw_do.margin().assign(margin.str()));
     threads_created = true;
   }
-  first_thread = false;
 }
 
 /**
-- 
2.43.0


From 4bdd12a6aeb9d7b224032a7e1eed78571081bfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 33/39] fix: initialise the type information of a type only
 once when several threads ask for it at the same time

The flag s_initialized_ was an ordinary bool: concurrent first calls wrote the same TypeInfo at the same time
and could return it before it was written.
---
 include/libcwd/type_info.h | 52 ++++++++++++--------------------------
 src/type_info.cxx          | 20 ++++++---------
 2 files changed, 24 insertions(+), 48 deletions(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index 3e9a306..c5feff3 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -118,7 +118,6 @@ struct type_info
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -131,7 +130,6 @@ struct type_info<T*>
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -144,7 +142,6 @@ struct type_info<void*>
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -154,19 +151,15 @@ struct type_info<void*>
 template <typename T>
 TypeInfo type_info<T>::s_value_;
 
-// _private_::
-template <typename T>
-bool type_info<T>::s_initialized_;
-
 // _private_::
 template <typename T>
 TypeInfo const& type_info<T>::value()
 {
-  if (!s_initialized_)
-  {
+  // Thread-safe: this is done only once.
+  [[maybe_unused]] static bool const s_initialized = [] {
     s_value_.init(typeid(T).name(), sizeof(T), sizeof_pointee<std::remove_cv_t<T>>::value);
-    s_initialized_ = true;
-  }
+    return true;
+  }();
   return s_value_;
 }
 
@@ -174,19 +167,15 @@ TypeInfo const& type_info<T>::value()
 template <typename T>
 TypeInfo type_info<T*>::s_value_;
 
-// _private_::
-template <typename T>
-bool type_info<T*>::s_initialized_;
-
 // _private_::
 template <typename T>
 TypeInfo const& type_info<T*>::value()
 {
-  if (!s_initialized_)
-  {
+  // Thread-safe: this is done only once.
+  [[maybe_unused]] static bool const s_initialized = [] {
     s_value_.init(typeid(T*).name(), sizeof(T*), sizeof_ref_v<T>);
-    s_initialized_ = true;
-  }
+    return true;
+  }();
   return s_value_;
 }
 
@@ -201,7 +190,6 @@ struct libcwd_type_info_exact
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -213,7 +201,6 @@ struct libcwd_type_info_exact<T*>
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -225,7 +212,6 @@ struct libcwd_type_info_exact<void*>
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -234,42 +220,36 @@ struct libcwd_type_info_exact<void*>
 template <typename T>
 ::libcwd::TypeInfo libcwd_type_info_exact<T>::s_value_;
 
-template <typename T>
-bool libcwd_type_info_exact<T>::s_initialized_;
-
 template <typename T>
 ::libcwd::TypeInfo const& libcwd_type_info_exact<T>::value()
 {
-  if (!s_initialized_)
-  {
+  // Thread-safe: this is done only once.
+  [[maybe_unused]] static bool const s_initialized = [] {
     s_value_.init(::libcwd::_private_::extract_exact_name(
           typeid(libcwd_type_info_exact<T>).name(),
           typeid(T).name()),
         sizeof(T),
         ::libcwd::_private_::sizeof_pointee<std::remove_cv_t<T>>::value);
-    s_initialized_ = true;
-  }
+    return true;
+  }();
   return s_value_;
 }
 
 template <typename T>
 ::libcwd::TypeInfo libcwd_type_info_exact<T*>::s_value_;
 
-template <typename T>
-bool libcwd_type_info_exact<T*>::s_initialized_;
-
 template <typename T>
 ::libcwd::TypeInfo const& libcwd_type_info_exact<T*>::value()
 {
-  if (!s_initialized_)
-  {
+  // Thread-safe: this is done only once.
+  [[maybe_unused]] static bool const s_initialized = [] {
     s_value_.init(::libcwd::_private_::extract_exact_name(
           typeid(libcwd_type_info_exact<T*>).name(),
           typeid(T*).name()),
         sizeof(T*),
         ::libcwd::_private_::sizeof_ref_v<T>);
-    s_initialized_ = true;
-  }
+    return true;
+  }();
   return s_value_;
 }
 
diff --git a/src/type_info.cxx b/src/type_info.cxx
index fac8044..790dc55 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -94,15 +94,13 @@ char const* make_label(char const* mangled_name)
 
 TypeInfo type_info<void*>::s_value_;
 
-bool type_info<void*>::s_initialized_;
-
 TypeInfo const& type_info<void*>::value()
 {
-  if (!s_initialized_)
-  {
+  // Thread-safe: this is done only once.
+  [[maybe_unused]] static bool const s_initialized = [] {
     s_value_.init(typeid(void*).name(), sizeof(void*), 0 /* unknown */);
-    s_initialized_ = true;
-  }
+    return true;
+  }();
   return s_value_;
 }
 
@@ -112,12 +110,10 @@ TypeInfo const& type_info<void*>::value()
 
 libcwd::TypeInfo libcwd_type_info_exact<void*>::s_value_;
 
-bool libcwd_type_info_exact<void*>::s_initialized_;
-
 libcwd::TypeInfo const& libcwd_type_info_exact<void*>::value()
 {
-  if (!s_initialized_)
-  {
+  // Thread-safe: this is done only once.
+  [[maybe_unused]] static bool const s_initialized = [] {
 #if __GXX_ABI_VERSION == 0
     s_value_.init(
         ::libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<void*>).name()),
@@ -127,7 +123,7 @@ libcwd::TypeInfo const& libcwd_type_info_exact<void*>::value()
                                                           typeid(void*).name()),
                   sizeof(void*), 0 /* unknown */);
 #endif
-    s_initialized_ = true;
-  }
+    return true;
+  }();
   return s_value_;
 }
-- 
2.43.0


From ab945fbd72bb42a275af38f9d900c97bc06db780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 34/39] fix: let init_thread with copy_from_main not be fooled
 by the main thread being busy writing debug output

---
 include/libcwd/DebugObject.inl.h            | 4 +++-
 include/libcwd/private/ThreadSpecificData.h | 7 +++++++
 src/debug.cxx                               | 4 ++++
 src/threading.cxx                           | 1 +
 4 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index ec3bd60..f5c15ec 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -240,6 +240,7 @@ inline void DebugObject::off()
 {
   LIBCWD_TSD_DECLARATION;
   ++LIBCWD_TSD_MEMBER_OFF;
+  __libcwd_tsd.update_on(index_);
 }
 
 /**
@@ -276,11 +277,12 @@ inline void DebugObject::on()
 #else
   --LIBCWD_TSD_MEMBER_OFF;
 #endif
+  __libcwd_tsd.update_on(index_);
 }
 
 inline bool DebugObject::is_on(LIBCWD_TSD_PARAM) const
 {
-  return __libcwd_tsd.debug_object_off_array[index_] < 0;
+  return __libcwd_tsd.debug_object_on_array[index_];
 }
 
 /**
diff --git a/include/libcwd/private/ThreadSpecificData.h b/include/libcwd/private/ThreadSpecificData.h
index 194e4fd..b8ea628 100644
--- a/include/libcwd/private/ThreadSpecificData.h
+++ b/include/libcwd/private/ThreadSpecificData.h
@@ -12,6 +12,7 @@
 
 #include "libcwd/LIBCWD_ASSERT.h"
 #include "libcwd/config.h"
+#include <atomic>
 
 namespace libcwd::_private_ {
 struct ThreadSpecificData;
@@ -83,9 +84,15 @@ struct ThreadSpecificData
   bool recursive_assert = false; // Detect loop involving LIBCWD_ASSERT.
 #endif
   int debug_object_off_array[LIBCWD_DO_MAX]{}; // Thread Specific on/off counter for Debug Objects.
+  // Whether the thread turned the Debug Objects on; contrary to debug_object_off_array, which is also used to suppress
+  // debug output while writing debug output, this may be read by other threads.
+  std::atomic<bool> debug_object_on_array[LIBCWD_DO_MAX]{};
   DebugObject_ThreadSpecificData*
       debug_object_array[LIBCWD_DO_MAX]{}; // Thread Specific Data of Debug Objects or NULL when no debug object.
 
+  // Must be called by the thread itself after the user changed debug_object_off_array[index].
+  void update_on(int index) { debug_object_on_array[index] = debug_object_off_array[index] < 0; }
+
   // Release per-thread debug-object data owned by this TSD.
   //
   // ThreadSpecificData::instance() continues to return this object while cleanup runs so diagnostics emitted during
diff --git a/src/debug.cxx b/src/debug.cxx
index 50ea231..009fb81 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1237,6 +1237,7 @@ bool DebugObject::NS_init(LIBCWD_TSD_PARAM)
                              // has been performed (ie, the _application_ start (don't confuse that with
                              // the constructor - which does nothing)).
 #endif
+  __libcwd_tsd.update_on(index_);
   DEBUGDEBUG_CERR("DebugObject::NS_init(), _off set to " << LIBCWD_TSD_MEMBER_OFF);
 
   set_ostream(&std::cerr); // Write to std::cerr by default.
@@ -1286,6 +1287,7 @@ void debug_tsd_init(LIBCWD_TSD_PARAM)
     DebugObject_ThreadSpecificData& tsd(*(__libcwd_tsd.debug_object_array[(debugObject).index_] = new DebugObject_ThreadSpecificData));
     tsd.init();
     LIBCWD_DO_TSD_MEMBER_OFF(debugObject) = 0;
+    __libcwd_tsd.update_on((debugObject).index_);
   );
   // clang-format on
 }
@@ -1564,6 +1566,7 @@ void DebugObject::force_on(DebugObject::OnOffState& state)
   state.first_time = LIBCWD_TSD_MEMBER(first_time);
 #endif
   LIBCWD_TSD_MEMBER_OFF = -1; // Turn object on.
+  __libcwd_tsd.update_on(index_);
 }
 
 void DebugObject::restore(DebugObject::OnOffState const& state)
@@ -1576,6 +1579,7 @@ void DebugObject::restore(DebugObject::OnOffState const& state)
   if (LIBCWD_TSD_MEMBER_OFF != -1)
     core_dump(); // off() and on() where called and not in equal pairs.
   LIBCWD_TSD_MEMBER_OFF = state.off_cnt; // Restore.
+  __libcwd_tsd.update_on(index_);
 }
 
 void Channel::force_on(Channel::OnOffState& state, char const* label)
diff --git a/src/threading.cxx b/src/threading.cxx
index 8209404..5ac0bb8 100644
--- a/src/threading.cxx
+++ b/src/threading.cxx
@@ -122,6 +122,7 @@ void ThreadSpecificData::cleanup_routine()
       DebugObject_ThreadSpecificData* ptr = debug_object_array[i];
       debug_object_off_array[i] =
           0; // Turn all debugging off!  Now, hopefully, we won't use debug_object_array[i] anymore.
+      update_on(i);
       debug_object_array[i] = NULL; // So we won't free it again.
       ptr->tsd_initialized = false;
       delete ptr; // Free debug object TSD.
-- 
2.43.0


From e47cde4aae4d7c5f2705e9f7784b82dc71ccf91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 35/39] fix: data race in libdw when several threads look up a
 location in the same object file at the same time

---
 src/dwarf.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 710ba29..c0c43e9 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -329,6 +329,10 @@ InlineScopeLookupResult lookup_innermost_inline_scope(Dwarf_Die* cu_die, Dwarf_D
 #ifndef HIDE_FROM_DOXYGEN
 LocationLookupResult SymbolRange::lookup_location(uintptr_t addr, uintptr_t lbase) const
 {
+  // A Dwarf handle, shared by all symbols of an object file, may only be used by one thread at a time.
+  static std::mutex libdw_mutex;
+  std::lock_guard<std::mutex> lock(libdw_mutex);
+
   LocationLookupResult result;
   result.physical_function_name = name_;
 
-- 
2.43.0


From 6d3d498ad6e4490f0c7955e5ca49ce34d89c2e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 36/39] fix: deadlock of a dlclose as first use of libcwd by a
 thread with a dlopen in a constructor of a library that is being loaded

---
 src/dwarf.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index c0c43e9..747e727 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -738,6 +738,10 @@ void ObjectFileRegistry::register_initial_object_files()
 //static
 void ObjectFileRegistry::synchronize_with_loader()
 {
+  // The first use of the thread specific data takes the lock of the dynamic loader. Do that before the mutex is locked:
+  // a constructor that calls dlopen gets here while the loader is locked.
+  static_cast<void>(LIBCWD_TSD_INSTANCE);
+
   // The mutex is held from before the snapshot is taken until the registry agrees with it,
   // so that an older snapshot never overwrites the result of a newer one.
   static std::mutex synchronize_mutex;
-- 
2.43.0


From 1d299d6f66884e7b9e3762b33625691e59a6c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 37/39] fix: the constructor of a debug object must not undo
 what was done before it

libcwd::initialize(), which may be called before the constructor of libcw_do, sets
the ostream of libcw_do (and the user can replace it, or turn on always_flush). Then
the constructor of libcw_do constructed ostream_state_ and always_flush_ (again), so
that the next debug output dereferenced a null pointer.
---
 include/libcwd/DebugObject.h | 6 ++++--
 src/debug.cxx                | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index b53cbe6..66a1931 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -126,8 +126,9 @@ class DebugObject
   //
 
   friend class libcwd::Buffer; // Buffer::writeto() needs access.
-  _private_::OstreamState ostream_state_;
+  union { _private_::OstreamState ostream_state_; };
   // Ostream destination and matching external lock, protected as one unit.
+  // Constructed by NS_init(), because the constructor of this object must leave it alone (hence the union).
 
   Buffer* unfinished_oss_;
   unsigned long newlineless_id_;
@@ -158,8 +159,9 @@ class DebugObject
   bool interactive_;
   // Set true if the last or current debug output is to cerr
 
-  std::atomic<int> always_flush_{0};
+  union { std::atomic<int> always_flush_; };
   // Application-wide flush on/off counter for Debug Objects.
+  // Constructed by NS_init(), because the constructor of this object must leave it alone (hence the union).
 
  public:
   /** @addtogroup format-of-the-debug-output */
diff --git a/src/debug.cxx b/src/debug.cxx
index 009fb81..4757a61 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1208,6 +1208,8 @@ bool DebugObject::NS_init(LIBCWD_TSD_PARAM)
 
   being_initialized_ = true;
 
+  new (&ostream_state_) _private_::OstreamState;
+  new (&always_flush_) std::atomic<int>(0);
   unfinished_oss_ = NULL;
 
 #if CWDEBUG_DEBUG
-- 
2.43.0


From c2667a147e907f1fe4df322b53d82675644f2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:56 +0000
Subject: [PATCH 38/39] fix: a variable with the name 'on' can be used in the
 arguments of Dout

The macro LibcwDoutScopeBegin declared a variable 'on' around the arguments,
so that `Dout(dc::notice, on)' printed 'true' irrespective of the variable of
that name at that place, and `Dout(dc::notice|cond_error_cf(on), ...)' used the
macro's variable before it was initialized.
---
 include/libcwd/macro_Libcwd_macros.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libcwd/macro_Libcwd_macros.h b/include/libcwd/macro_Libcwd_macros.h
index 98788e2..098be06 100644
--- a/include/libcwd/macro_Libcwd_macros.h
+++ b/include/libcwd/macro_Libcwd_macros.h
@@ -89,12 +89,12 @@ extern "C" ssize_t write(int fd, void const* buf, size_t count);
     {                                                                                                           \
       using namespace ::libcwd;                                                                                 \
       ::libcwd::ChannelSetBootstrap __libcwd_channel_set(LIBCWD_DO_TSD(debug_obj), LIBCWD_TSD);                 \
-      bool on;                                                                                                  \
+      bool __libcwd_on;                                                                                         \
       {                                                                                                         \
         using namespace ::dc_namespace;                                                                         \
-        on = (__libcwd_channel_set | cntrl).on;                                                                 \
+        __libcwd_on = (__libcwd_channel_set | cntrl).on;                                                        \
       }                                                                                                         \
-      if (on)                                                                                                   \
+      if (__libcwd_on)                                                                                          \
       {                                                                                                         \
         ::libcwd::DebugObject& __libcwd_debug_object(debug_obj);                                                \
         LIBCWD_DO_TSD(__libcwd_debug_object).start(__libcwd_debug_object, __libcwd_channel_set, LIBCWD_TSD);    \
-- 
2.43.0


From 3699c9d597a481b9d2d1bfd31eac9402fe90727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:54 +0000
Subject: [PATCH 39/39] fix: all output in the middle of a message with cerr_cf
 is written to cerr

Only the first of the messages that were written while the operands of a
message with cerr_cf were evaluated, or in the middle of a continued message
with cerr_cf, was written to std::cerr too; the next ones went to the ostream
of the debug object.
---
 src/debug.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 4757a61..f6e36b5 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -963,12 +963,13 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
 
     // Indent nested debug output with 4 extra spaces.
     indent += 4;
-
-    // If the previous target was written to cerr, then
-    // write this interrupting output to cerr too.
-    channel_set.mask |= (current->mask & cerr_cf);
   }
 
+  // If the message in the middle of which this one appears is written to cerr, then
+  // write this interrupting output to cerr too, also when it isn't the first of a series.
+  if (output_state_stack.size() > 0)
+    channel_set.mask |= (output_state_stack.top()->mask & cerr_cf);
+
   // Create a new output state.
   DEBUGDEBUG_CERR("creating new OutputState");
   current = new OutputState(channel_set.mask, channel_set.label, errno); // LEAK5: This allocation + Location.
-- 
2.43.0


From 75d17eee3d1dfc0d7311a5905f1b7b98e2be5c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 001/135] fix: config_block views ignore read-only marks and
 source locations

is_read_only, mark_read_only, set_location and get_location of a view worked on
the view's own (empty) lists, so a key marked read-only through a view stayed
writable and the mark made on the parent was not seen through the view.
---
 vital/config/config_block.cxx | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index e888069..d667b09 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -227,6 +227,11 @@ bool
 config_block
 ::is_read_only( config_block_key_t const& key ) const
 {
+  if ( m_parent )
+  {
+    return m_parent->is_read_only( m_name + block_sep + key );
+  }
+
   return 0 != m_ro_list.count( key );
 }
 
@@ -237,6 +242,12 @@ void
 config_block
 ::mark_read_only( config_block_key_t const& key )
 {
+  if ( m_parent )
+  {
+    m_parent->mark_read_only( m_name + block_sep + key );
+    return;
+  }
+
   m_ro_list.insert( key );
 }
 
@@ -400,6 +411,12 @@ void
 config_block
 ::set_location( config_block_key_t const& key, std::shared_ptr< std::string > file, int line )
 {
+  if ( m_parent )
+  {
+    m_parent->set_location( m_name + block_sep + key, file, line );
+    return;
+  }
+
   m_def_store[key] = source_location( file, line );
 }
 
@@ -411,6 +428,11 @@ config_block
                 std::string& f,
                 int& l) const
 {
+  if ( m_parent )
+  {
+    return m_parent->get_location( m_name + block_sep + key, f, l );
+  }
+
   location_t::const_iterator i = m_def_store.find( key );
   if ( i != m_def_store.end() )
   {
-- 
2.43.0


From 2efd9786320e12d7b9e973e83c4fd2abffc04917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 002/135] fix: global entries listed by a config_block view
 could not be read through it

available_values() of a view lists the parent's _global entries under their own
name, but every accessor of the view looked for them below the view's prefix, so
print() and merge_config() of such a view threw no_such_configuration_value.
---
 vital/config/config_block.cxx | 46 ++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/vital/config/config_block.cxx b/vital/config/config_block.cxx
index d667b09..e7b8591 100644
--- a/vital/config/config_block.cxx
+++ b/vital/config/config_block.cxx
@@ -97,6 +97,10 @@ static bool does_not_begin_with( config_block_key_t const&  key,
 static config_block_key_t strip_block_name( config_block_key_t const& subblock,
                                             config_block_key_t const& key );
 
+/// private helper method to find the parent's name for a key of a view
+static config_block_key_t parent_key( config_block_key_t const& subblock,
+                                      config_block_key_t const& key );
+
 // Create an empty configuration.
 config_block_sptr
 config_block
@@ -167,7 +171,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->get_description( m_name + block_sep + key );
+    return m_parent->get_description( parent_key( m_name, key ) );
   }
 
   store_t::const_iterator i = m_descr_store.find( key );
@@ -188,7 +192,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->unset_value( m_name + block_sep + key );
+    m_parent->unset_value( parent_key( m_name, key ) );
   }
   else
   {
@@ -229,7 +233,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->is_read_only( m_name + block_sep + key );
+    return m_parent->is_read_only( parent_key( m_name, key ) );
   }
 
   return 0 != m_ro_list.count( key );
@@ -244,7 +248,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->mark_read_only( m_name + block_sep + key );
+    m_parent->mark_read_only( parent_key( m_name, key ) );
     return;
   }
 
@@ -313,7 +317,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->has_value( m_name + block_sep + key );
+    return m_parent->has_value( parent_key( m_name, key ) );
   }
 
   return ( 0 != m_store.count( key ) );
@@ -358,7 +362,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->i_get_value( m_name + block_sep + key );
+    return m_parent->i_get_value( parent_key( m_name, key ) );
   }
 
   store_t::const_iterator i = m_store.find( key );
@@ -382,7 +386,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->set_value( m_name + block_sep + key, value, descr );
+    m_parent->set_value( parent_key( m_name, key ), value, descr );
   }
   else
   {
@@ -413,7 +417,7 @@ config_block
 {
   if ( m_parent )
   {
-    m_parent->set_location( m_name + block_sep + key, file, line );
+    m_parent->set_location( parent_key( m_name, key ), file, line );
     return;
   }
 
@@ -430,7 +434,7 @@ config_block
 {
   if ( m_parent )
   {
-    return m_parent->get_location( m_name + block_sep + key, f, l );
+    return m_parent->get_location( parent_key( m_name, key ), f, l );
   }
 
   location_t::const_iterator i = m_def_store.find( key );
@@ -540,6 +544,30 @@ strip_block_name( config_block_key_t const& subblock, config_block_key_t const&
 }
 
 
+// ------------------------------------------------------------------
+// private helper method to find the parent's name for a key of a view
+/**
+ * This is the inverse of strip_block_name(): global entries are listed in every
+ * view under their own name.
+ *
+ * \param subblock  The subblock of the view.
+ * \param key       The key as seen through the view.
+ * \returns The key as seen in the parent of the view.
+ */
+config_block_key_t
+parent_key( config_block_key_t const& subblock, config_block_key_t const& key )
+{
+  static config_block_key_t const global_start = config_block::global_value + config_block::block_sep;
+
+  if ( starts_with( key, global_start ) )
+  {
+    return key;
+  }
+
+  return subblock + config_block::block_sep + key;
+}
+
+
 // ------------------------------------------------------------------
 /// Format config block in a printable stream
 void
-- 
2.43.0


From a6b23bf0cc02b23483a3875dba9b63ec56ebbc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 003/135] fix: config parser refuses keys, blocks and symbols
 of one or two characters

---
 vital/config/config_parser.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 85fc5a5..f9eb5b2 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -537,7 +537,7 @@ public:
   {
     // Words are LHS tokens, which start with a letter, and can not end with a ':'
     // A *word* can contain these symbols "- _ : . /"
-    static kwiversys::RegularExpression re_word( "^[a-zA-Z][-a-zA-Z0-9.:/_]+[-a-zA-Z0-9./_]" );
+    static kwiversys::RegularExpression re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" );
     static kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
 
     // Test for end of line while processing
-- 
2.43.0


From b7a47a168d31d0b5e433675bb7f42e2e2243c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 004/135] fix: concurrent reads of configuration files share
 and modify static regular expressions

---
 vital/config/config_parser.cxx  | 27 +++++++++++++++------------
 vital/config/token_expander.cxx |  3 ++-
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index f9eb5b2..26ef9c3 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -136,7 +136,9 @@ public:
       m_parse_error( false ),
       m_symtab( new kwiver::vital::token_type_symtab( "LOCAL" ) ),
       m_config_block( kwiver::vital::config_block::empty_config() ),
-      m_logger( kwiver::vital::get_logger( "vital.config_parser" ) )
+      m_logger( kwiver::vital::get_logger( "vital.config_parser" ) ),
+      m_re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" ),
+      m_re_flag( "^\\[[a-zA-Z,]+\\]" )
   {
     m_token_expander.add_token_type( new kwiver::vital::token_type_env() );
     m_token_expander.add_token_type( new kwiver::vital::token_type_sysenv() );
@@ -535,11 +537,6 @@ public:
    */
   void get_token( std::istream& str, token_t & token )
   {
-    // Words are LHS tokens, which start with a letter, and can not end with a ':'
-    // A *word* can contain these symbols "- _ : . /"
-    static kwiversys::RegularExpression re_word( "^[a-zA-Z]([-a-zA-Z0-9.:/_]*[-a-zA-Z0-9./_])?" );
-    static kwiversys::RegularExpression re_flag( "^\\[[a-zA-Z,]+\\]" );
-
     // Test for end of line while processing
     if ( m_token_line.size() == 0)
     {
@@ -565,20 +562,20 @@ public:
       trim( token.value );
       m_token_line.clear();
     }
-    else if ( re_flag.find( m_token_line ) )
+    else if ( m_re_flag.find( m_token_line ) )
     {
       token.type = token_t::TK_FLAG;
-      token.value = re_flag.match( 0 );
+      token.value = m_re_flag.match( 0 );
 
-      m_token_line = m_token_line.substr( re_flag.end(0) ); // remove token from input
+      m_token_line = m_token_line.substr( m_re_flag.end(0) ); // remove token from input
       trim( m_token_line );
     }
-    else if ( re_word.find( m_token_line ) )
+    else if ( m_re_word.find( m_token_line ) )
     {
       token.type = token_t::TK_WORD;
-      token.value = re_word.match( 0 );
+      token.value = m_re_word.match( 0 );
 
-      m_token_line = m_token_line.substr( re_word.end(0) ); // remove token from input
+      m_token_line = m_token_line.substr( m_re_word.end(0) ); // remove token from input
       trim( m_token_line );
     }
     else
@@ -718,6 +715,12 @@ public:
   // -- token extractor data
   int m_token_state;
   std::string m_token_line;
+
+  // Matching modifies the expression object, so each parser has its own.
+  // Words are LHS tokens, which start with a letter, and can not end with a ':'
+  // A *word* can contain these symbols "- _ : . /"
+  kwiversys::RegularExpression m_re_word;
+  kwiversys::RegularExpression m_re_flag;
 };
 
 
diff --git a/vital/config/token_expander.cxx b/vital/config/token_expander.cxx
index 6fd60ce..a9cd4eb 100644
--- a/vital/config/token_expander.cxx
+++ b/vital/config/token_expander.cxx
@@ -86,7 +86,8 @@ token_expander::
 expand_token( std::string const& initial_string )
 {
   std::string new_value;
-  static kwiversys::RegularExpression exp( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([a-zA-Z0-9._:]+)?\\}" );
+  // Matching modifies the expression object, so it can not be shared.
+  kwiversys::RegularExpression exp( "\\$([a-zA-Z][a-zA-Z0-9_]*)\\{([a-zA-Z0-9._:]+)?\\}" );
 
   std::string::const_iterator start, end;
   start = initial_string.begin();
-- 
2.43.0


From 0cf5e83a0bd94247ab3565b5a0fb2b8ad619a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 005/135] fix: regular expressions of different threads share
 the state of compile and find

---
 vital/kwiversys/RegularExpression.cxx | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 598e7ca..5447488 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -293,13 +293,13 @@ const unsigned char MAGIC = 0234;
 
 
 /*
- * Global work variables for compile().
+ * Global work variables for compile(), of each thread.
  */
-static const char* regparse;    // Input-scan pointer.
-static       int   regnpar;     // () count.
-static       char  regdummy;
-static       char* regcode;     // Code-emit pointer; &regdummy = don't.
-static       long  regsize;     // Code size.
+static thread_local const char* regparse;    // Input-scan pointer.
+static thread_local       int   regnpar;     // () count.
+static                    char  regdummy;
+static thread_local       char* regcode;     // Code-emit pointer; &regdummy = don't.
+static thread_local       long  regsize;     // Code size.
 
 /*
  * Forward declarations for compile()'s friends.
@@ -861,12 +861,12 @@ static void regoptail (char* p, const char* val) {
 
 
 /*
- * Global work variables for find().
+ * Global work variables for find(), of each thread.
  */
-static const char*  reginput;   // String-input pointer.
-static const char*  regbol;     // Beginning of input, for ^ check.
-static const char* *regstartp;  // Pointer to startp array.
-static const char* *regendp;    // Ditto for endp.
+static thread_local const char*  reginput;   // String-input pointer.
+static thread_local const char*  regbol;     // Beginning of input, for ^ check.
+static thread_local const char* *regstartp;  // Pointer to startp array.
+static thread_local const char* *regendp;    // Ditto for endp.
 
 /*
  * Forwards.
-- 
2.43.0


From 9bc9c675c1d7dc109d339bbb351bdff037e20eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 006/135] fix: floating point values stored in a config_block
 lose digits

---
 vital/config/config_block.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vital/config/config_block.h b/vital/config/config_block.h
index 9a573b3..1b9129c 100644
--- a/vital/config/config_block.h
+++ b/vital/config/config_block.h
@@ -46,9 +46,11 @@
 #include <map>
 #include <set>
 #include <string>
+#include <type_traits>
 #include <typeinfo>
 #include <vector>
 #include <ostream>
+#include <limits>
 #include <memory>
 #include <exception>
 #include <sstream>
@@ -620,6 +622,12 @@ config_block_set_value_cast_default( T const& value )
 {
   std::stringstream val_str;
 
+  // Enough digits to get the same floating point value back
+  typedef std::numeric_limits< typename std::decay< T >::type > limits_t;
+  val_str.precision( limits_t::is_specialized
+                     ? limits_t::max_digits10
+                     : std::numeric_limits< double >::max_digits10 );
+
   try
   {
     val_str << value;
-- 
2.43.0


From aa7612e2f436d818f5abc659659477fa2e71ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 007/135] fix: text that is not a timestamp gives an undefined
 timestamp instead of a bad cast

---
 vital/types/timestamp_config.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vital/types/timestamp_config.h b/vital/types/timestamp_config.h
index f2e04ad..9b64fe2 100644
--- a/vital/types/timestamp_config.h
+++ b/vital/types/timestamp_config.h
@@ -62,14 +62,19 @@ config_block_get_value_cast( config_block_value_t const& value )
   std::stringstream str; // add string to stream
   str << value;
 
-  timestamp::time_t t;
+  timestamp::time_t t( 0 );
   str >> t;
   obj.set_time_usec( t );
 
-  timestamp::frame_t f;
+  timestamp::frame_t f( 0 );
   str >> f;
   obj.set_frame( f );
 
+  if ( str.fail() )
+  {
+    throw bad_config_block_cast( "failed to convert from string representation \"" + value + "\"" );
+  }
+
   return obj;
 }
 
-- 
2.43.0


From f7b24f5b13e41d8963ed5ff1461ec5d9c8e5f06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 008/135] fix: write_config_file does not report failures to
 open or write the file

---
 vital/config/config_block_io.cxx | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/vital/config/config_block_io.cxx b/vital/config/config_block_io.cxx
index ba47e56..94ca278 100644
--- a/vital/config/config_block_io.cxx
+++ b/vital/config/config_block_io.cxx
@@ -46,6 +46,8 @@
 #include <kwiversys/SystemTools.hxx>
 
 #include <algorithm>
+#include <cerrno>
+#include <cstring>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -392,11 +394,24 @@ write_config_file( config_block_sptr const& config,
     }
   }
 
+  // Format before opening, so that a config which can not be written does not
+  // cost the existing file.
+  std::ostringstream content;
+  write_config( config, content );
+
   // open output file and write each key/value to a line.
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path, std::strerror( errno ) );
+  }
 
-  write_config( config, ofile );
+  ofile << content.str();
   ofile.close();
+  if ( ! ofile )
+  {
+    throw config_file_write_exception( file_path, "Could not write the whole file." );
+  }
 }
 
 
-- 
2.43.0


From c69eb8a804c26a138bc7e44237b2b46f67e28f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 009/135] fix: a configuration file that includes itself is
 read until files or stack run out

---
 vital/config/config_parser.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 26ef9c3..61db3ba 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -275,6 +275,17 @@ public:
           throw config_file_not_found_exception( resolv_filename, sstr.str() );
         }
 
+        // A file can not include itself, directly or through others.
+        if ( std::find( m_include_stack.begin(), m_include_stack.end(), resolv_filename )
+             != m_include_stack.end() )
+        {
+          std::ostringstream sstr;
+          sstr << "\"" << resolv_filename << "\" included from " << file_path << ":" << m_line_number
+               << " includes itself.";
+
+          throw config_file_not_parsed_exception( file_path, sstr.str() );
+        }
+
         process_file( resolv_filename ); // process included file
 
         m_line_number = current_line; // restore line number
-- 
2.43.0


From cc0344a8a08bbcf7a17e0410a612a49098424d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 010/135] fix: config_parser misreads the file that follows a
 refused one

---
 vital/config/config_parser.cxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 61db3ba..9c2a167 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -784,6 +784,14 @@ config_parser
 ::parse_config( config_path_t const& file_path )
 {
   m_config_file = file_path;
+
+  // A previous file that was refused part way leaves its context behind.
+  m_priv->m_block_stack.clear();
+  m_priv->m_current_context.clear();
+  m_priv->m_include_stack.clear();
+  m_priv->m_file_count = 0;
+  m_priv->m_parse_error = false;
+
   m_priv->process_file( m_config_file );
 }
 
-- 
2.43.0


From 5ceefd7c9d053021e8050238894ed449550b75c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 011/135] fix: config parser takes a line like "= block" for a
 block directive

---
 vital/config/config_parser.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index 9c2a167..f92155c 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -231,7 +231,9 @@ public:
       } // end EOF
 
       // ------------------------------------------------------------------
-      if ( token.value == "include" )
+      const bool is_word( token.type == token_t::TK_WORD ); // keywords are words
+
+      if ( is_word && token.value == "include" )
       {
         /*
          * Handle "include" <file-path>
@@ -294,7 +296,7 @@ public:
       }
 
       // ------------------------------------------------------------------
-      if ( token.value == "block" )
+      if ( is_word && token.value == "block" )
       {
         /*
          * Handle "block" <block-name>
@@ -331,7 +333,7 @@ public:
       }
 
       // ------------------------------------------------------------------
-      if ( token.value == "endblock" )
+      if ( is_word && token.value == "endblock" )
       {
         /*
          * Handled "endblock" keyword
@@ -355,7 +357,7 @@ public:
 
       // ------------------------------------------------------------------
       bool rel_path(false);
-      if ( token.value == "relativepath" )
+      if ( is_word && token.value == "relativepath" )
       {
         /*
          * Handle "relatiepath" <key> = <filepath>
-- 
2.43.0


From 079cd7a792b9967a7b3577b2086ec772941910f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 012/135] fix: included configuration files are taken from PATH
 before the search path

---
 vital/config/config_parser.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/config/config_parser.cxx b/vital/config/config_parser.cxx
index f92155c..895a06f 100644
--- a/vital/config/config_parser.cxx
+++ b/vital/config/config_parser.cxx
@@ -653,7 +653,7 @@ public:
 
     // The file is on a relative path.
     // See if file can be found in the search path.
-    std::string res_file = kwiversys::SystemTools::FindFile( file_name, this->m_search_path, false );
+    std::string res_file = kwiversys::SystemTools::FindFile( file_name, this->m_search_path, true );
     if ( "" != res_file )
     {
       return res_file;
@@ -680,7 +680,7 @@ public:
       }
     } // end for
 
-    return kwiversys::SystemTools::FindFile( file_name, include_paths, false );
+    return kwiversys::SystemTools::FindFile( file_name, include_paths, true );
   }
 
 
-- 
2.43.0


From 43a8e788fb2d301ccae143bdbfdb2252cc28e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 013/135] fix: documented configuration search path has /config
 where the code does not look

---
 vital/config/config_block_io.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vital/config/config_block_io.h b/vital/config/config_block_io.h
index 464230e..27aa1b0 100644
--- a/vital/config/config_block_io.h
+++ b/vital/config/config_block_io.h
@@ -99,10 +99,10 @@ config_block_sptr VITAL_CONFIG_EXPORT read_config_file(
  *
  * ## OS/X Apple Platform
  * - ${KWIVER_CONFIG_PATH}                                    (if set)
- * - ${XDG_CONFIG_HOME}/<app-name>[/<app-version>]/config     (if $XDG_CONFIG_HOME set)
- * - ${HOME}/.config/<app-name>[/<app-version>]/config        (if $HOME set)
- * - /etc/xdg/<app-name>[/<app-version>]/config
- * - /etc/<app-name>[/<app-version>]/config
+ * - ${XDG_CONFIG_HOME}/<app-name>[/<app-version>]            (if $XDG_CONFIG_HOME set)
+ * - ${HOME}/.config/<app-name>[/<app-version>]               (if $HOME set)
+ * - /etc/xdg/<app-name>[/<app-version>]
+ * - /etc/<app-name>[/<app-version>]
  * - ${HOME}/Library/Application Support/<app-name>[/<app-version>]/config (if $HOME set)
  * - /Library/Application Support/<app-name>[/<app-version>]/config
  * - /usr/local/share/<app-name>[/<app-version>]/config
@@ -117,10 +117,10 @@ config_block_sptr VITAL_CONFIG_EXPORT read_config_file(
  *
  * ## Other Posix Platforms (e.g. Linux)
  * - ${KWIVER_CONFIG_PATH}                                    (if set)
- * - ${XDG_CONFIG_HOME}/<app-name>[/<app-version>]/config     (if $XDG_CONFIG_HOME set)
- * - ${HOME}/.config/<app-name>[/<app-version>]/config        (if $HOME set)
- * - /etc/xdg/<app-name>[/<app-version>]/config
- * - /etc/<app-name>[/<app-version>]/config
+ * - ${XDG_CONFIG_HOME}/<app-name>[/<app-version>]            (if $XDG_CONFIG_HOME set)
+ * - ${HOME}/.config/<app-name>[/<app-version>]               (if $HOME set)
+ * - /etc/xdg/<app-name>[/<app-version>]
+ * - /etc/<app-name>[/<app-version>]
  * - /usr/local/share/<app-name>[/<app-version>]/config
  * - /usr/share/<app-name>[/<app-version>]/config
  *
-- 
2.43.0


From a9e48f54df6383222eb43b17240df96a8a3a9875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 014/135] fix: copying empty image memory passes null to memcpy

---
 vital/types/image.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vital/types/image.cxx b/vital/types/image.cxx
index da718d9..e8fb76d 100644
--- a/vital/types/image.cxx
+++ b/vital/types/image.cxx
@@ -63,7 +63,10 @@ image_memory
   : data_( new char[other.size()] ),
     size_( other.size() )
 {
-  std::memcpy( data_, other.data_, size_ );
+  if ( size_ > 0 )
+  {
+    std::memcpy( data_, other.data_, size_ );
+  }
 }
 
 
@@ -96,7 +99,10 @@ image_memory
     size_ = other.size_;
   }
 
-  std::memcpy( data_, other.data_, size_ );
+  if ( size_ > 0 )
+  {
+    std::memcpy( data_, other.data_, size_ );
+  }
   return *this;
 }
 
-- 
2.43.0


From c5180d53374cb5c6d3fd4db0c9d6999f9f2faf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 015/135] fix: pixel access reads out of bounds in an image
 without channels

---
 vital/types/image.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vital/types/image.h b/vital/types/image.h
index d0ae048..d6836c7 100644
--- a/vital/types/image.h
+++ b/vital/types/image.h
@@ -233,7 +233,7 @@ public:
    */
   inline rgb_color at( unsigned i, unsigned j ) const
   {
-    if( i >= width_ || j >= height_ )
+    if( i >= width_ || j >= height_ || depth_ == 0 )
     {
       throw std::out_of_range("kwiver::vital::image::at(unsigned, unsigned) const");
     }
@@ -258,7 +258,7 @@ public:
    */
   inline byte& operator()( unsigned i, unsigned j )
   {
-    if( i >= width_ || j >= height_ )
+    if( i >= width_ || j >= height_ || depth_ == 0 )
     {
       throw std::out_of_range("kwiver::vital::image::operator()(unsigned, unsigned)");
     }
@@ -269,7 +269,7 @@ public:
   /// Const access pixels in the first channel of the image
   inline const byte& operator()( unsigned i, unsigned j ) const
   {
-    if( i >= width_ || j >= height_ )
+    if( i >= width_ || j >= height_ || depth_ == 0 )
     {
       throw std::out_of_range("kwiver::vital::image::operator()(unsigned, unsigned) const");
     }
-- 
2.43.0


From d1ca385c95811760a631152c1c92b0e9742b42fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 016/135] fix: the first frame of a track_set is never later
 than frame 0

---
 vital/types/track_set.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index 2c84c6f..c45db54 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -100,13 +100,15 @@ track_set
 ::last_frame() const
 {
   frame_id_t last_frame = 0;
+  bool found = false;
   const std::vector<track_sptr> all_tracks = this->tracks();
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() > last_frame )
+    if( ! t->empty() && ( ! found || t->last_frame() > last_frame ) )
     {
       last_frame = t->last_frame();
+      found = true;
     }
   }
 
@@ -120,13 +122,15 @@ track_set
 ::first_frame() const
 {
   frame_id_t first_frame = 0;
+  bool found = false;
   const std::vector<track_sptr> all_tracks = this->tracks();
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() < first_frame )
+    if( ! t->empty() && ( ! found || t->first_frame() < first_frame ) )
     {
       first_frame = t->first_frame();
+      found = true;
     }
   }
 
-- 
2.43.0


From 1c34ae2b73e892ba25f7c2868e8ea154eaa7bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 017/135] fix: tracks without states taken for tracks on frame
 0

---
 vital/types/track_set.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index c45db54..911b097 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -209,7 +209,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->first_frame() == frame_number )
+    if( ! t->empty() && t->first_frame() == frame_number )
     {
       new_tracks.push_back(t);
     }
@@ -230,7 +230,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == frame_number )
+    if( ! t->empty() && t->last_frame() == frame_number )
     {
       terminated_tracks.push_back(t);
     }
@@ -279,7 +279,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_features.push_back((t->end()-1)->feat);
     }
@@ -300,7 +300,7 @@ track_set
 
   VITAL_FOREACH( track_sptr t, all_tracks)
   {
-    if( t->last_frame() == last_frame )
+    if( ! t->empty() && t->last_frame() == last_frame )
     {
       last_descriptors.push_back((t->end()-1)->desc);
     }
-- 
2.43.0


From 09bb4b2acbfc5d5e815fa98595edaa4542abfa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 018/135] fix: integer overflow in frame offsets of a track_set

---
 vital/types/track_set.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/types/track_set.cxx b/vital/types/track_set.cxx
index 911b097..c47eb95 100644
--- a/vital/types/track_set.cxx
+++ b/vital/types/track_set.cxx
@@ -364,13 +364,13 @@ track_set
     return offset;
   }
 
-  frame_id_t frame_number = this->last_frame() + 1;
+  const frame_id_t last_frame = this->last_frame();
 
-  if( -offset <= frame_number )
+  if( offset >= -1 - last_frame )
   {
-    frame_number += offset;
+    return last_frame + ( offset + 1 );
   }
-  return frame_number;
+  return last_frame + 1;
 }
 
 } } // end namespace vital
-- 
2.43.0


From ec33c4922ca3e4a40c920527e00592265aac89ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:48 +0000
Subject: [PATCH 019/135] fix: similarity refused for an invalid matrix is the
 identity, not undefined

---
 vital/types/similarity.cxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vital/types/similarity.cxx b/vital/types/similarity.cxx
index 436b373..3ab28eb 100644
--- a/vital/types/similarity.cxx
+++ b/vital/types/similarity.cxx
@@ -46,7 +46,10 @@ namespace vital {
 template < typename T >
 similarity_< T >
 ::similarity_( const Eigen::Matrix< T, 4, 4 >& M )
-  : m_logger( kwiver::vital::get_logger( "vital.similarity" ) )
+  : scale_( 1 ),
+    rot_(),
+    trans_( 0, 0, 0 ),
+    m_logger( kwiver::vital::get_logger( "vital.similarity" ) )
 {
   if ( ( M( 3, 0 ) != T( 0 ) )
        || ( M( 3, 1 ) != T( 0 ) )
@@ -59,8 +62,8 @@ similarity_< T >
     return;
   }
   Eigen::Matrix< T, 3, 3 > sr = M.template block< 3, 3 > ( 0, 0 );
-  this->scale_ = sr.determinant();
-  if ( this->scale_ <= T( 0 ) )
+  const T det = sr.determinant();
+  if ( ! ( det > T( 0 ) ) )
   {
     // similarity must have positive scale
     // TODO throw an exception
@@ -68,7 +71,7 @@ similarity_< T >
     return;
   }
   // take the cube root
-  this->scale_ = std::pow( this->scale_, static_cast< T > ( 1 / 3.0 ) );
+  this->scale_ = std::pow( det, static_cast< T > ( 1 / 3.0 ) );
   // factor scale out of sr
   sr /= this->scale_;
   this->rot_ = rotation_< T > ( sr );
-- 
2.43.0


From 28577e175d3706dd6e19d2020a1977074aac75f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 020/135] fix: document the element order of the rotation's
 4-vector constructor

---
 vital/types/rotation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/rotation.h b/vital/types/rotation.h
index 5dd903c..c4c7c2e 100644
--- a/vital/types/rotation.h
+++ b/vital/types/rotation.h
@@ -68,7 +68,7 @@ public:
   explicit rotation_< T > ( const rotation_< U > &other )
   : q_( static_cast< Eigen::Quaternion< T > > ( other.quaternion() ) ) { }
 
-  /// Constructor - from a 4D quaternion vector (w,i,j,k)
+  /// Constructor - from a 4D quaternion vector (i,j,k,w)
   explicit rotation_< T > ( const Eigen::Matrix< T, 4, 1 > &quaternion )
   : q_( quaternion ) { }
 
-- 
2.43.0


From 879cb78339cc4d165f4ecb86343e9226ce248d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 021/135] fix: lens distortion Jacobian puts the tangential y
 term on the y diagonal

---
 vital/types/camera_intrinsics.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/camera_intrinsics.cxx b/vital/types/camera_intrinsics.cxx
index b6b2c3e..5aef4db 100644
--- a/vital/types/camera_intrinsics.cxx
+++ b/vital/types/camera_intrinsics.cxx
@@ -223,7 +223,7 @@ distortion_jacobian( const Eigen::Matrix< T, 2, 1 >& pt,
     J( 0, 0 ) += ay + 3 * ax;
     J( 0, 1 ) += axy;
     J( 1, 0 ) += axy;
-    J( 0, 0 ) += 3 * ay + ax;
+    J( 1, 1 ) += 3 * ay + ax;
   }
   return J;
 }
-- 
2.43.0


From f75f0ada3ba12e22fc275232ff3e5f57f6aa8452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 022/135] fix: homography, essential and fundamental matrices
 convert between precisions

---
 vital/types/essential_matrix.h   | 4 ++--
 vital/types/fundamental_matrix.h | 2 +-
 vital/types/homography.h         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/types/essential_matrix.h b/vital/types/essential_matrix.h
index fd17723..4390a15 100644
--- a/vital/types/essential_matrix.h
+++ b/vital/types/essential_matrix.h
@@ -129,8 +129,8 @@ public:
   template <typename U>
   explicit
   essential_matrix_<T>( essential_matrix_<U> const &other )
-    : rot_( static_cast<rotation_<T> >(other.rot_) ),
-      trans_( other.trans_.template cast<T>() )
+    : rot_( static_cast<rotation_<T> >(other.get_rotation()) ),
+      trans_( other.get_translation().template cast<T>() )
   {
   }
 
diff --git a/vital/types/fundamental_matrix.h b/vital/types/fundamental_matrix.h
index 9b9d4b9..fb4bca7 100644
--- a/vital/types/fundamental_matrix.h
+++ b/vital/types/fundamental_matrix.h
@@ -111,7 +111,7 @@ public:
   template <typename U>
   explicit
   fundamental_matrix_<T>( fundamental_matrix_<U> const &other )
-    : mat_( other.mat_.template cast<T>() )
+    : mat_( other.matrix().template cast<T>() )
   {
   }
 
diff --git a/vital/types/homography.h b/vital/types/homography.h
index 76642cc..f331790 100644
--- a/vital/types/homography.h
+++ b/vital/types/homography.h
@@ -147,7 +147,7 @@ public:
   template < typename U >
   explicit
   homography_< T > ( homography_< U > const & other )
-  : h_( other.h_.template cast< T > () )
+  : h_( other.get_matrix().template cast< T > () )
   {
   }
 
-- 
2.43.0


From 29de181f73a41c5cf409dbf8da829d236bbc31a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 023/135] fix: assigning a frame homography copies it instead
 of sharing it

---
 vital/types/homography_f2f.cxx | 12 ++++++++++++
 vital/types/homography_f2f.h   |  3 +++
 vital/types/homography_f2w.cxx | 11 +++++++++++
 vital/types/homography_f2w.h   |  3 +++
 4 files changed, 29 insertions(+)

diff --git a/vital/types/homography_f2f.cxx b/vital/types/homography_f2f.cxx
index 0fa6456..37c3b6e 100644
--- a/vital/types/homography_f2f.cxx
+++ b/vital/types/homography_f2f.cxx
@@ -71,6 +71,18 @@ f2f_homography
 {
 }
 
+/// Assignment operator
+f2f_homography&
+f2f_homography
+::operator=( f2f_homography const &h )
+{
+  this->h_ = h.h_->clone();
+  this->from_id_ = h.from_id_;
+  this->to_id_ = h.to_id_;
+  return *this;
+}
+
+
 /// Get the homography transformation
 homography_sptr
 f2f_homography
diff --git a/vital/types/homography_f2f.h b/vital/types/homography_f2f.h
index 03d0e02..8d770ea 100644
--- a/vital/types/homography_f2f.h
+++ b/vital/types/homography_f2f.h
@@ -84,6 +84,9 @@ public:
   /// Copy constructor
   f2f_homography( f2f_homography const& h );
 
+  /// Assignment operator
+  f2f_homography& operator=( f2f_homography const& h );
+
   /// Destructor
   virtual ~f2f_homography() VITAL_DEFAULT_DTOR
 
diff --git a/vital/types/homography_f2w.cxx b/vital/types/homography_f2w.cxx
index 22eccc4..ca90a7f 100644
--- a/vital/types/homography_f2w.cxx
+++ b/vital/types/homography_f2w.cxx
@@ -63,6 +63,17 @@ f2w_homography
 {
 }
 
+/// Assignment operator
+f2w_homography&
+f2w_homography
+::operator=( f2w_homography const &h )
+{
+  this->h_ = h.h_->clone();
+  this->frame_id_ = h.frame_id_;
+  return *this;
+}
+
+
 /// Get the homography transformation
 homography_sptr
 f2w_homography
diff --git a/vital/types/homography_f2w.h b/vital/types/homography_f2w.h
index d8573b7..0153464 100644
--- a/vital/types/homography_f2w.h
+++ b/vital/types/homography_f2w.h
@@ -58,6 +58,9 @@ public:
   /// Copy Constructor
   f2w_homography( f2w_homography const &h );
 
+  /// Assignment operator
+  f2w_homography& operator=( f2w_homography const& h );
+
   virtual ~f2w_homography() VITAL_DEFAULT_DTOR
 
   /// Get the homography transformation
-- 
2.43.0


From b2c77daf5a145e0eeb0add3d31c26f0916a1b421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 024/135] fix: converting a covariance to another precision
 copies all its elements

---
 vital/types/covariance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/types/covariance.h b/vital/types/covariance.h
index 9c0b8e3..1dad0c4 100644
--- a/vital/types/covariance.h
+++ b/vital/types/covariance.h
@@ -68,7 +68,7 @@ public:
   {
     const U* in = other.data();
     T* out = this->data_;
-    for ( unsigned i = 0; i < N; ++i, ++in, ++out )
+    for ( unsigned i = 0; i < data_size; ++i, ++in, ++out )
     {
       *out = static_cast< T > ( *in );
     }
-- 
2.43.0


From 92517efae76263084d92d4a96e79bebdf1e3f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 025/135] fix: a default constructed covariance is the
 identity, not uninitialized memory

---
 vital/types/covariance.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/vital/types/covariance.h b/vital/types/covariance.h
index 1dad0c4..3a5e95f 100644
--- a/vital/types/covariance.h
+++ b/vital/types/covariance.h
@@ -53,8 +53,19 @@ public:
   /// Number of unique values in a NxN symmetric matrix
   static const unsigned int data_size = N * ( N + 1 ) / 2;
 
-  /// Default Constructor
-  covariance_< N, T > ( ) { }
+  /// Default Constructor - initialize to the identity matrix
+  covariance_< N, T > ( )
+  {
+    unsigned int n = 0;
+    for ( unsigned int j = 0; j < N; ++j )
+    {
+      for ( unsigned int i = 0; i < j; ++i )
+      {
+        data_[n++] = T( 0 );
+      }
+      data_[n++] = T( 1 );
+    }
+  }
 
   /// Copy constructor
   covariance_< N, T > ( const covariance_< N, T > &other )
-- 
2.43.0


From 8d5585c81c3da14f3d43e850443c3b8ceb113aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 026/135] fix: features and landmarks keep their covariance
 when made from the base class

---
 vital/types/feature.cxx  | 1 +
 vital/types/landmark.cxx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/vital/types/feature.cxx b/vital/types/feature.cxx
index 1a3361b..90d2ce9 100644
--- a/vital/types/feature.cxx
+++ b/vital/types/feature.cxx
@@ -88,6 +88,7 @@ feature_< T >
   magnitude_( static_cast< T > ( f.magnitude() ) ),
   scale_( static_cast< T > ( f.scale() ) ),
   angle_( static_cast< T > ( f.angle() ) ),
+  covar_( static_cast< covariance_< 2, T > > ( f.covar() ) ),
   color_( f.color() )
 {
 }
diff --git a/vital/types/landmark.cxx b/vital/types/landmark.cxx
index 79682e8..ceed494 100644
--- a/vital/types/landmark.cxx
+++ b/vital/types/landmark.cxx
@@ -86,6 +86,7 @@ landmark_< T >
   : loc_( lm.loc().cast< T > () ),
     scale_( static_cast< T > ( lm.scale() ) ),
     normal_( lm.normal().cast< T > () ),
+    covar_( static_cast< covariance_< 3, T > > ( lm.covar() ) ),
     color_( lm.color() ),
     observations_( lm.observations() )
 {
-- 
2.43.0


From e1c1107aa72033935f54b554c3da23511acb2ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 027/135] fix: copying a descriptor_dynamic copies its data
 instead of freeing it twice

---
 vital/types/descriptor.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/vital/types/descriptor.h b/vital/types/descriptor.h
index 928ddc2..2da0b0e 100644
--- a/vital/types/descriptor.h
+++ b/vital/types/descriptor.h
@@ -39,6 +39,7 @@
 #include <vital/vital_export.h>
 #include <vital/vital_config.h>
 
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <memory>
@@ -163,6 +164,29 @@ public:
   : data_( new T[len] ),
   length_( len ) { }
 
+  /// Copy Constructor
+  descriptor_dynamic< T > ( const descriptor_dynamic< T >& other )
+  : descriptor_array_of< T > ( other ),
+  data_( new T[other.length_] ),
+  length_( other.length_ )
+  {
+    std::copy( other.data_, other.data_ + other.length_, data_ );
+  }
+
+  /// Assignment operator
+  descriptor_dynamic< T >& operator=( const descriptor_dynamic< T >& other )
+  {
+    if ( this != &other )
+    {
+      T* data = new T[other.length_];
+      std::copy( other.data_, other.data_ + other.length_, data );
+      delete [] data_;
+      data_ = data;
+      length_ = other.length_;
+    }
+    return *this;
+  }
+
   /// Destructor
   virtual ~descriptor_dynamic< T > ( ) { delete [] data_; }
 
-- 
2.43.0


From 67966658be40075798752eb2f5224f8e1915272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 028/135] fix: cameras are written with the digits their values
 need

---
 vital/types/camera.cxx            | 9 +++++----
 vital/types/camera_intrinsics.cxx | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/vital/types/camera.cxx b/vital/types/camera.cxx
index 004b6e6..2f52948 100644
--- a/vital/types/camera.cxx
+++ b/vital/types/camera.cxx
@@ -39,6 +39,7 @@
 #include <Eigen/Geometry>
 
 #include <iomanip>
+#include <limits>
 
 namespace kwiver {
 namespace vital {
@@ -95,10 +96,10 @@ operator<<( std::ostream& s, const camera& c )
     d.resize( 1 );
     d[0] = 0.0;
   }
-  s << setprecision( 12 ) << c.intrinsics()->as_matrix() << "\n\n"
-    << setprecision( 12 ) << matrix_3x3d( c.rotation() ) << "\n\n"
-    << setprecision( 12 ) << c.translation().transpose() << "\n\n"
-    << setprecision( 12 ) << d.transpose() << "\n";
+  s << setprecision( std::numeric_limits< double >::max_digits10 ) << c.intrinsics()->as_matrix() << "\n\n"
+    << setprecision( std::numeric_limits< double >::max_digits10 ) << matrix_3x3d( c.rotation() ) << "\n\n"
+    << setprecision( std::numeric_limits< double >::max_digits10 ) << c.translation().transpose() << "\n\n"
+    << setprecision( std::numeric_limits< double >::max_digits10 ) << d.transpose() << "\n";
   return s;
 }
 
diff --git a/vital/types/camera_intrinsics.cxx b/vital/types/camera_intrinsics.cxx
index 5aef4db..a3f24c4 100644
--- a/vital/types/camera_intrinsics.cxx
+++ b/vital/types/camera_intrinsics.cxx
@@ -40,6 +40,7 @@
 #include <Eigen/Dense>
 
 #include <iomanip>
+#include <limits>
 
 namespace kwiver {
 namespace vital {
@@ -299,10 +300,10 @@ operator<<( std::ostream& s, const camera_intrinsics& k )
   {
     d.push_back(0.0);
   }
-  s << setprecision( 12 ) << k.as_matrix() << "\n\n";
+  s << setprecision( std::numeric_limits< double >::max_digits10 ) << k.as_matrix() << "\n\n";
   for(unsigned i=0; i<d.size(); ++i)
   {
-    s << setprecision( 12 ) << d[i] << " ";
+    s << setprecision( std::numeric_limits< double >::max_digits10 ) << d[i] << " ";
   }
   s << "\n";
 
-- 
2.43.0


From 23de7e73a7c81471c007b7ce6f935c69b62d5780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 029/135] fix: lens distortion coefficients are read back from
 camera streams

---
 vital/io/eigen_io.h | 50 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/vital/io/eigen_io.h b/vital/io/eigen_io.h
index b90296c..fbdecc8 100644
--- a/vital/io/eigen_io.h
+++ b/vital/io/eigen_io.h
@@ -38,6 +38,9 @@
 
 
 #include <iostream>
+#include <sstream>
+#include <string>
+#include <vector>
 #include <cstring>
 
 #include <Eigen/Core>
@@ -75,6 +78,53 @@ operator>>( std::istream& s, Matrix< T, M, N >& m )
   return s;
 }
 
+
+/// input stream operator for an Eigen column vector of dynamic size
+/**
+ * Reads the numbers on the next line that is not blank, however many there
+ * are.  The vector is empty when there is no such line.
+ *
+ * \throws vital::invalid_data
+ *    Throws an invalid data exception when that line holds anything but
+ *    numbers.
+ *
+ * \param s an input stream
+ * \param v a vector to stream into
+ */
+template < typename T >
+std::istream&
+operator>>( std::istream& s, Matrix< T, Dynamic, 1 >& v )
+{
+  std::vector< T > values;
+  std::string line;
+  while ( s.good() && line.find_first_not_of( " \t\r\n" ) == std::string::npos )
+  {
+    line.clear();
+    if ( ( s >> std::ws ).good() )
+    {
+      std::getline( s, line );
+    }
+  }
+  if ( s.eof() )
+  {
+    // the end of the data ends the line
+    s.clear( std::ios::eofbit );
+  }
+  std::istringstream numbers( line );
+  while ( ! ( numbers >> std::ws ).eof() )
+  {
+    T value;
+    if ( ! ( numbers >> value ) )
+    {
+      throw kwiver::vital::invalid_data( "Encountered a non-numeric value while "
+                                  "parsing an Eigen::Matrix" );
+    }
+    values.push_back( value );
+  }
+  v = Matrix< T, Dynamic, 1 >::Map( values.data(), values.size() );
+  return s;
+}
+
 } // end namespace Eigen
 
 #endif // VITAL_EIGEN_IO_H_
-- 
2.43.0


From e300c04e5a7cc0e911cea43048c1d3547da615a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 030/135] fix: reading an invalid KRTD file does not leak the
 camera

---
 vital/io/camera_io.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/io/camera_io.cxx b/vital/io/camera_io.cxx
index bfbb322..b98b24b 100644
--- a/vital/io/camera_io.cxx
+++ b/vital/io/camera_io.cxx
@@ -70,9 +70,9 @@ read_krtd_file( path_t const& file_path )
   }
 
   // Read the file
-  simple_camera* cam = new simple_camera();
+  std::shared_ptr< simple_camera > cam = std::make_shared< simple_camera >();
   input_stream >> *cam;
-  return camera_sptr(cam);
+  return cam;
 }
 
 
-- 
2.43.0


From 19ae108f62be4f40f9ee4573c65ebe8207be6413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 031/135] fix: failures to write camera, landmark and track
 files are reported

---
 vital/io/camera_io.cxx       | 8 ++++++++
 vital/io/landmark_map_io.cxx | 8 ++++++++
 vital/io/track_set_io.cxx    | 8 ++++++++
 3 files changed, 24 insertions(+)

diff --git a/vital/io/camera_io.cxx b/vital/io/camera_io.cxx
index b98b24b..b024d59 100644
--- a/vital/io/camera_io.cxx
+++ b/vital/io/camera_io.cxx
@@ -117,8 +117,16 @@ write_krtd_file( camera const&  cam,
 
   // open output file and write the ins_data
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
   ofile << cam;
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not write the complete file." );
+  }
 }
 
 
diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 4f8501e..3597f40 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -85,6 +85,10 @@ write_ply_file( landmark_map_sptr const&  landmarks,
 
   // open output file and write the tracks
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
   // write the PLY header
   ofile << "ply\n"
            "format ascii 1.0\n"
@@ -119,6 +123,10 @@ write_ply_file( landmark_map_sptr const&  landmarks,
           << " " << p.first << " " << p.second->observations() << "\n";
   }
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not write the complete file." );
+  }
 } // write_ply_file
 
 
diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 672bbc9..889b45d 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -141,6 +141,10 @@ write_track_file( track_set_sptr const& tracks,
 
   // open output file and write the tracks
   std::ofstream ofile( file_path.c_str() );
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not open file for writing." );
+  }
   std::vector< vital::track_sptr > trks = tracks->tracks();
   VITAL_FOREACH( vital::track_sptr t, trks )
   {
@@ -150,6 +154,10 @@ write_track_file( track_set_sptr const& tracks,
     }
   }
   ofile.close();
+  if ( ! ofile )
+  {
+    throw file_write_exception( file_path, "Could not write the complete file." );
+  }
 } // write_track_file
 
 } } // end namespace
-- 
2.43.0


From 73a987fa4c1e3be0d10956fd4092a6ff652c6fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 032/135] fix: landmarks and tracks are written with the digits
 their values need

---
 vital/io/landmark_map_io.cxx | 2 ++
 vital/io/track_set_io.cxx    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 3597f40..735126d 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -44,6 +44,7 @@
 #include <algorithm>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <iterator>
 #include <sstream>
 
@@ -89,6 +90,7 @@ write_ply_file( landmark_map_sptr const&  landmarks,
   {
     throw file_write_exception( file_path, "Could not open file for writing." );
   }
+  ofile.precision( std::numeric_limits< double >::max_digits10 );
   // write the PLY header
   ofile << "ply\n"
            "format ascii 1.0\n"
diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 889b45d..0615b06 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -39,6 +39,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <vector>
 #include <map>
@@ -145,6 +146,7 @@ write_track_file( track_set_sptr const& tracks,
   {
     throw file_write_exception( file_path, "Could not open file for writing." );
   }
+  ofile.precision( std::numeric_limits< double >::max_digits10 );
   std::vector< vital::track_sptr > trks = tracks->tracks();
   VITAL_FOREACH( vital::track_sptr t, trks )
   {
-- 
2.43.0


From 2a47daccf6235facfc9349545acb4286d6f33dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 033/135] fix: malformed PLY files are refused instead of read
 as zeros or as extra points

---
 vital/io/landmark_map_io.cxx | 96 +++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 28 deletions(-)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 735126d..185dbbb 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -155,6 +155,33 @@ get_tokens(std::string const& line)
   return tokens;
 }
 
+/// Convert a whole token to a number, and say whether that was possible
+template < typename T >
+bool
+get_number( std::string const& token, T& value )
+{
+  if ( ! std::numeric_limits< T >::is_signed && token[0] == '-' )
+  {
+    return false;
+  }
+  std::istringstream iss( token );
+  return ( iss >> value ) && iss.peek() == std::istringstream::traits_type::eof();
+}
+
+/// Convert a whole token to a color component, and say whether that was possible
+bool
+get_color( std::string const& token, unsigned char& component )
+{
+  unsigned int value;
+  if ( ! get_number( token, value ) ||
+       value > std::numeric_limits< unsigned char >::max() )
+  {
+    return false;
+  }
+  component = static_cast< unsigned char >( value );
+  return true;
+}
+
 } // end anonymous namespace
 
 
@@ -166,6 +193,11 @@ read_ply_file( path_t const& file_path )
   {
     throw file_not_found_exception( file_path, "Cannot find file." );
   }
+  else if ( kwiversys::SystemTools::FileIsDirectory( file_path ) )
+  {
+    throw file_not_found_exception( file_path,
+         "Path given doesn't point to a regular file!" );
+  }
 
   landmark_map::map_landmark_t landmarks;
 
@@ -207,7 +239,8 @@ read_ply_file( path_t const& file_path )
   std::string line;
 
   unsigned int num_verts = 0, vert_count = 0;
-  while ( std::getline( ifile, line ) )
+  while ( ! ( parsed_header && vert_count >= num_verts ) &&
+          std::getline( ifile, line ) )
   {
     std::vector<std::string> tokens = get_tokens(line);
     if ( line.empty() || tokens.empty() )
@@ -216,7 +249,7 @@ read_ply_file( path_t const& file_path )
     }
     if ( ! parsed_header )
     {
-      if ( line == "end_header" )
+      if ( tokens.size() == 1 && tokens[0] == "end_header" )
       {
         parsed_header = true;
         // TODO check that provided properties are meaningful
@@ -228,8 +261,11 @@ read_ply_file( path_t const& file_path )
            tokens[0] == "element" &&
            tokens[1] == "vertex" )
       {
-        std::istringstream iss(tokens[2]);
-        iss >> num_verts;
+        if ( ! get_number( tokens[2], num_verts ) )
+        {
+          throw file_not_read_exception( file_path,
+                "Invalid number of vertices: " + tokens[2] );
+        }
         parsing_vertex_props = true;
       }
       else if ( tokens[0] == "element" )
@@ -257,58 +293,62 @@ read_ply_file( path_t const& file_path )
       continue;
     }
 
-    // TODO throw exceptions if tokens.size() != vert_props.size()
-    // or if the values do not parse as expected
+    if ( tokens.size() != vert_props.size() )
+    {
+      throw file_not_read_exception( file_path,
+            "Expected one value per vertex property: " + line );
+    }
     double x=0, y=0, z=0;
     double nx=0, ny=0, nz=0;
     rgb_color color;
-    int cvalue;
     landmark_id_t id = static_cast<landmark_id_t>(vert_count++);
     unsigned observations = 0;
-    for( unsigned int i=0; i<tokens.size() && i < vert_props.size(); ++i )
+    for( unsigned int i=0; i < tokens.size(); ++i )
     {
-      std::istringstream iss(tokens[i]);
+      bool valid = true;
       switch( vert_props[i] )
       {
         case VX:
-          iss >> x;
+          valid = get_number( tokens[i], x );
           break;
         case VY:
-          iss >> y;
+          valid = get_number( tokens[i], y );
           break;
         case VZ:
-          iss >> z;
+          valid = get_number( tokens[i], z );
           break;
         case NX:
-          iss >> nx;
+          valid = get_number( tokens[i], nx );
           break;
         case NY:
-          iss >> ny;
+          valid = get_number( tokens[i], ny );
           break;
         case NZ:
-          iss >> nz;
+          valid = get_number( tokens[i], nz );
           break;
         case CR:
-          iss >> cvalue;
-          color.r = static_cast<unsigned char>(cvalue);
+          valid = get_color( tokens[i], color.r );
           break;
         case CG:
-          iss >> cvalue;
-          color.g = static_cast<unsigned char>(cvalue);
+          valid = get_color( tokens[i], color.g );
           break;
         case CB:
-          iss >> cvalue;
-          color.b = static_cast<unsigned char>(cvalue);
+          valid = get_color( tokens[i], color.b );
           break;
         case INDEX:
-          iss >> id;
+          valid = get_number( tokens[i], id );
           break;
         case OBSERVATIONS:
-          iss >> observations;
+          valid = get_number( tokens[i], observations );
           break;
         default:
           break;
       }
+      if ( ! valid )
+      {
+        throw file_not_read_exception( file_path,
+              "Invalid value of a vertex property: " + tokens[i] );
+      }
     }
 
     std::shared_ptr<landmark_d> lm =
@@ -317,12 +357,12 @@ read_ply_file( path_t const& file_path )
     lm->set_color( color );
     lm->set_observations( observations );
     landmarks[id] = lm;
+  }
 
-    // exit if we have read the expected number of points
-    if ( vert_count > num_verts )
-    {
-      break;
-    }
+  if ( ! parsed_header || vert_count < num_verts )
+  {
+    throw file_not_read_exception( file_path,
+          "The file ends before its header or its vertices do." );
   }
 
   ifile.close();
-- 
2.43.0


From 9d0e80b36ac76f62c10f05c6d9224f8b7c95bc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 034/135] fix: color components that do not fit are refused
 instead of wrapped

---
 vital/types/color.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vital/types/color.h b/vital/types/color.h
index 0359c11..fa6e227 100644
--- a/vital/types/color.h
+++ b/vital/types/color.h
@@ -98,6 +98,11 @@ operator>>( std::istream& s, rgb_color& c )
 {
   int rv = 255, gv = 255, bv = 255;
   s >> rv >> gv >> bv;
+  if ( rv < 0 || rv > 255 || gv < 0 || gv > 255 || bv < 0 || bv > 255 )
+  {
+    s.setstate( std::ios::failbit );
+    return s;
+  }
   c.r = static_cast<unsigned char>( rv );
   c.g = static_cast<unsigned char>( gv );
   c.b = static_cast<unsigned char>( bv );
-- 
2.43.0


From 125ea6e111a9d27a444768f319290e0c34f8e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 035/135] fix: reading features and landmarks from a short
 stream gives uninitialized values

---
 vital/types/feature.cxx  | 6 +++---
 vital/types/landmark.cxx | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/vital/types/feature.cxx b/vital/types/feature.cxx
index 90d2ce9..f2be9e4 100644
--- a/vital/types/feature.cxx
+++ b/vital/types/feature.cxx
@@ -116,9 +116,9 @@ operator>>( std::istream& s, feature_< T >& f )
 {
   // TODO include covariance once stream operators are defined
   Eigen::Matrix< T, 2, 1 > loc;
-  T magnitude;
-  T scale;
-  T angle;
+  T magnitude = T( 0 );
+  T scale = T( 1 );
+  T angle = T( 0 );
   rgb_color color;
 
   s >> loc
diff --git a/vital/types/landmark.cxx b/vital/types/landmark.cxx
index ceed494..66a6dc4 100644
--- a/vital/types/landmark.cxx
+++ b/vital/types/landmark.cxx
@@ -116,9 +116,9 @@ operator>>( std::istream& s, landmark_< T >& m )
   // TODO include covariance once stream operators are defined
   Eigen::Matrix< T, 3, 1 > loc;
   Eigen::Matrix< T, 3, 1 > normal;
-  T scale;
+  T scale = T( 1 );
   rgb_color color;
-  unsigned int observations;
+  unsigned int observations = 0;
 
   s >> loc
     >> scale
-- 
2.43.0


From 8510b4cc9a8ff8ef7f6920c4f14b73c723293483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 036/135] fix: malformed track files are refused instead of
 read as arbitrary values

---
 vital/io/track_set_io.cxx | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 0615b06..e0b76ec 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -45,6 +45,7 @@
 #include <map>
 
 #include <vital/exceptions.h>
+#include <vital/io/eigen_io.h>
 #include <vital/vital_foreach.h>
 #include <kwiversys/SystemTools.hxx>
 
@@ -80,11 +81,29 @@ read_track_file( path_t const& file_path )
   std::map< track_id_t, track_sptr > track_map;
   for ( std::string line; std::getline( input_stream, line ); )
   {
+    std::stringstream ss( line );
+    if ( ( ss >> std::ws ).eof() )
+    {
+      continue;
+    }
+
     track_id_t tid;
     frame_id_t fid;
-    feature_d feat;
-    std::stringstream ss( line );
-    ss >> tid >> fid >> feat;
+    vector_2d loc;
+    double magnitude, scale, angle;
+    rgb_color color;
+    if ( ! ( ss >> tid >> fid && ss >> loc >> magnitude >> scale >> angle ) )
+    {
+      throw file_not_read_exception( file_path,
+            "Not a track identifier, a frame and a feature: " + line );
+    }
+    // older files have no color
+    if ( ! ( ss >> std::ws ).eof() && ! ( ss >> color ) )
+    {
+      throw file_not_read_exception( file_path,
+            "Not a color after the feature: " + line );
+    }
+    feature_d feat( loc, magnitude, scale, angle, color );
 
     track_sptr t;
     std::map< track_id_t, track_sptr >::const_iterator it = track_map.find( tid );
@@ -99,8 +118,12 @@ read_track_file( path_t const& file_path )
     {
       t = it->second;
     }
-    t->append( track::track_state( fid, feature_sptr( new feature_d( feat ) ),
-                                   descriptor_sptr() ) );
+    if ( ! t->append( track::track_state( fid, feature_sptr( new feature_d( feat ) ),
+                                          descriptor_sptr() ) ) )
+    {
+      throw file_not_read_exception( file_path,
+            "The frames of a track are not in increasing order: " + line );
+    }
   }
 
   return track_set_sptr( new simple_track_set( tracks ) );
-- 
2.43.0


From d0e1e6abd4705660329b6d57e24cbdcb09309abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 037/135] fix: writing tracks with a state without feature
 crashes

---
 vital/io/track_set_io.cxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index e0b76ec..7850795 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -142,6 +142,20 @@ write_track_file( track_set_sptr const& tracks,
           "No tracks in the given track_set!" );
   }
 
+  // The format has no way to say that a state has no feature
+  std::vector< vital::track_sptr > trks = tracks->tracks();
+  VITAL_FOREACH( vital::track_sptr const& t, trks )
+  {
+    VITAL_FOREACH( vital::track::track_state const& s, *t )
+    {
+      if ( ! s.feat )
+      {
+        throw file_write_exception( file_path,
+              "A track has a state without a feature." );
+      }
+    }
+  }
+
   // If the given path is a directory, we obviously can't write to it.
   if ( kwiversys::SystemTools::FileIsDirectory( file_path ) )
   {
@@ -170,7 +184,6 @@ write_track_file( track_set_sptr const& tracks,
     throw file_write_exception( file_path, "Could not open file for writing." );
   }
   ofile.precision( std::numeric_limits< double >::max_digits10 );
-  std::vector< vital::track_sptr > trks = tracks->tracks();
   VITAL_FOREACH( vital::track_sptr t, trks )
   {
     VITAL_FOREACH( vital::track::track_state const& s, *t )
-- 
2.43.0


From 4891e83f47e4e15e3d118962b9404d1cc88cd9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 038/135] fix: a plugin that fails to register is unloaded
 while its implementations are registered

---
 vital/algorithm_plugin_manager.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 41b7d30..4c6968f 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -241,13 +241,14 @@ public:
     register_impls_func_t const register_impls =
       reinterpret_cast< register_impls_func_t > ( register_func );
 
-    if ( ( *register_impls )( registrar::instance() ) > 0 )
+    // A negative result comes from a registration that ended in an exception.
+    if ( ( *register_impls )( registrar::instance() ) != 0 )
     {
       LOG_WARN( m_logger, "Algorithm implementation registration failed for one or "
                 "more algorithms in plugin module, possibly due to duplicate "
                 "registration: " << module_path );
       // TODO: Throw exception here?
-      DL::CloseLibrary( library );
+      // The library stays open, what it did register refers to its code.
       return false;
     }
     else
-- 
2.43.0


From 22433f1920dbf707a2ef7fb96b1396341289f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 039/135] fix: plugins with a dot in their name are not found
 by it

---
 vital/algorithm_plugin_manager.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 4c6968f..349341e 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -174,7 +174,7 @@ public:
       // suffix and matches a provided module name if one was provided.
 
       if ( ( ST::GetFilenameLastExtension( file ) == shared_library_suffix ) &&
-           ( ( name.size() == 0 ) || ( ST::GetFilenameWithoutExtension( file ) == name ) ) )
+           ( ( name.size() == 0 ) || ( ST::GetFilenameWithoutLastExtension( file ) == name ) ) )
       {
         // Check that we're looking a file
         if ( ! ST::FileIsDirectory( file ) )
-- 
2.43.0


From 7d410e32552ccc17106159e008bb6667dc133d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 040/135] fix: C bindings write the terminator of messages and
 names past their buffers

---
 vital/bindings/c/helpers/c_utils.cxx | 2 +-
 vital/bindings/c/helpers/c_utils.h   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/bindings/c/helpers/c_utils.cxx b/vital/bindings/c/helpers/c_utils.cxx
index f21dff0..6876968 100644
--- a/vital/bindings/c/helpers/c_utils.cxx
+++ b/vital/bindings/c/helpers/c_utils.cxx
@@ -46,7 +46,7 @@ void make_string_list( std::vector<std::string> const &list,
   strings = (char**)malloc( sizeof(char*) * length );
   for( unsigned int i = 0; i < length; i++ )
   {
-    strings[i] = (char*)malloc(sizeof(char) * list[i].length());
+    strings[i] = (char*)malloc(sizeof(char) * (list[i].length() + 1));
     std::strcpy( strings[i], list[i].c_str() );
   }
 }
diff --git a/vital/bindings/c/helpers/c_utils.h b/vital/bindings/c/helpers/c_utils.h
index 16ec7ae..3517d85 100644
--- a/vital/bindings/c/helpers/c_utils.h
+++ b/vital/bindings/c/helpers/c_utils.h
@@ -59,8 +59,7 @@ static auto m_logger( kwiver::vital::get_logger( "vital.c_utils" ) );
  * Only does anything if error handle pointer is non-NULL.
  * \p msg should be a C string (char const*)
  *
- * \todo Verify memory management of message string. Memory can leak
- * if an error handle is used twice.
+ * A message left in the error handle by an earlier call is freed.
  */
 #define POPULATE_EH(eh_ptr, ec, msg)                                         \
   do                                                                         \
@@ -70,7 +69,8 @@ static auto m_logger( kwiver::vital::get_logger( "vital.c_utils" ) );
       vital_error_handle_t *PEH_eh_ptr_cast =                                \
         reinterpret_cast<vital_error_handle_t*>(eh_ptr);                     \
       PEH_eh_ptr_cast->error_code = ec;                                      \
-      PEH_eh_ptr_cast->message = (char*)malloc(sizeof(char) * strlen(msg));  \
+      free(PEH_eh_ptr_cast->message);                                        \
+      PEH_eh_ptr_cast->message = (char*)malloc(strlen(msg) + 1);             \
       strcpy(PEH_eh_ptr_cast->message, msg);                                 \
     }                                                                        \
   } while(0)
-- 
2.43.0


From 64dbe3213b38f74d35fd8204b99507a663c3a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 041/135] fix: reading or writing a configuration file through
 C crashes on failure without error handle

---
 vital/bindings/c/config_block.cxx | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/vital/bindings/c/config_block.cxx b/vital/bindings/c/config_block.cxx
index 6437c1a..79f2ef8 100644
--- a/vital/bindings/c/config_block.cxx
+++ b/vital/bindings/c/config_block.cxx
@@ -404,21 +404,15 @@ read_config_file_helper( vital_error_handle_t* eh, Args... args )
   }
   catch ( kwiver::vital::config_file_not_found_exception const& e )
   {
-    eh->error_code = 1;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 1, e.what() );
   }
   catch ( kwiver::vital::config_file_not_read_exception const& e )
   {
-    eh->error_code = 2;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 2, e.what() );
   }
   catch ( kwiver::vital::config_file_not_parsed_exception const& e )
   {
-    eh->error_code = 3;
-    eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-    strcpy( eh->message, e.what() );
+    POPULATE_EH( eh, 3, e.what() );
   }
 
   return 0;
@@ -478,9 +472,7 @@ vital_config_block_file_write( vital_config_block_t*  cb,
     }
     catch ( kwiver::vital::config_file_write_exception const& e )
     {
-      eh->error_code = 1;
-      eh->message = (char*)malloc( sizeof( char ) * strlen( e.what() ) );
-      strcpy( eh->message, e.what() );
+      POPULATE_EH( eh, 1, e.what() );
     }
 
                 );
-- 
2.43.0


From a2635fed1a76cfc55bbd310d5c8608a21e0bc251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 042/135] fix: the C check of an implementation's configuration
 always answers false

---
 vital/bindings/c/algorithm.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 81f399e..5f73fac 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -122,7 +122,7 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
 {
   STANDARD_CATCH(
     "C::algorithm::check_impl_configuration", eh,
-    kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
+    return kwiver::vital_c::ALGORITHM_SPTR_CACHE.get( algo )->check_configuration(
       kwiver::vital_c::CONFIG_BLOCK_SPTR_CACHE.get( cb )
     );
   );
-- 
2.43.0


From af82d3d65cb439d74ec81e18f51ffb525c42c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 043/135] fix: creating an image from data through C lets
 exceptions escape

---
 vital/bindings/c/image.cxx | 44 +++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/vital/bindings/c/image.cxx b/vital/bindings/c/image.cxx
index dce4c51..3765c93 100644
--- a/vital/bindings/c/image.cxx
+++ b/vital/bindings/c/image.cxx
@@ -71,31 +71,35 @@ vital_image_t* vital_image_new_from_data( unsigned char const *first_pixel,
                                           size_t width, size_t height, size_t depth,
                                           int32_t w_step, int32_t h_step, int32_t d_step )
 {
-  kwiver::vital::image* new_image = new kwiver::vital::image( width, height, depth );
-  for ( unsigned int d = 0; d < depth; ++d )
-  {
-    // This is a little crazy, but it is used to convert BGR to RGB
-    int d_idx(0);
-    if (d_step >= 0)
-    {
-      d_idx = d * d_step;
-    }
-    else
+  STANDARD_CATCH(
+    "C::image:new_from_data", 0,
+    kwiver::vital::image* new_image = new kwiver::vital::image( width, height, depth );
+    for ( unsigned int d = 0; d < depth; ++d )
     {
-      d_idx = static_cast< int >( (depth - d - 1) * (-d_step) );
-    }
+      // This is a little crazy, but it is used to convert BGR to RGB
+      int d_idx(0);
+      if (d_step >= 0)
+      {
+        d_idx = d * d_step;
+      }
+      else
+      {
+        d_idx = static_cast< int >( (depth - d - 1) * (-d_step) );
+      }
 
-    for ( unsigned int h = 0; h < height; ++h )
-    {
-      int h_idx = h * h_step;
-      for ( unsigned int w = 0; w < width; ++w )
+      for ( unsigned int h = 0; h < height; ++h )
       {
-        int w_idx = w * w_step;
-        (*new_image)( w, h, d ) = first_pixel[ w_idx + h_idx + d_idx ];
+        int h_idx = h * h_step;
+        for ( unsigned int w = 0; w < width; ++w )
+        {
+          int w_idx = w * w_step;
+          (*new_image)( w, h, d ) = first_pixel[ w_idx + h_idx + d_idx ];
+        }
       }
     }
-  }
-  return reinterpret_cast<vital_image_t*>( new_image );
+    return reinterpret_cast<vital_image_t*>( new_image );
+  );
+  return 0;
 }
 
 
-- 
2.43.0


From 325fb5928fc73f09255dd3796533969990178754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 044/135] fix: strings returned through C lose what follows a
 null character

---
 vital/bindings/c/common.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/c/common.cxx b/vital/bindings/c/common.cxx
index 66bd416..70313f3 100644
--- a/vital/bindings/c/common.cxx
+++ b/vital/bindings/c/common.cxx
@@ -52,7 +52,7 @@ vital_string_t* vital_string_new(size_t length, char const* s)
 
   if( length && s )
   {
-    strncpy( n->str, s, length );
+    memcpy( n->str, s, length );
   }
   return n;
 }
-- 
2.43.0


From e2c555b883fde9db65ad9523d4d20164c7db3e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 045/135] fix: functions of the C algorithm and camera map
 interfaces are missing from the library

Their definitions were inside namespace kwiver, so the symbols declared in
the headers did not exist.
---
 vital/bindings/c/algorithm.cxx  | 4 ++--
 vital/bindings/c/camera_map.cxx | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/vital/bindings/c/algorithm.cxx b/vital/bindings/c/algorithm.cxx
index 5f73fac..c8e15eb 100644
--- a/vital/bindings/c/algorithm.cxx
+++ b/vital/bindings/c/algorithm.cxx
@@ -52,7 +52,7 @@ namespace vital_c {
 SharedPointerCache< kwiver::vital::algorithm,
                     vital_algorithm_t > ALGORITHM_SPTR_CACHE( "algorithm" );
 
-}
+} }
 
 
 // ===========================================================================
@@ -128,4 +128,4 @@ vital_algorithm_check_impl_configuration( vital_algorithm_t *algo,
   );
   return false;
 
-} } // end namespace
+}
diff --git a/vital/bindings/c/camera_map.cxx b/vital/bindings/c/camera_map.cxx
index 2d3c432..c6c64fe 100644
--- a/vital/bindings/c/camera_map.cxx
+++ b/vital/bindings/c/camera_map.cxx
@@ -49,7 +49,9 @@ namespace vital_c {
 SharedPointerCache< vital::camera_map,
                     vital_camera_map_t > CAM_MAP_SPTR_CACHE( "camera_map" );
 
-}
+} }
+
+using namespace kwiver;
 
 
 /// New, simple camera map
@@ -126,4 +128,4 @@ void vital_camera_map_get_map( vital_camera_map_t *cam_map,
     }
   );
 
-} }
+}
-- 
2.43.0


From f7934940305e1cede7d51f43041d0fdd243998f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 046/135] fix: data races in getting loggers and setting their
 level

The loggers in use were looked up and added without a lock, the manager
was looked at before taking its lock, and the level could be set while
other threads read it.
---
 vital/logger/default_logger.cxx        | 5 ++++-
 vital/logger/default_logger.h          | 2 ++
 vital/logger/kwiver_logger_manager.cxx | 5 -----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index 44910df..5521b33 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -33,6 +33,7 @@
 #include "default_logger.h"
 #include "kwiver_logger.h"
 
+#include <atomic>
 #include <memory>
 #include <mutex>
 #include <chrono>
@@ -240,7 +241,7 @@ private:
 
 
   // ##################################################################
-  log_level_t                  m_logLevel;       // current logging level
+  std::atomic< log_level_t >   m_logLevel;       // current logging level
 
   std::mutex                   m_formatter_mtx;
 
@@ -259,6 +260,8 @@ logger_handle_t
 logger_factory_default
 ::get_logger( std::string const& name )
 {
+  std::lock_guard< std::mutex > guard( m_mutex );
+
   // look for logger in the map
   std::map< std::string, logger_handle_t >::iterator it = m_active_loggers.find( name );
   if (it != m_active_loggers.end() )
diff --git a/vital/logger/default_logger.h b/vital/logger/default_logger.h
index e81315e..aecc0a3 100644
--- a/vital/logger/default_logger.h
+++ b/vital/logger/default_logger.h
@@ -35,6 +35,7 @@
 #include "kwiver_logger_factory.h"
 
 #include <map>
+#include <mutex>
 #include <string>
 
 namespace kwiver {
@@ -71,6 +72,7 @@ public:
   virtual logger_handle_t get_logger( std::string const& name );
 
 private:
+  std::mutex m_mutex; ///< synchronizes access to the active loggers
   std::map< std::string, logger_handle_t > m_active_loggers;
 
 }; // end class logger_factory
diff --git a/vital/logger/kwiver_logger_manager.cxx b/vital/logger/kwiver_logger_manager.cxx
index 4830c47..9b211b5 100644
--- a/vital/logger/kwiver_logger_manager.cxx
+++ b/vital/logger/kwiver_logger_manager.cxx
@@ -162,11 +162,6 @@ kwiver_logger_manager * kwiver_logger_manager
 {
   static std::mutex local_lock;          // synchronization lock
 
-  if (0 != s_instance)
-  {
-    return s_instance;
-  }
-
   std::lock_guard<std::mutex> lock(local_lock);
   if (0 == s_instance)
   {
-- 
2.43.0


From e8843ab768eeeba24ef12d5152a04b67398a8536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 047/135] fix: log messages carry a wrong time

Milliseconds were written without leading zeros, the seconds came from
another reading of the clock than the milliseconds, and the broken down
time was shared by all threads.
---
 vital/logger/default_logger.cxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index 5521b33..915c265 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -37,6 +37,7 @@
 #include <memory>
 #include <mutex>
 #include <chrono>
+#include <ctime>
 #include <iomanip>
 #include <iostream>
 #include <string.h>
@@ -190,12 +191,13 @@ private:
 
     // Get the current time in milliseconds, creating a formatted
     // string for log message.
-    high_resolution_clock::time_point p = high_resolution_clock::now();
+    system_clock::time_point p = system_clock::now();
 
     milliseconds ms = duration_cast<milliseconds>(p.time_since_epoch());
 
     seconds s = duration_cast<seconds>(ms);
     std::time_t t = s.count();
+    std::tm local_time;
     std::size_t fractional_seconds = ms.count() % 1000;
 
     // Ensure that multi-line messages still get the time and level prefix
@@ -204,8 +206,12 @@ private:
     std::istringstream ss( msg );
 
     char buf[1024];
-    time(&t);
-    strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", localtime(&t));
+#if defined(_WIN32)
+    localtime_s( &local_time, &t );
+#else
+    localtime_r( &t, &local_time );
+#endif
+    strftime(buf, sizeof(buf), "%Y-%m-%d %H:%M:%S", &local_time);
 
     {
       std::lock_guard< std::mutex > guard( lock ); // serialize access to stream
@@ -213,7 +219,7 @@ private:
       while ( getline( ss, msg_part ) )
       {
         *str << buf
-             << '.' << fractional_seconds
+             << '.' << std::setw( 3 ) << std::setfill( '0' ) << fractional_seconds
              << ' ' << level_str << ' ' << location << msg_part << '\n';
       }
     }
-- 
2.43.0


From 09cd422d24911a8685c3d1313022558dfd7f1e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 048/135] fix: log_message() ignores the level of the logger

It is documented to check, as the functions of the single levels do.
---
 vital/logger/default_logger.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index 915c265..bee3210 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -174,6 +174,8 @@ private:
   virtual void log_message( log_level_t         level,
                             std::string const&  msg )
   {
+    if ( m_logLevel > level ) { return; }
+
     log_message_i( level, msg, "" );
   }
 
@@ -231,6 +233,8 @@ private:
                             std::string const&              msg,
                             logger_ns::location_info const& location )
   {
+    if ( m_logLevel > level ) { return; }
+
     // format location
     std::stringstream loc;
     loc << location.get_file_name() << "(" << location.get_line_number() << "): ";
-- 
2.43.0


From 9dbc873ad4823883d08719844f4abf5b43ecb045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:44 +0000
Subject: [PATCH 049/135] fix: LOG_ASSERT does not compile and the documented
 LOG_FATAL does not exist

---
 vital/logger/logger.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/vital/logger/logger.h b/vital/logger/logger.h
index 7eaf82d..a6c65ef 100644
--- a/vital/logger/logger.h
+++ b/vital/logger/logger.h
@@ -171,6 +171,18 @@ logger_handle_t VITAL_LOGGER_EXPORT get_logger( const char * const name );
 logger_handle_t VITAL_LOGGER_EXPORT get_logger( std::string const& name );
 //@}
 
+/**
+ * Logs a message with the FATAL level.
+ * @param logger the logger to be used
+ * @param msg the message string to log.
+ */
+#define LOG_FATAL( logger, msg ) do {                        \
+    if ( logger->is_fatal_enabled() ) {                      \
+      std::stringstream _oss_; _oss_ << msg;                 \
+      logger->log_fatal( _oss_.str(), KWIVER_LOGGER_SITE ); } \
+} while ( 0 )
+
+
 /**
  * Logs a message with the ERROR level.
  * @param logger the logger to be used
@@ -232,7 +244,7 @@ logger_handle_t VITAL_LOGGER_EXPORT get_logger( std::string const& name );
 
 /**
  * Performs assert and logs message if condition is false.  If
- * condition is false, log a message at the FATAL level is
+ * condition is false, log a message at the ERROR level is
  * generated. This is similar to the library assert except that the
  * message goes to the logger.
  * @param logger the logger to be used
@@ -243,7 +255,7 @@ logger_handle_t VITAL_LOGGER_EXPORT get_logger( std::string const& name );
     if ( ! ( cond ) ) {                                        \
       std::stringstream _oss_; _oss_  << "ASSERTION FAILED: (" \
                                       << # cond ")\n"  << msg; \
-      logger->log_error( _oss_.str(), KWIVER_LOGGER_SITE );     \
+      logger->log_error( _oss_.str(), KWIVER_LOGGER_SITE ); }   \
 } while ( 0 )
 
 
-- 
2.43.0


From c8f9ce2ab0b4a86ec3b31666bb58a36aadda1de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 050/135] fix: data races in the first use of the algorithm
 plugin manager

instance() and load_plugins_once() looked at what they guard without
holding the lock.
---
 vital/algorithm_plugin_manager.cxx | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/vital/algorithm_plugin_manager.cxx b/vital/algorithm_plugin_manager.cxx
index 349341e..936c79b 100644
--- a/vital/algorithm_plugin_manager.cxx
+++ b/vital/algorithm_plugin_manager.cxx
@@ -322,11 +322,6 @@ algorithm_plugin_manager
 {
   static std::mutex local_lock;          // synchronization lock
 
-  if (0 != s_instance)
-  {
-    return *s_instance;
-  }
-
   std::lock_guard<std::mutex> lock(local_lock);
   if (0 == s_instance)
   {
@@ -346,11 +341,6 @@ algorithm_plugin_manager
    static bool first( true );
    static std::mutex local_lock;          // synchronization lock
 
-   if ( ! first )
-   {
-     return false;
-   }
-
    std::lock_guard<std::mutex> lock(local_lock);
    if ( first )
    {
-- 
2.43.0


From b2281991fc468c7281cc88744806368ee6684ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 051/135] fix: printing timestamps from several threads mixes
 up their times

ctime() returns a buffer shared by all threads.
---
 vital/types/timestamp.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vital/types/timestamp.cxx b/vital/types/timestamp.cxx
index 7c8c8de..6ab50f1 100644
--- a/vital/types/timestamp.cxx
+++ b/vital/types/timestamp.cxx
@@ -240,7 +240,13 @@ std::string timestamp
 
   if ( this->has_valid_time() )
   {
-    char* p = ctime( &tt ); // this may return null if <tt> is out of range,
+    char ctime_buffer[128];
+    // this may return null if <tt> is out of range,
+#if defined(_WIN32)
+    char* p = ctime_s( ctime_buffer, sizeof ctime_buffer, &tt ) ? 0 : ctime_buffer;
+#else
+    char* p = ctime_r( &tt, ctime_buffer );
+#endif
     if ( p )
     {
       char buffer[128];
-- 
2.43.0


From 1125a1c6bb1de48a71747cc82c00933f51819a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 052/135] fix: get_module_path() writes past its string and
 returns garbage

It ended the wrong string, so that the path ran into uninitialized memory.
Both functions also filled their cached string from several threads.
---
 vital/util/get_paths.cxx | 43 +++++++++++++++++++---------------------
 vital/util/get_paths.h   |  6 ++++--
 2 files changed, 24 insertions(+), 25 deletions(-)

diff --git a/vital/util/get_paths.cxx b/vital/util/get_paths.cxx
index 70d44f9..8ec425e 100644
--- a/vital/util/get_paths.cxx
+++ b/vital/util/get_paths.cxx
@@ -48,42 +48,39 @@ namespace vital{
 
 
 // ------------------------------------------------------------------
-std::string
-get_executable_path()
+// Directory part of the path that getter finds, empty if it finds none.
+static std::string
+directory_of( int (*getter)( char*, int, int* ) )
 {
-  static std::string path; // cached path
+  char ppath[4096];
+  int length(0);
 
-  if ( path.empty() )
+  // nothing is stored when the path does not fit
+  int const total = getter( ppath, sizeof ppath, &length );
+  if ( total < 0 || total > static_cast< int >( sizeof ppath ) )
   {
-    char ppath[4096];
-    int length(0);
-    wai_getExecutablePath( ppath, sizeof ppath, &length );
-    ppath[length] = '\0';
-
-    // convert to string
-    path = ppath;
+    return std::string();
   }
 
-  return path;
+  return std::string( ppath, length );
 }
 
 
 // ------------------------------------------------------------------
 std::string
-get_module_path()
+get_executable_path()
 {
-  static std::string path; // cached path
+  static std::string const path = directory_of( wai_getExecutablePath ); // cached path
 
-  if ( path.empty() )
-  {
-    char ppath[4096];
-    int length(0);
-    wai_getModulePath( ppath, sizeof ppath, &length );
-    path[length] = '\0';
+  return path;
+}
 
-    // convert to string
-    path = ppath;
-  }
+
+// ------------------------------------------------------------------
+std::string
+get_module_path()
+{
+  static std::string const path = directory_of( wai_getModulePath ); // cached path
 
   return path;
 }
diff --git a/vital/util/get_paths.h b/vital/util/get_paths.h
index b5c9c5f..639fd85 100644
--- a/vital/util/get_paths.h
+++ b/vital/util/get_paths.h
@@ -55,10 +55,12 @@ namespace vital{
 std::string VITAL_EXPORT get_executable_path();
 
 /**
- * @brief
+ * @brief Get path to current module.
  *
+ * Get the name of the directory that contains the file of the current
+ * module, which is the executable or the library this function is in.
  *
- * @return
+ * @return Directory name.
  */
 std::string VITAL_EXPORT get_module_path();
 
-- 
2.43.0


From 485cda9c63af97fbb3618c6160c8968316b1c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 053/135] fix: handles of the C interface cannot be used from
 several threads

All handles of a kind are kept in one map, so creating and destroying
unrelated objects in two threads corrupted it. The constant strings of the
configuration were also made on first use by whoever came first.
---
 vital/bindings/c/config_block.cxx  | 36 ++++++++++++------------------
 vital/bindings/c/helpers/c_utils.h | 11 +++++++++
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/vital/bindings/c/config_block.cxx b/vital/bindings/c/config_block.cxx
index 79f2ef8..bd5cfba 100644
--- a/vital/bindings/c/config_block.cxx
+++ b/vital/bindings/c/config_block.cxx
@@ -67,17 +67,13 @@ CONFIG_BLOCK_SPTR_CACHE( "config_block" );
 vital_string_t*
 vital_config_block_block_sep()
 {
-  static vital_string_t* static_bs = 0;
-
-  if ( ! static_bs )
-  {
-    STANDARD_CATCH(
-      "C::config_block::block_sep", NULL,
-      std::string bs( kwiver::vital::config_block::block_sep );
-      static_bs = vital_string_new( bs.size(), bs.c_str() );
-                  );
-  }
-  return static_bs;
+  STANDARD_CATCH(
+    "C::config_block::block_sep", NULL,
+    static std::string const bs( kwiver::vital::config_block::block_sep );
+    static vital_string_t* const static_bs = vital_string_new( bs.size(), bs.c_str() );
+    return static_bs;
+                );
+  return 0;
 }
 
 
@@ -85,17 +81,13 @@ vital_config_block_block_sep()
 vital_string_t*
 vital_config_block_global_value()
 {
-  static vital_string_t* static_gv = 0;
-
-  if ( ! static_gv )
-  {
-    STANDARD_CATCH(
-      "C::config_block::global_value", NULL,
-      std::string gv( kwiver::vital::config_block::global_value );
-      static_gv = vital_string_new( gv.size(), gv.c_str() );
-                  );
-  }
-  return static_gv;
+  STANDARD_CATCH(
+    "C::config_block::global_value", NULL,
+    static std::string const gv( kwiver::vital::config_block::global_value );
+    static vital_string_t* const static_gv = vital_string_new( gv.size(), gv.c_str() );
+    return static_gv;
+                );
+  return 0;
 }
 
 
diff --git a/vital/bindings/c/helpers/c_utils.h b/vital/bindings/c/helpers/c_utils.h
index 3517d85..3a79f90 100644
--- a/vital/bindings/c/helpers/c_utils.h
+++ b/vital/bindings/c/helpers/c_utils.h
@@ -43,6 +43,7 @@
 #include <cstring>
 #include <exception>
 #include <map>
+#include <mutex>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -184,6 +185,8 @@ public:
       throw NullPointerException(ss.str());
     }
 
+    std::lock_guard< std::mutex > lock( mutex_ );
+
     // If an sptr referencing the underlying pointer already exists in the map,
     // don't bother bashing the existing entry
     if( cache_.count( sptr.get() ) == 0 )
@@ -207,6 +210,8 @@ public:
       throw NullPointerException(ss.str());
     }
 
+    std::lock_guard< std::mutex > lock( mutex_ );
+
     typename cache_t::const_iterator it = cache_.find( ptr );
     if( it != cache_.end() )
     {
@@ -237,6 +242,9 @@ public:
       throw NullPointerException(ss.str());
     }
 
+    sptr_t last; // lets the object go after the lock
+    std::lock_guard< std::mutex > lock( mutex_ );
+
     typename cache_t::iterator c_it = cache_.find( ptr );
     if( c_it != cache_.end() )
     {
@@ -244,6 +252,7 @@ public:
       // Only finally erase cache entry when store references reaches 0
       if( ref_count_cache_[ptr] <= 0 )
       {
+        last = c_it->second;
         cache_.erase(c_it);
         ref_count_cache_.erase(ptr);
       }
@@ -268,6 +277,8 @@ private:
   ref_count_cache_t ref_count_cache_;
   /// Name of cache
   std::string name_;
+  /// Held while the maps are used, handles belong to no particular thread
+  mutable std::mutex mutex_;
 
   /// Helper method to generate logging prefix string
   std::string get_log_prefix( vital_t *ptr ) const
-- 
2.43.0


From 0f75e114caffc79227db5ab5e5f90db6b6278d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 054/135] fix: ConvertToUnixSlashes leaves doubled and trailing
 slashes

---
 vital/kwiversys/SystemTools.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index da34eb9..ccb8d24 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2031,7 +2031,12 @@ void SystemTools::ConvertToUnixSlashes(std::string& path)
 
   if ( hasDoubleSlash )
     {
-    SystemTools::ReplaceString(path, "//", "/");
+    // one pass leaves doubled slashes where there were three or more
+    do
+      {
+      SystemTools::ReplaceString(path, "//", "/");
+      }
+    while(path.find("//") != std::string::npos);
     }
 #endif
   // remove any trailing slash
-- 
2.43.0


From a90459a967d201f6de7305da5f618d9bf6a41491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 055/135] fix: home directories ending in a slash are expanded
 wrongly

---
 vital/kwiversys/SystemTools.cxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index ccb8d24..69d9be9 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2049,7 +2049,10 @@ void SystemTools::ConvertToUnixSlashes(std::string& path)
       const char* homeEnv = SystemTools::GetEnv("HOME");
       if (homeEnv)
         {
-        path.replace(0,1,homeEnv);
+        // do not double the slash when HOME ends with one
+        const size_t homeLen = strlen(homeEnv);
+        const bool homeSlash = homeLen && homeEnv[homeLen-1] == '/';
+        path.replace(0, (homeSlash && path.size() > 1)? 2 : 1, homeEnv);
         }
       }
 #ifdef HAVE_GETPWNAM
@@ -3993,8 +3996,9 @@ void SystemTools::SplitPath(const std::string& p,
         }
       }
 #endif
-    if(!homedir.empty() && (*homedir.rbegin() == '/' ||
-                            *homedir.rbegin() == '\\'))
+    // (the root directory is nothing but its slash)
+    if(homedir.size() > 1 && (*homedir.rbegin() == '/' ||
+                              *homedir.rbegin() == '\\'))
       {
       homedir.resize(homedir.size() - 1);
       }
-- 
2.43.0


From ebf353976e10a01f2e151f90f62613a3619c6af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 056/135] fix: IsSubDirectory finds nothing inside the root
 directory

---
 vital/kwiversys/SystemTools.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 69d9be9..b5f843b 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4875,7 +4875,9 @@ bool SystemTools::IsSubDirectory(const std::string& cSubdir, const std::string&
   std::string dir = cDir;
   SystemTools::ConvertToUnixSlashes(subdir);
   SystemTools::ConvertToUnixSlashes(dir);
-  if(subdir.size() > dir.size() && subdir[dir.size()] == '/')
+  // the root directory ends with its slash
+  const bool isRoot = !dir.empty() && *dir.rbegin() == '/';
+  if(subdir.size() > dir.size() && (isRoot || subdir[dir.size()] == '/'))
     {
     std::string s = subdir.substr(0, dir.size());
     return SystemTools::ComparePath(s, dir);
-- 
2.43.0


From a031249442e99734cdaf1c39e649de1ecc099c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 057/135] fix: long working directories are not found

---
 vital/kwiversys/SystemTools.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index b5f843b..d949ed0 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -3338,8 +3338,8 @@ int SystemTools::ChangeDirectory(const std::string& dir)
 
 std::string SystemTools::GetCurrentWorkingDirectory(bool collapse)
 {
-  char buf[2048];
-  const char* cwd = Getcwd(buf, 2048);
+  char buf[KWSYS_SYSTEMTOOLS_MAXPATH];
+  const char* cwd = Getcwd(buf, KWSYS_SYSTEMTOOLS_MAXPATH);
   std::string path;
   if ( cwd )
     {
@@ -3583,8 +3583,8 @@ std::string SystemTools::CollapseFullPath(const std::string& in_path,
     else
       {
       // Use the current working directory as a base path.
-      char buf[2048];
-      if(const char* cwd = Getcwd(buf, 2048))
+      char buf[KWSYS_SYSTEMTOOLS_MAXPATH];
+      if(const char* cwd = Getcwd(buf, KWSYS_SYSTEMTOOLS_MAXPATH))
         {
         SystemTools::SplitPath(cwd, base_components);
         }
@@ -5363,8 +5363,8 @@ void SystemTools::ClassInitialize()
   // logical name.
   if(const char* pwd = getenv("PWD"))
     {
-    char buf[2048];
-    if(const char* cwd = Getcwd(buf, 2048))
+    char buf[KWSYS_SYSTEMTOOLS_MAXPATH];
+    if(const char* cwd = Getcwd(buf, KWSYS_SYSTEMTOOLS_MAXPATH))
       {
       // The current working directory may be a logical path.  Find
       // the shortest logical path that still produces the correct
-- 
2.43.0


From e478ea7060c78107e0939b711357c747942961da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 058/135] fix: SplitProgramPath loses the root directory

---
 vital/kwiversys/SystemTools.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index d949ed0..ee0c85c 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -3374,7 +3374,7 @@ bool SystemTools::SplitProgramPath(const std::string& in_name,
     if(slashPos != std::string::npos)
       {
       file = dir.substr(slashPos+1);
-      dir = dir.substr(0, slashPos);
+      dir = dir.substr(0, slashPos? slashPos : 1);
       }
     else
       {
-- 
2.43.0


From 189fd92a01f10ce394e2db591ed7e1cfc0fdecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:15 +0000
Subject: [PATCH 059/135] fix: SplitString joins a piece to an empty one before
 it

---
 vital/kwiversys/SystemTools.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index ee0c85c..04531c7 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -1852,12 +1852,12 @@ std::vector<kwsys::String> SystemTools::SplitString(const std::string& p, char s
     paths.push_back("/");
     }
   std::string::size_type pos1 = 0;
-  std::string::size_type pos2 = path.find(sep, pos1+1);
+  std::string::size_type pos2 = path.find(sep, pos1);
   while(pos2 != std::string::npos)
     {
     paths.push_back(path.substr(pos1, pos2-pos1));
     pos1 = pos2+1;
-    pos2 = path.find(sep, pos1+1);
+    pos2 = path.find(sep, pos1);
     }
   paths.push_back(path.substr(pos1, pos2-pos1));
 
-- 
2.43.0


From e4c5d13fbba255e8c6d5f1a0fba40ee9535e6a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 060/135] fix: ConvertToUnixSlashes overlooks doubled
 backslashes

---
 vital/kwiversys/SystemTools.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 04531c7..66e7550 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2011,12 +2011,13 @@ void SystemTools::ConvertToUnixSlashes(std::string& path)
       }
 
     // Also, reuse the loop to check for slash followed by another slash
-    if (*pos1 == '/' && *(pos1+1) == '/' && !hasDoubleSlash)
+    // (both already converted)
+    if ( pos > 1 && path[pos] == '/' && path[pos-1] == '/' )
       {
 #ifdef _WIN32
       // However, on windows if the first characters are both slashes,
       // then keep them that way, so that network paths can be handled.
-      if ( pos > 0)
+      if ( pos > 2)
         {
         hasDoubleSlash = true;
         }
-- 
2.43.0


From fe30800891b273feddb973cbf3f2068bea486b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 061/135] fix: copies of regular expressions forget the groups
 found

---
 vital/kwiversys/RegularExpression.cxx | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 5447488..1d46521 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -55,8 +55,12 @@ RegularExpression::RegularExpression (const RegularExpression& rxp) {
   this->program = new char[this->progsize];     // Allocate storage
   for(ind=this->progsize; ind-- != 0;)          // Copy regular expresion
     this->program[ind] = rxp.program[ind];
-  this->startp[0] = rxp.startp[0];              // Copy pointers into last
-  this->endp[0] = rxp.endp[0];                  // Successful "find" operation
+  for(ind=NSUBEXP; ind-- != 0;)                 // Copy pointers into last
+    {                                           // Successful "find" operation
+    this->startp[ind] = rxp.startp[ind];
+    this->endp[ind] = rxp.endp[ind];
+    }
+  this->searchstring = rxp.searchstring;
   this->regmust = rxp.regmust;                  // Copy field
   if (rxp.regmust != 0) {
     char* dum = rxp.program;
@@ -81,7 +85,7 @@ RegularExpression& RegularExpression::operator= (const RegularExpression& rxp)
     }
   if ( !rxp.program )
     {
-    this->program = 0;
+    this->set_invalid();
     return *this;
     }
   int ind;
@@ -90,8 +94,12 @@ RegularExpression& RegularExpression::operator= (const RegularExpression& rxp)
   this->program = new char[this->progsize];     // Allocate storage
   for(ind=this->progsize; ind-- != 0;)          // Copy regular expresion
     this->program[ind] = rxp.program[ind];
-  this->startp[0] = rxp.startp[0];              // Copy pointers into last
-  this->endp[0] = rxp.endp[0];                  // Successful "find" operation
+  for(ind=NSUBEXP; ind-- != 0;)                 // Copy pointers into last
+    {                                           // Successful "find" operation
+    this->startp[ind] = rxp.startp[ind];
+    this->endp[ind] = rxp.endp[ind];
+    }
+  this->searchstring = rxp.searchstring;
   this->regmust = rxp.regmust;                  // Copy field
   if (rxp.regmust != 0) {
     char* dum = rxp.program;
-- 
2.43.0


From 1125006c3988289738b2ece08edae8d9dc00b343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 062/135] fix: comparing regular expressions that were not
 compiled reads at random

---
 vital/kwiversys/RegularExpression.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/kwiversys/RegularExpression.cxx b/vital/kwiversys/RegularExpression.cxx
index 1d46521..47598bf 100644
--- a/vital/kwiversys/RegularExpression.cxx
+++ b/vital/kwiversys/RegularExpression.cxx
@@ -121,6 +121,8 @@ RegularExpression& RegularExpression::operator= (const RegularExpression& rxp)
 // compiled program for pattern matching.
 bool RegularExpression::operator== (const RegularExpression& rxp) const {
   if (this != &rxp) {                           // Same address?
+    if (!this->program || !rxp.program)         // If one is not compiled
+      return this->program == rxp.program;      // Neither must be
     int ind = this->progsize;                   // Get regular expression size
     if (ind != rxp.progsize)                    // If different size regexp
       return false;                             // Return failure
@@ -136,6 +138,8 @@ bool RegularExpression::operator== (const RegularExpression& rxp) const {
 // and the same start and end pointers.
 
 bool RegularExpression::deep_equal (const RegularExpression& rxp) const {
+  if (!this->program || !rxp.program)           // If one is not compiled
+    return this->program == rxp.program;        // Neither must be
   int ind = this->progsize;                     // Get regular expression size
   if (ind != rxp.progsize)                      // If different size regexp
     return false;                               // Return failure
-- 
2.43.0


From f2189f095994b7e958497aa86b516bae1bee1429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 063/135] fix: Base64 decoding reads beyond an input that is
 cut short

---
 vital/kwiversys/Base64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/Base64.c b/vital/kwiversys/Base64.c
index 4b8ede2..c774088 100644
--- a/vital/kwiversys/Base64.c
+++ b/vital/kwiversys/Base64.c
@@ -220,7 +220,8 @@ size_t kwsysBase64_Decode(const unsigned char *input,
   if (max_input_length)
     {
     const unsigned char *end = input + max_input_length;
-    while (ptr < end)
+    /* (anything less than four characters is not a group) */
+    while ((end - ptr) >= 4)
       {
       int len = kwsysBase64_Decode3(ptr, optr);
       optr += len;
-- 
2.43.0


From e16245a474bdb563a5ff7d03a847683f81bbbc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 064/135] fix: the end mark of Base64 text decodes to an extra
 byte

---
 vital/kwiversys/Base64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/Base64.c b/vital/kwiversys/Base64.c
index c774088..1972541 100644
--- a/vital/kwiversys/Base64.c
+++ b/vital/kwiversys/Base64.c
@@ -173,7 +173,8 @@ int kwsysBase64_Decode3(const unsigned char *src, unsigned char *dest)
   
   /* Make sure all characters were valid */
 
-  if (d0 == 0xFF || d1 == 0xFF || d2 == 0xFF || d3 == 0xFF)
+  if (d0 == 0xFF || d1 == 0xFF || d2 == 0xFF || d3 == 0xFF ||
+      src[0] == '=' || src[1] == '=')
     { 
     return 0; 
     }
-- 
2.43.0


From 5ef66b707f568601a4c6a57fa99652c1b4ca5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 065/135] fix: converting text between narrow and wide form
 stops at a null character

---
 vital/kwiversys/EncodingCXX.cxx | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/EncodingCXX.cxx b/vital/kwiversys/EncodingCXX.cxx
index 597d4bd..5932657 100644
--- a/vital/kwiversys/EncodingCXX.cxx
+++ b/vital/kwiversys/EncodingCXX.cxx
@@ -143,12 +143,36 @@ char const* const* Encoding::CommandLineArguments::argv() const
 
 std::wstring Encoding::ToWide(const std::string& str)
 {
-  return ToWide(str.c_str());
+  // convert the pieces between null characters
+  std::wstring wstr;
+  std::string::size_type pos = 0;
+  std::string::size_type null = str.find('\0');
+  while(null != std::string::npos)
+    {
+    wstr += ToWide(str.c_str() + pos);
+    wstr += L'\0';
+    pos = null + 1;
+    null = str.find('\0', pos);
+    }
+  wstr += ToWide(str.c_str() + pos);
+  return wstr;
 }
 
 std::string Encoding::ToNarrow(const std::wstring& str)
 {
-  return ToNarrow(str.c_str());
+  // convert the pieces between null characters
+  std::string nstr;
+  std::wstring::size_type pos = 0;
+  std::wstring::size_type null = str.find(L'\0');
+  while(null != std::wstring::npos)
+    {
+    nstr += ToNarrow(str.c_str() + pos);
+    nstr += '\0';
+    pos = null + 1;
+    null = str.find(L'\0', pos);
+    }
+  nstr += ToNarrow(str.c_str() + pos);
+  return nstr;
 }
 
 std::wstring Encoding::ToWide(const char* cstr)
-- 
2.43.0


From 8063ff4eb942d555f9bf2065f53eb0a7438d791d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 066/135] fix: the help of command line arguments overruns its
 buffers for long names

---
 vital/kwiversys/CommandLineArguments.cxx | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 3636836..d61773b 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -587,10 +587,6 @@ void CommandLineArguments::GenerateHelp()
       }
     }
 
-  // Create format for that string
-  char format[80];
-  sprintf(format, "  %%-%us  ", static_cast<unsigned int>(maxlen));
-
   maxlen += 4; // For the space before and after the option
 
   // Print help for each option
@@ -602,19 +598,20 @@ void CommandLineArguments::GenerateHelp()
     for ( sit = mpit->second.begin(); sit != mpit->second.end(); sit++ )
       {
       str << std::endl;
-      char argument[100];
-      sprintf(argument, "%s", sit->c_str());
+      std::string argument = *sit;
       switch ( this->Internals->Callbacks[*sit].ArgumentType )
         {
         case CommandLineArguments::NO_ARGUMENT: break;
-        case CommandLineArguments::CONCAT_ARGUMENT: strcat(argument, "opt"); break;
-        case CommandLineArguments::SPACE_ARGUMENT:  strcat(argument, " opt"); break;
-        case CommandLineArguments::EQUAL_ARGUMENT:  strcat(argument, "=opt"); break;
-        case CommandLineArguments::MULTI_ARGUMENT:  strcat(argument, " opt opt ..."); break;
+        case CommandLineArguments::CONCAT_ARGUMENT: argument += "opt"; break;
+        case CommandLineArguments::SPACE_ARGUMENT:  argument += " opt"; break;
+        case CommandLineArguments::EQUAL_ARGUMENT:  argument += "=opt"; break;
+        case CommandLineArguments::MULTI_ARGUMENT:  argument += " opt opt ..."; break;
+        }
+      if ( argument.size() + 4 < maxlen )
+        {
+        argument.resize(maxlen - 4, ' ');
         }
-      char buffer[80];
-      sprintf(buffer, format, argument);
-      str << buffer;
+      str << "  " << argument << "  ";
       }
     const char* ptr = this->Internals->Callbacks[mpit->first].Help;
     size_t len = strlen(ptr);
-- 
2.43.0


From f88e3f8119fb09b966261c3a4e30e64880b58a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 067/135] fix: splitting the help of command line arguments
 reads beyond the text

---
 vital/kwiversys/CommandLineArguments.cxx | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index d61773b..b980729 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -621,13 +621,10 @@ void CommandLineArguments::GenerateHelp()
       // If argument with help is longer than line length, split it on previous
       // space (or tab) and continue on the next line
       CommandLineArguments::Internal::String::size_type cc;
-      for ( cc = 0; ptr[cc]; cc ++ )
+      while ( *ptr == ' ' || *ptr == '\t' )
         {
-        if ( *ptr == ' ' || *ptr == '\t' )
-          {
-          ptr ++;
-          len --;
-          }
+        ptr ++;
+        len --;
         }
       if ( cnt > 0 )
         {
@@ -637,7 +634,7 @@ void CommandLineArguments::GenerateHelp()
           }
         }
       CommandLineArguments::Internal::String::size_type skip = len;
-      if ( skip > this->LineLength - maxlen )
+      if ( maxlen < this->LineLength && skip > this->LineLength - maxlen )
         {
         skip = this->LineLength - maxlen;
         for ( cc = skip-1; cc > 0; cc -- )
-- 
2.43.0


From 0a0cc2c322b46fba29d5140348eb2191a0501216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 068/135] fix: GetHelp() never returns when arguments point to
 each other

---
 vital/kwiversys/CommandLineArguments.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index b980729..032f5f4 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -476,7 +476,8 @@ const char* CommandLineArguments::GetHelp(const char* arg)
   // Since several arguments may point to the same argument, find the one this
   // one point to if this one is pointing to another argument.
   CommandLineArgumentsCallbackStructure *cs = &(it->second);
-  for(;;)
+  // (no more steps than there are arguments, as they may point in circles)
+  for(size_t steps = this->Internals->Callbacks.size(); steps > 0; --steps)
     {
     CommandLineArguments::Internal::CallbacksMap::iterator hit 
       = this->Internals->Callbacks.find(cs->Help);
-- 
2.43.0


From 116a66e17c6f65021b482fbca558397373fdeca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 069/135] fix: callbacks of boolean arguments get a null value
 instead of 1

---
 vital/kwiversys/CommandLineArguments.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 032f5f4..0b7e687 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -792,7 +792,7 @@ bool CommandLineArguments::PopulateVariable(CommandLineArgumentsCallbackStructur
   // Call the callback
   if ( cs->Callback )
     {
-    if ( !cs->Callback(cs->Argument, value, cs->CallData) )
+    if ( !cs->Callback(cs->Argument, value ? value : "1", cs->CallData) )
       {
       this->Internals->LastArgument --;
       return 0;
-- 
2.43.0


From 9f78f7f995717cc39399f2549d55432dfdbb4df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 070/135] fix: values of the last command line argument are
 returned as remaining

---
 vital/kwiversys/CommandLineArguments.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 0b7e687..50bb516 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -239,6 +239,7 @@ int CommandLineArguments::Parse()
           return 0;
           }
         cc ++;
+        this->Internals->LastArgument = cc;
         break;
       case EQUAL_ARGUMENT:
         if ( arg.size() == sarg.size() || arg.at(sarg.size()) != '=' )
@@ -281,8 +282,10 @@ int CommandLineArguments::Parse()
           {
           CommandLineArguments_DEBUG("Again End of multi argument " << arg);
           cc--;
+          this->Internals->LastArgument = cc;
           continue;
           }
+        this->Internals->LastArgument = cc-1;
         break;
       default:
         std::cerr << "Got unknown argument type: \"" << cs->ArgumentType << "\"" << std::endl;
-- 
2.43.0


From 6aba713c17f569e73beb85e8578d918c6c57507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 071/135] fix: command line arguments match longer names that
 begin alike

---
 vital/kwiversys/CommandLineArguments.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 50bb516..33413dc 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -163,14 +163,17 @@ bool CommandLineArguments::GetMatchedArguments(
     const CommandLineArguments::Internal::String& parg = it->first;
     CommandLineArgumentsCallbackStructure *cs = &it->second;
     if (cs->ArgumentType == CommandLineArguments::NO_ARGUMENT ||
-      cs->ArgumentType == CommandLineArguments::SPACE_ARGUMENT) 
+      cs->ArgumentType == CommandLineArguments::SPACE_ARGUMENT ||
+      cs->ArgumentType == CommandLineArguments::MULTI_ARGUMENT)
       {
       if ( arg == parg )
         {
         matches->push_back(parg);
         }
       }
-    else if ( arg.find( parg ) == 0 )
+    else if ( arg.compare( 0, parg.size(), parg ) == 0 &&
+      ( cs->ArgumentType != CommandLineArguments::EQUAL_ARGUMENT ||
+        arg.size() == parg.size() || arg[parg.size()] == '=' ) )
       {
       matches->push_back(parg);
       }
-- 
2.43.0


From 5e0457c9fae7f9e9cf3544ad2d0cc68f7d951510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 072/135] fix: CommandLineArguments::GetLineLength() is
 declared but not defined

---
 vital/kwiversys/CommandLineArguments.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 33413dc..05b72a7 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -507,6 +507,12 @@ void CommandLineArguments::SetLineLength(unsigned int ll)
   this->GenerateHelp();
 }
 
+//----------------------------------------------------------------------------
+unsigned int CommandLineArguments::GetLineLength()
+{
+  return this->LineLength;
+}
+
 //----------------------------------------------------------------------------
 const char* CommandLineArguments::GetArgv0()
 {
-- 
2.43.0


From 1ed55906dc9bb3f984a1ff46fdbe3f13046d6ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 073/135] fix: arguments whose help is their own name are
 missing from the help

---
 vital/kwiversys/CommandLineArguments.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/CommandLineArguments.cxx b/vital/kwiversys/CommandLineArguments.cxx
index 05b72a7..b44034b 100644
--- a/vital/kwiversys/CommandLineArguments.cxx
+++ b/vital/kwiversys/CommandLineArguments.cxx
@@ -559,7 +559,7 @@ void CommandLineArguments::GenerateHelp()
     {
     CommandLineArgumentsCallbackStructure *cs = &(it->second);
     mpit = mp.find(cs->Help);
-    if ( mpit != mp.end() )
+    if ( mpit != mp.end() && mpit->first != it->first )
       {
       mpit->second.insert(it->first);
       smpit = mp.find(it->first);
-- 
2.43.0


From 489c2f24ccf7dd6c9c66351d39fea689f86c547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 074/135] fix: starting a process does not fail when a signal
 interrupts it

---
 vital/kwiversys/ProcessUNIX.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 6d9b109..fef9f7d 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1971,7 +1971,8 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
   /* Make sure the child is in the process group before we proceed.  This
      avoids race conditions with calls to the kill function that we make for
      signalling process groups.  */
-  while((readRes = read(pgidPipe[0], &tmp, 1)) > 0);
+  while((readRes = read(pgidPipe[0], &tmp, 1)) > 0 ||
+        (readRes < 0 && errno == EINTR));
   if(readRes < 0)
     {
     sigprocmask(SIG_SETMASK, &old_mask, 0);
-- 
2.43.0


From d8eb7462b7a3de9db4a1ee1679b685eff244e076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 075/135] fix: running a process leaves the SIGINT and SIGTERM
 handlers as they were

---
 vital/kwiversys/ProcessUNIX.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index fef9f7d..b155d25 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2884,7 +2884,7 @@ static int kwsysProcessesAdd(kwsysProcess* cp)
     sigemptyset(&newSigAction.sa_mask);
     sigaddset(&newSigAction.sa_mask, SIGINT);
     while((sigaction(SIGTERM, &newSigAction,
-                     &kwsysProcessesOldSigIntAction) < 0) &&
+                     &kwsysProcessesOldSigTermAction) < 0) &&
           (errno == EINTR));
     }
   }
-- 
2.43.0


From 34a67d8d735965e192b6b6b1cc6212c417bd207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 076/135] fix: a failed fork does not kill every process of the
 user

---
 vital/kwiversys/ProcessUNIX.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index b155d25..8861bbf 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1889,6 +1889,8 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
 #endif
   if(cp->ForkPIDs[prIndex] < 0)
     {
+    /* There is no child to be signalled or waited for.  */
+    cp->ForkPIDs[prIndex] = 0;
     sigprocmask(SIG_SETMASK, &old_mask, 0);
     kwsysProcessCleanupDescriptor(&si->ErrorPipe[0]);
     kwsysProcessCleanupDescriptor(&si->ErrorPipe[1]);
-- 
2.43.0


From 665f9ff8bc5a4123936854a48fbd2fe18a564a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 077/135] fix: running a process with many descriptors open
 does not overrun its descriptor set

---
 vital/kwiversys/ProcessUNIX.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 8861bbf..490fb98 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -965,6 +965,19 @@ void kwsysProcess_Execute(kwsysProcess* cp)
       }
     }
 
+#if KWSYSPE_USE_SELECT
+  /* Only small descriptors can be given to select.  */
+  for(i=0; i < KWSYSPE_PIPE_COUNT; ++i)
+    {
+    if(cp->PipeReadEnds[i] >= FD_SETSIZE)
+      {
+      errno = EMFILE;
+      kwsysProcessCleanup(cp, 1);
+      return;
+      }
+    }
+#endif
+
   /* The timeout period starts now.  */
   cp->StartTime = kwsysProcessTimeGetCurrent();
   cp->TimeoutTime.tv_sec = -1;
-- 
2.43.0


From 8422bf6bcb6a02c381bb539151445aedd88313b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 078/135] fix: the error of a process that cannot start does
 not end in an earlier message

---
 vital/kwiversys/ProcessUNIX.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 490fb98..fd515c7 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -2030,6 +2030,9 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
 
   if(total > 0)
     {
+    /* End the message here, a longer one may have been there before.  */
+    cp->ErrorMessage[total] = 0;
+
     /* The child failed to execute the process.  */
     return 0;
     }
-- 
2.43.0


From c07c756e8f3d8ca733d270737522b03cd25d3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 079/135] fix: an empty verbatim command does not leak

---
 vital/kwiversys/ProcessUNIX.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index fd515c7..b1a973b 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -443,6 +443,7 @@ int kwsysProcess_AddCommand(kwsysProcess* cp, char const* const* command)
        !newCommands[cp->NumberOfCommands][0])
       {
       /* Out of memory or no command parsed.  */
+      free(newCommands[cp->NumberOfCommands]);
       free(newCommands);
       return 0;
       }
-- 
2.43.0


From 48cd0f7e5524e3239a98c9e283ee283d2f0ba262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 080/135] fix: failing to get the working directory does not
 change to a random one

---
 vital/kwiversys/ProcessUNIX.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index b1a973b..718f4cd 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -779,6 +779,9 @@ void kwsysProcess_Execute(kwsysProcess* cp)
     if(!getcwd(cp->RealWorkingDirectory,
                (size_t)(cp->RealWorkingDirectoryLength)))
       {
+      /* There is no directory to return to.  */
+      free(cp->RealWorkingDirectory);
+      cp->RealWorkingDirectory = 0;
       kwsysProcessCleanup(cp, 1);
       return;
       }
-- 
2.43.0


From 5125039b097d58732f74a1c50051d79c0bacd1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:42 +0000
Subject: [PATCH 081/135] fix: a detached process that cannot start reports its
 error and not its pid

---
 vital/kwiversys/ProcessUNIX.c | 39 +++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index 718f4cd..e22b6e8 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -177,8 +177,7 @@ static kwsysProcessTime kwsysProcessTimeSubtract(kwsysProcessTime in1, kwsysProc
 static void kwsysProcessSetExitException(kwsysProcess* cp, int sig);
 static void kwsysProcessChildErrorExit(int errorPipe);
 static void kwsysProcessRestoreDefaultSignalHandlers(void);
-static pid_t kwsysProcessFork(kwsysProcess* cp,
-                              kwsysProcessCreateInformation* si);
+static pid_t kwsysProcessFork(kwsysProcess* cp);
 static void kwsysProcessKill(pid_t process_id);
 #if defined(__VMS)
 static int kwsysProcessSetVMSFeature(const char* name, int value);
@@ -1902,7 +1901,7 @@ static int kwsysProcessCreate(kwsysProcess* cp, int prIndex,
      TODO:  CreateProcessGroup.  */
   cp->ForkPIDs[prIndex] = vfork();
 #else
-  cp->ForkPIDs[prIndex] = kwsysProcessFork(cp, si);
+  cp->ForkPIDs[prIndex] = kwsysProcessFork(cp);
 #endif
   if(cp->ForkPIDs[prIndex] < 0)
     {
@@ -2549,17 +2548,28 @@ static void kwsysProcessExit(void)
 
 /*--------------------------------------------------------------------------*/
 #if !defined(__VMS)
-static pid_t kwsysProcessFork(kwsysProcess* cp,
-                              kwsysProcessCreateInformation* si)
+static pid_t kwsysProcessFork(kwsysProcess* cp)
 {
   /* Create a detached process if requested.  */
   if(cp->OptionDetach)
     {
+    /* Create a pipe to report the pid of the real child.  The error pipe
+       cannot be used because the real child may already report an error
+       through it.  */
+    int pidPipe[2];
+    pid_t middle_pid;
+    if(pipe(pidPipe) < 0)
+      {
+      return -1;
+      }
+
     /* Create an intermediate process.  */
-    pid_t middle_pid = fork();
+    middle_pid = fork();
     if(middle_pid < 0)
       {
       /* Fork failed.  Return as if we were not detaching.  */
+      kwsysProcessCleanupDescriptor(&pidPipe[0]);
+      kwsysProcessCleanupDescriptor(&pidPipe[1]);
       return middle_pid;
       }
     else if(middle_pid == 0)
@@ -2568,13 +2578,15 @@ static pid_t kwsysProcessFork(kwsysProcess* cp,
       pid_t child_pid = fork();
       if(child_pid == 0)
         {
-        /* This is the real child process.  There is nothing to do here.  */
+        /* This is the real child process.  It does not report its pid.  */
+        close(pidPipe[0]);
+        close(pidPipe[1]);
         return 0;
         }
       else
         {
-        /* Use the error pipe to report the pid to the real parent.  */
-        while((write(si->ErrorPipe[1], &child_pid, sizeof(child_pid)) < 0) &&
+        /* Report the pid to the real parent.  */
+        while((write(pidPipe[1], &child_pid, sizeof(child_pid)) < 0) &&
               (errno == EINTR));
 
         /* Exit without cleanup.  The parent holds all resources.  */
@@ -2585,12 +2597,13 @@ static pid_t kwsysProcessFork(kwsysProcess* cp,
     else
       {
       /* This is the original parent process.  The intermediate
-         process will use the error pipe to report the pid of the
-         detached child.  */
-      pid_t child_pid;
+         process will report the pid of the detached child.  */
+      pid_t child_pid = -1;
       int status;
-      while((read(si->ErrorPipe[0], &child_pid, sizeof(child_pid)) < 0) &&
+      while((read(pidPipe[0], &child_pid, sizeof(child_pid)) < 0) &&
             (errno == EINTR));
+      kwsysProcessCleanupDescriptor(&pidPipe[0]);
+      kwsysProcessCleanupDescriptor(&pidPipe[1]);
 
       /* Wait for the intermediate process to exit and clean it up.  */
       while((waitpid(middle_pid, &status, 0) < 0) && (errno == EINTR));
-- 
2.43.0


From 221b029d4299eadeaff0e141705efc955d62cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:48 +0000
Subject: [PATCH 082/135] fix: killing a process that is writing does not leave
 its children running

---
 vital/kwiversys/ProcessUNIX.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/ProcessUNIX.c b/vital/kwiversys/ProcessUNIX.c
index e22b6e8..c7e0f6d 100644
--- a/vital/kwiversys/ProcessUNIX.c
+++ b/vital/kwiversys/ProcessUNIX.c
@@ -1571,7 +1571,7 @@ void kwsysProcess_Kill(kwsysProcess* cp)
      report it after we have already closed the read end.  */
   kwsysProcessCleanupDescriptor(&cp->SignalPipe);
 
-#if !defined(__APPLE__)
+#if defined(__CYGWIN__)
   /* Close all the pipe read ends.  Do this before killing the
      children because Cygwin has problems killing processes that are
      blocking to wait for writing to their output pipes.  */
@@ -1594,10 +1594,12 @@ void kwsysProcess_Kill(kwsysProcess* cp)
       }
     }
 
-#if defined(__APPLE__)
+#if !defined(__CYGWIN__)
   /* Close all the pipe read ends.  Do this after killing the
-     children because OS X has problems closing pipe read ends whose
-     pipes are full and still have an open write end.  */
+     children because a child that is still writing would be ended by
+     the closed pipe before its own children are found and killed, and
+     because OS X has problems closing pipe read ends whose pipes are
+     full and still have an open write end.  */
   kwsysProcessClosePipes(cp);
 #endif
 
-- 
2.43.0


From e5604780f11541de22dafbbd133658cbdbfa97c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 083/135] fix: MakeDirectory does not succeed where something
 else is in the way

---
 vital/kwiversys/SystemTools.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 66e7550..abb1c56 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -766,6 +766,8 @@ bool SystemTools::MakeDirectory(const std::string& path)
       {
       return false;
       }
+    // what exists need not be a directory
+    return SystemTools::FileIsDirectory(topdir);
     }
   return true;
 }
-- 
2.43.0


From abaeaa87868abb8c5aaf12b5740d88c715c4342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 084/135] fix: copying a file into the directory that holds it
 does not destroy it

---
 vital/kwiversys/SystemTools.cxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index abb1c56..057ecde 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2431,6 +2431,12 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
 
     SystemTools::MakeDirectory(destination_dir);
 
+    // The file in the destination directory may be the source itself
+    if ( SystemTools::SameFile(source, real_destination) )
+      {
+      return true;
+      }
+
     // Open files
 #if defined(_WIN32)
     kwsys::ifstream fin(Encoding::ToNarrow(
-- 
2.43.0


From 830844d0fa3c5da5e3318daab318e4b0bec04334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 085/135] fix: copying a directory reports that its target
 could not be made

---
 vital/kwiversys/SystemTools.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 057ecde..439c864 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2402,7 +2402,10 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
 
   if(SystemTools::FileIsDirectory(source))
     {
-    SystemTools::MakeDirectory(destination);
+    if(!SystemTools::MakeDirectory(destination))
+      {
+      return false;
+      }
     }
   else
     {
-- 
2.43.0


From f46a104799e6aa8bc71e6addd18660dcad3c295d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 086/135] fix: copying a directory that cannot be read fails

---
 vital/kwiversys/SystemTools.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 439c864..22fdcc1 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2537,11 +2537,15 @@ bool SystemTools::CopyADirectory(const std::string& source, const std::string& d
 {
   Directory dir;
 #ifdef _WIN32
-  dir.Load(Encoding::ToNarrow(
+  bool loaded = dir.Load(Encoding::ToNarrow(
              SystemTools::ConvertToWindowsExtendedPath(source)));
 #else
-  dir.Load(source);
+  bool loaded = dir.Load(source);
 #endif
+  if ( !loaded )
+    {
+    return false;
+    }
   size_t fileNum;
   if ( !SystemTools::MakeDirectory(destination) )
     {
-- 
2.43.0


From 3181716fc3c4a35d08b124bbfda8fff48d7bd315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 087/135] fix: RemoveADirectory removes a link and not what is
 in the directory it names

---
 vital/kwiversys/SystemTools.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 22fdcc1..4fe7092 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2823,6 +2823,16 @@ bool SystemTools::RemoveFile(const std::string& source)
 
 bool SystemTools::RemoveADirectory(const std::string& source)
 {
+  // A link goes, what it names stays.
+  if(SystemTools::FileIsSymlink(source))
+    {
+    return SystemTools::RemoveFile(source);
+    }
+  if(!SystemTools::FileIsDirectory(source))
+    {
+    return false;
+    }
+
   // Add write permission to the directory so we can modify its
   // content to remove files and directories from it.
   mode_t mode;
-- 
2.43.0


From dc4e98e843fb3902c35e9a859b669093127e99a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 088/135] fix: Touch works on files that cannot be read

---
 vital/kwiversys/SystemTools.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 4fe7092..4a85f4c 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -1318,7 +1318,8 @@ bool SystemTools::PathCygwinToWin32(const char *path, char *win32_path)
 
 bool SystemTools::Touch(const std::string& filename, bool create)
 {
-  if (!SystemTools::FileExists(filename))
+  // The file need not be readable.
+  if (!SystemTools::TestFileAccess(filename, TEST_FILE_OK))
     {
     if(create)
       {
-- 
2.43.0


From ce3de8a7fb86d126078b35df6755be3fb94975bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 089/135] fix: DetectFileType follows its documentation at the
 limits

---
 vital/kwiversys/SystemTools.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 4a85f4c..57c31d1 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4369,7 +4369,7 @@ SystemTools::DetectFileType(const char *filename,
 
   while (ptr != buffer_end)
     {
-    if ((*ptr >= 0x20 && *ptr <= 0x7F) ||
+    if ((*ptr >= 0x20 && *ptr <= 0x7E) ||
         *ptr == '\n' ||
         *ptr == '\r' ||
         *ptr == '\t')
@@ -4385,7 +4385,7 @@ SystemTools::DetectFileType(const char *filename,
     (static_cast<double>(read_length - text_count) /
      static_cast<double>(read_length));
 
-  if (current_percent_bin >= percent_bin)
+  if (current_percent_bin > percent_bin)
     {
     return SystemTools::FileTypeBinary;
     }
-- 
2.43.0


From 5f8f76130ac32e95fd44c682437d42e259c44369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 090/135] fix: copying a file reports that it could not be read

---
 vital/kwiversys/SystemTools.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 57c31d1..1ac7d38 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2492,6 +2492,9 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
         }
       }
 
+    // A read error is not the end of the file.
+    bool const readError = fin.bad();
+
     // Make sure the operating system has finished writing the file
     // before closing it.  This will ensure the file is finished before
     // the check below.
@@ -2500,7 +2503,7 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
     fin.close();
     fout.close();
 
-    if(!fout)
+    if(!fout || readError)
       {
       return false;
       }
-- 
2.43.0


From a234664bcbdc48b7b1986d6f68c25a7ba699dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:28 +0000
Subject: [PATCH 091/135] fix: timestamps beyond the year 9999 are printed
 again

---
 vital/types/timestamp.cxx | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/vital/types/timestamp.cxx b/vital/types/timestamp.cxx
index 6ab50f1..eac2b03 100644
--- a/vital/types/timestamp.cxx
+++ b/vital/types/timestamp.cxx
@@ -32,7 +32,7 @@
 
 #include <sstream>
 #include <string>
-#include <cstring>
+#include <cstdio>
 #include <ctime>
 
 namespace kwiver {
@@ -240,20 +240,23 @@ std::string timestamp
 
   if ( this->has_valid_time() )
   {
-    char ctime_buffer[128];
+    struct tm parts;
     // this may return null if <tt> is out of range,
 #if defined(_WIN32)
-    char* p = ctime_s( ctime_buffer, sizeof ctime_buffer, &tt ) ? 0 : ctime_buffer;
+    struct tm* p = localtime_s( &parts, &tt ) ? 0 : &parts;
 #else
-    char* p = ctime_r( &tt, ctime_buffer );
+    struct tm* p = localtime_r( &tt, &parts );
 #endif
     if ( p )
     {
       char buffer[128];
       c_tim = " (";
-      buffer[0] = 0;
-      strncpy( buffer, p, sizeof buffer );
-      buffer[std::strlen( buffer ) - 1] = 0; // remove NL
+      // the format of ctime(), with room for any year
+      static const char days[] = "SunMonTueWedThuFriSat";
+      static const char months[] = "JanFebMarAprMayJunJulAugSepOctNovDec";
+      snprintf( buffer, sizeof buffer, "%.3s %.3s%3d %.2d:%.2d:%.2d %ld",
+                days + 3 * p->tm_wday, months + 3 * p->tm_mon, p->tm_mday,
+                p->tm_hour, p->tm_min, p->tm_sec, 1900L + p->tm_year );
 
       c_tim = c_tim + buffer;
       c_tim = c_tim + ")";
-- 
2.43.0


From 05476f4435657dbb5371f6d3d1211792856babf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:06 +0000
Subject: [PATCH 092/135] fix: LocateFileInDir only looks in the directories it
 documents

---
 vital/kwiversys/SystemTools.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 1ac7d38..d5c7b2e 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4483,8 +4483,10 @@ bool SystemTools::LocateFileInDir(const char *filename,
           }
         temp += filename_dir_bases;
 
-        res = SystemTools::LocateFileInDir(
-          filename_base.c_str(), temp.c_str(), filename_found, 0);
+        // what is no directory must not make us look beside it
+        res = SystemTools::FileIsDirectory(temp) &&
+          SystemTools::LocateFileInDir(
+            filename_base.c_str(), temp.c_str(), filename_found, 0);
 
         } while (!res && !filename_dir_base.empty());
       }
-- 
2.43.0


From 047524d5d1a38ae200027c43a8a55d74ebfdc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:40 +0000
Subject: [PATCH 093/135] fix: copying into a directory that cannot be listed
 does not replace a link to it

---
 vital/kwiversys/SystemTools.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index d5c7b2e..3be706b 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2417,8 +2417,7 @@ bool SystemTools::CopyFileAlways(const std::string& source, const std::string& d
     // name as the source in that directory.
 
     std::string destination_dir;
-    if(SystemTools::FileExists(destination) &&
-       SystemTools::FileIsDirectory(destination))
+    if(SystemTools::FileIsDirectory(destination))
       {
       destination_dir = real_destination;
       SystemTools::ConvertToUnixSlashes(real_destination);
-- 
2.43.0


From cf89c67c4e1534fa4e152d3487bb38db3667787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:30 +0000
Subject: [PATCH 094/135] fix: enumerate() reads past the index of a matrix
 without rows or columns

---
 vital/util/enumerate_matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/util/enumerate_matrix.h b/vital/util/enumerate_matrix.h
index a159334..4928a8b 100644
--- a/vital/util/enumerate_matrix.h
+++ b/vital/util/enumerate_matrix.h
@@ -123,9 +123,9 @@ template < typename ValueT, int Options, typename IndexT >
 sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
 ::iterator(Eigen::SparseMatrix< ValueT, Options, IndexT > const& mat)
   : m_matrix(&mat), m_end(mat.outerSize()), m_outer(0),
-    m_inner(new iterator_t(mat, 0))
+    m_inner(mat.outerSize() > 0 ? new iterator_t(mat, 0) : 0)
 {
-  if (!(*(this->m_inner)))
+  if (this->m_inner && !(*(this->m_inner)))
   {
     ++(*this);
   }
-- 
2.43.0


From cf88647dd6c161e25bcefe0fa08e20df0a19f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:30 +0000
Subject: [PATCH 095/135] fix: enumerate() recurses once per empty row or
 column and overflows the stack

---
 vital/util/enumerate_matrix.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/vital/util/enumerate_matrix.h b/vital/util/enumerate_matrix.h
index 4928a8b..fb7e367 100644
--- a/vital/util/enumerate_matrix.h
+++ b/vital/util/enumerate_matrix.h
@@ -164,19 +164,19 @@ sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator&
 sparse_matrix_enumerator< ValueT, Options, IndexT >::iterator
 ::operator++()
 {
-  if (this->m_inner && !(++(*(this->m_inner))))
+  if (this->m_inner)
   {
-    if (++this->m_outer < this->m_end)
+    ++(*(this->m_inner));
+    while (this->m_inner && !(*(this->m_inner)))
     {
-      this->m_inner.reset(new iterator_t(*(this->m_matrix), m_outer));
-      if (!(*(this->m_inner)))
+      if (++this->m_outer < this->m_end)
       {
-        return ++(*this);
+        this->m_inner.reset(new iterator_t(*(this->m_matrix), m_outer));
+      }
+      else
+      {
+        this->m_inner.reset();
       }
-    }
-    else
-    {
-      this->m_inner.reset();
     }
   }
 
-- 
2.43.0


From 91f7166d6596b705ffd3d11421d5377b2fc88331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 096/135] fix: the wall timer is never available, it tests an
 undefined macro

---
 vital/util/wall_timer.h.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/util/wall_timer.h.in b/vital/util/wall_timer.h.in
index 7dc3c6c..3fbb026 100644
--- a/vital/util/wall_timer.h.in
+++ b/vital/util/wall_timer.h.in
@@ -38,7 +38,7 @@
 
 #include <vital/util/timer.h>
 
-#if VITAL_USE_CHRONO
+#if VITAL_USE_STD_CHRONO
 
 #include <string>
 #include <chrono>
-- 
2.43.0


From 98e0b577f1821aaa245a0b7cf9e4fddf44864ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:38 +0000
Subject: [PATCH 097/135] fix: the wall timer measures time that passed, not
 adjustments of the clock

---
 vital/util/wall_timer.h.in | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vital/util/wall_timer.h.in b/vital/util/wall_timer.h.in
index 3fbb026..1602da7 100644
--- a/vital/util/wall_timer.h.in
+++ b/vital/util/wall_timer.h.in
@@ -76,7 +76,7 @@ public:
   virtual void start()
   {
     m_active = true;
-    m_start = std::chrono::system_clock::now();
+    m_start = std::chrono::steady_clock::now();
   }
 
 
@@ -89,7 +89,7 @@ public:
   virtual void stop()
   {
     m_active = false;
-    m_end = std::chrono::system_clock::now();
+    m_end = std::chrono::steady_clock::now();
   }
 
 
@@ -106,7 +106,7 @@ public:
     if (m_active)
     {
       // Take a snapshot of the interval.
-      std::chrono::duration< double > elapsed_seconds = std::chrono::system_clock::now() - m_start;
+      std::chrono::duration< double > elapsed_seconds = std::chrono::steady_clock::now() - m_start;
       return elapsed_seconds.count();
     }
     else
@@ -118,8 +118,8 @@ public:
 
 private:
 
-  std::chrono::time_point< std::chrono::system_clock > m_start;
-  std::chrono::time_point< std::chrono::system_clock > m_end;
+  std::chrono::time_point< std::chrono::steady_clock > m_start;
+  std::chrono::time_point< std::chrono::steady_clock > m_end;
 
 }; // end class wall_timer
 
-- 
2.43.0


From f305f10251e4f898e87c7ec74e738a94028d6e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:38 +0000
Subject: [PATCH 098/135] fix: get_module_path() finds modules with spaces or
 long names in their path

---
 vital/util/whereami.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/util/whereami.c b/vital/util/whereami.c
index 01b03cd..285b3dc 100644
--- a/vital/util/whereami.c
+++ b/vital/util/whereami.c
@@ -237,7 +237,7 @@ int WAI_PREFIX(getModulePath)(char* out, int capacity, int* dirname_length)
 
     for (;;)
     {
-      char buffer[PATH_MAX < 1024 ? 1024 : PATH_MAX];
+      char buffer[PATH_MAX + 256]; // the path and what precedes it
       uint64_t low, high;
       char perms[5];
       uint64_t offset;
@@ -250,7 +250,7 @@ int WAI_PREFIX(getModulePath)(char* out, int capacity, int* dirname_length)
         break;
       }
 
-      if (sscanf(buffer, "%" PRIx64 "-%" PRIx64 " %s %" PRIx64 " %x:%x %u %s\n",
+      if (sscanf(buffer, "%" PRIx64 "-%" PRIx64 " %s %" PRIx64 " %x:%x %u %[^\n]",
                  &low, &high, perms, &offset, &major, &minor, &inode, path) == 8)
       {
         uint64_t addr = (uint64_t)(uintptr_t) __builtin_extract_return_addr(__builtin_return_address(0));
-- 
2.43.0


From 0e0c4743b271e7c622b828765d6250cf226cbe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:59 +0000
Subject: [PATCH 099/135] fix: hash containers can be filled from a range

---
 vital/kwiversys/hashtable.hxx.in | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index 9a20226..d30a192 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -427,8 +427,7 @@ public:
   void insert_unique(_ForwardIterator __f, _ForwardIterator __l,
                      std::forward_iterator_tag)
   {
-    size_type __n = 0;
-    std::distance(__f, __l, __n);
+    size_type __n = static_cast<size_type>(std::distance(__f, __l));
     resize(_M_num_elements + __n);
     for ( ; __n > 0; --__n, ++__f)
       insert_unique_noresize(*__f);
@@ -438,8 +437,7 @@ public:
   void insert_equal(_ForwardIterator __f, _ForwardIterator __l,
                     std::forward_iterator_tag)
   {
-    size_type __n = 0;
-    std::distance(__f, __l, __n);
+    size_type __n = static_cast<size_type>(std::distance(__f, __l));
     resize(_M_num_elements + __n);
     for ( ; __n > 0; --__n, ++__f)
       insert_equal_noresize(*__f);
-- 
2.43.0


From cb371ce25337f7cab66be4dadb58310e021104a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:59 +0000
Subject: [PATCH 100/135] fix: hash containers erase by a key that belongs to
 an erased element

---
 vital/kwiversys/hashtable.hxx.in | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index d30a192..64377ab 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -764,13 +764,18 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
   _Node* __first = _M_buckets[__n];
   size_type __erased = 0;
 
+  // The key may be part of an element that is erased, so the nodes are
+  // deleted when the key is no longer needed.
+  _Node* __unlinked = 0;
+
   if (__first) {
     _Node* __cur = __first;
     _Node* __next = __cur->_M_next;
     while (__next) {
       if (_M_equals(_M_get_key(__next->_M_val), __key)) {
         __cur->_M_next = __next->_M_next;
-        _M_delete_node(__next);
+        __next->_M_next = __unlinked;
+        __unlinked = __next;
         __next = __cur->_M_next;
         ++__erased;
         --_M_num_elements;
@@ -787,6 +792,11 @@ hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>::erase(const key_type& __key)
       --_M_num_elements;
     }
   }
+  while (__unlinked) {
+    _Node* __next = __unlinked->_M_next;
+    _M_delete_node(__unlinked);
+    __unlinked = __next;
+  }
   return __erased;
 }
 
-- 
2.43.0


From cd23da1bb527a2e5f905cf884511de5a1a42d73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:59 +0000
Subject: [PATCH 101/135] fix: a hash container that loses elements to an
 exception counts them out

---
 vital/kwiversys/hashtable.hxx.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/kwiversys/hashtable.hxx.in b/vital/kwiversys/hashtable.hxx.in
index 64377ab..e41c113 100644
--- a/vital/kwiversys/hashtable.hxx.in
+++ b/vital/kwiversys/hashtable.hxx.in
@@ -901,6 +901,7 @@ void hashtable<_Val,_Key,_HF,_Ex,_Eq,_All>
           while (__tmp[__bucket]) {
             _Node* __next = __tmp[__bucket]->_M_next;
             _M_delete_node(__tmp[__bucket]);
+            --_M_num_elements;
             __tmp[__bucket] = __next;
           }
         }
-- 
2.43.0


From c51f946316be5dc4394ee0fb76d29b1f875a3942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:09 +0000
Subject: [PATCH 102/135] fix: SystemTools::ReplaceString loses text after a
 zero byte and misreads its own text as argument

---
 vital/kwiversys/SystemTools.cxx | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 3be706b..25b672a 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -806,36 +806,31 @@ void SystemTools::ReplaceString(std::string& source,
                                 size_t replaceSize,
                                 const std::string& with)
 {
-  const char *src = source.c_str();
-  char *searchPos = const_cast<char *>(strstr(src,replace));
+  std::string::size_type currentPos = 0;
+  std::string::size_type searchPos = source.find(replace, 0, replaceSize);
 
   // get out quick if string is not found
-  if (!searchPos)
+  if (searchPos == std::string::npos)
     {
     return;
     }
 
-  // perform replacements until done
-  char *orig = strdup(src);
-  char *currentPos = orig;
-  searchPos = searchPos - src + orig;
-
-  // initialize the result
-  source.erase(source.begin(),source.end());
+  // perform replacements until done; the arguments may be part of the
+  // source, so leave it alone until then
+  std::string result;
   do
     {
-    *searchPos = '\0';
-    source += currentPos;
-    currentPos = searchPos + replaceSize;
+    result.append(source, currentPos, searchPos - currentPos);
     // replace
-    source += with;
-    searchPos = strstr(currentPos,replace);
+    result += with;
+    currentPos = searchPos + replaceSize;
+    searchPos = source.find(replace, currentPos, replaceSize);
     }
-  while (searchPos);
+  while (searchPos != std::string::npos);
 
   // copy any trailing text
-  source += currentPos;
-  free(orig);
+  result.append(source, currentPos, std::string::npos);
+  source.swap(result);
 }
 
 #if defined(KEY_WOW64_32KEY) && defined(KEY_WOW64_64KEY)
-- 
2.43.0


From ef411fa3bdaf2b9ecba761643c35530282aee409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:27 +0000
Subject: [PATCH 103/135] fix: SystemTools::EstimateFormatLength
 under-estimates and misreads its arguments

---
 vital/kwiversys/SystemTools.cxx | 67 +++++----------------------------
 1 file changed, 9 insertions(+), 58 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 25b672a..97edab3 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -1870,65 +1870,16 @@ int SystemTools::EstimateFormatLength(const char *format, va_list ap)
     return 0;
     }
 
-  // Quick-hack attempt at estimating the length of the string.
-  // Should never under-estimate.
-
-  // Start with the length of the format string itself.
-
-  size_t length = strlen(format);
-
-  // Increase the length for every argument in the format.
-
-  const char* cur = format;
-  while(*cur)
-    {
-    if(*cur++ == '%')
-      {
-      // Skip "%%" since it doesn't correspond to a va_arg.
-      if(*cur != '%')
-        {
-        while(!int(isalpha(*cur)))
-          {
-          ++cur;
-          }
-        switch (*cur)
-          {
-          case 's':
-          {
-          // Check the length of the string.
-          char* s = va_arg(ap, char*);
-          if(s)
-            {
-            length += strlen(s);
-            }
-          } break;
-          case 'e':
-          case 'f':
-          case 'g':
-          {
-          // Assume the argument contributes no more than 64 characters.
-          length += 64;
-
-          // Eat the argument.
-          static_cast<void>(va_arg(ap, double));
-          } break;
-          default:
-          {
-          // Assume the argument contributes no more than 64 characters.
-          length += 64;
-
-          // Eat the argument.
-          static_cast<void>(va_arg(ap, int));
-          } break;
-          }
-        }
-
-      // Move past the characters just tested.
-      ++cur;
-      }
-    }
+  // Let the formatting itself tell the length, so that it is never
+  // under-estimated.
+#if defined(_MSC_VER)
+  int length = _vscprintf(format, ap);
+#else
+  int length = vsnprintf(NULL, 0, format, ap);
+#endif
 
-  return static_cast<int>(length);
+  // Nothing will be printed with a format that cannot be used.
+  return length < 0 ? static_cast<int>(strlen(format)) : length;
 }
 
 std::string SystemTools::EscapeChars(
-- 
2.43.0


From b6074d4bf17d56ab4908fc3a36500697a7585c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:27 +0000
Subject: [PATCH 104/135] fix: SystemTools::SplitProgramFromArgs never returns
 for a text that begins with a space

---
 vital/kwiversys/SystemTools.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 97edab3..9e11e39 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4589,6 +4589,10 @@ void SystemTools::SplitProgramFromArgs(const std::string& path,
       return;
       }
     // move past the space for the next search
+    if(spacePos == 0)
+      {
+      break;
+      }
     spacePos--;
     spacePos = dir.rfind(' ', spacePos);
     }
-- 
2.43.0


From 1f334edf562f76ac0a545fe09edd18557b82d07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 105/135] fix: dates too short to be dates are read beyond
 their end and accepted

---
 vital/kwiversys/SystemTools.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 9e11e39..4b30e5f 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -2622,7 +2622,7 @@ long int SystemTools::CreationTime(const std::string& filename)
 
 bool SystemTools::ConvertDateMacroString(const char *str, time_t *tmt)
 {
-  if (!str || !tmt || strlen(str) > 11)
+  if (!str || !tmt || strlen(str) != 11)
     {
     return false;
     }
@@ -2645,7 +2645,7 @@ bool SystemTools::ConvertDateMacroString(const char *str, time_t *tmt)
 
   buffer[3] = 0;
   char *ptr = strstr(month_names, buffer);
-  if (!ptr)
+  if (!ptr || (ptr - month_names) % 3 != 0)
     {
     return false;
     }
@@ -2670,7 +2670,7 @@ bool SystemTools::ConvertDateMacroString(const char *str, time_t *tmt)
 
 bool SystemTools::ConvertTimeStampMacroString(const char *str, time_t *tmt)
 {
-  if (!str || !tmt || strlen(str) > 26)
+  if (!str || !tmt || strlen(str) < 24 || strlen(str) > 26)
     {
     return false;
     }
@@ -2696,7 +2696,7 @@ bool SystemTools::ConvertTimeStampMacroString(const char *str, time_t *tmt)
 
   buffer[7] = 0;
   char *ptr = strstr(month_names, buffer + 4);
-  if (!ptr)
+  if (!ptr || (ptr - month_names) % 3 != 0)
     {
     return false;
     }
-- 
2.43.0


From d00067aa32637bf4e21218381a3db11d3e643456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 106/135] fix: SystemTools::GetLineFromStream loses bytes of
 lines with zero bytes, long lines and cut lines

---
 vital/kwiversys/SystemTools.cxx | 57 ++++++++-------------------------
 1 file changed, 13 insertions(+), 44 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 4b30e5f..5cf9bd4 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4638,16 +4638,9 @@ bool SystemTools::GetLineFromStream(std::istream& is,
                                     bool* has_newline /* = 0 */,
                                     long sizeLimit /* = -1 */)
 {
-  const int bufferSize = 1024;
-  char buffer[bufferSize];
-  bool haveData = false;
-  bool haveNewline = false;
-
   // Start with an empty line.
   line = "";
 
-  long leftToRead = sizeLimit;
-
   // Early short circuit return if stream is no good. Just return
   // false and the empty line. (Probably means caller tried to
   // create a file stream with a non-existent file name...)
@@ -4662,45 +4655,21 @@ bool SystemTools::GetLineFromStream(std::istream& is,
     }
 
   // If no characters are read from the stream, the end of file has
-  // been reached.  Clear the fail bit just before reading.
-  while(!haveNewline &&
-        leftToRead != 0 &&
-        (is.clear(is.rdstate() & ~std::ios::failbit),
-         is.getline(buffer, bufferSize), is.gcount() > 0))
-    {
-    // We have read at least one byte.
-    haveData = true;
-
-    // If newline character was read the gcount includes the character
-    // but the buffer does not: the end of line has been reached.
-    size_t length = strlen(buffer);
-    if(length < static_cast<size_t>(is.gcount()))
-      {
-      haveNewline = true;
-      }
+  // been reached.
+  std::getline(is, line);
+  bool haveData = !line.empty() || !is.fail();
+  bool haveNewline = is.good();
 
-    // Avoid storing a carriage return character.
-    if(length > 0 && buffer[length-1] == '\r')
-      {
-      buffer[length-1] = 0;
-      }
-
-    // if we read too much then truncate the buffer
-    if (leftToRead > 0)
-      {
-      if (static_cast<long>(length) > leftToRead)
-        {
-        buffer[leftToRead-1] = 0;
-        leftToRead = 0;
-        }
-      else
-        {
-        leftToRead -= static_cast<long>(length);
-        }
-      }
+  // Avoid storing a carriage return character.
+  if(!line.empty() && *line.rbegin() == '\r')
+    {
+    line.erase(line.size()-1);
+    }
 
-    // Append the data read to the line.
-    line.append(buffer);
+  // if we read too much then truncate the line
+  if(sizeLimit >= 0 && line.size() > static_cast<size_t>(sizeLimit))
+    {
+    line.resize(static_cast<size_t>(sizeLimit));
     }
 
   // Return the results.
-- 
2.43.0


From 55fbc756536a0bd964c9ca4418c19cb1bc9bce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:55 +0000
Subject: [PATCH 107/135] fix: SystemTools::GetCurrentDateTime returns an
 undefined buffer for empty and long dates

---
 vital/kwiversys/SystemTools.cxx | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vital/kwiversys/SystemTools.cxx b/vital/kwiversys/SystemTools.cxx
index 5cf9bd4..41bcbdd 100644
--- a/vital/kwiversys/SystemTools.cxx
+++ b/vital/kwiversys/SystemTools.cxx
@@ -4603,11 +4603,20 @@ void SystemTools::SplitProgramFromArgs(const std::string& path,
 
 std::string SystemTools::GetCurrentDateTime(const char* format)
 {
-  char buf[1024];
   time_t t;
   time(&t);
-  strftime(buf, sizeof(buf), format, localtime(&t));
-  return std::string(buf);
+  // The result may be empty, which strftime does not tell from a buffer
+  // that is too small: put one more character in front.
+  std::string fmt = " ";
+  fmt += format;
+  std::vector<char> buf(1024);
+  size_t n;
+  while((n = strftime(&buf[0], buf.size(), fmt.c_str(), localtime(&t))) == 0 &&
+        buf.size() < 0x1000000)
+    {
+    buf.resize(buf.size()*2);
+    }
+  return n > 0 ? std::string(&buf[1], n-1) : std::string();
 }
 
 std::string SystemTools::MakeCidentifier(const std::string& s)
-- 
2.43.0


From 1035dd3bbe66233d92cbf54e6993e9ebf4f95ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:45 +0000
Subject: [PATCH 108/135] fix: read the whole processor table, and end when it
 cannot be read

A read error looped for ever, an empty table threw length_error, and the
last line was lost unless a blank line followed.
---
 vital/kwiversys/SystemInformation.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 703e45f..fef68af 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3186,14 +3186,14 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
     return false;
     }
 
-  size_t fileSize = 0;
-  while(!feof(fd))
+  int c;
+  while((c = fgetc(fd)) != EOF)
     {
-    buffer += static_cast<char>(fgetc(fd));
-    fileSize++;
+    buffer += static_cast<char>(c);
     }
   fclose( fd );
-  buffer.resize(fileSize-2);
+  // every value ends with its line
+  buffer += '\n';
   // Number of logical CPUs (combination of multiple processors, multi-core
   // and hyperthreading)
   size_t pos = buffer.find("processor\t");
-- 
2.43.0


From 0dd807bcd1e6fd3fa8d658bc0b84ca0c952c9a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 109/135] fix: look up values of the processor table in place

The table was copied for every occurrence of the word that was not the
key, all copies alive at once; an empty value gave the rest of the table;
and a key was overlooked when its word ended the line before it.
---
 vital/kwiversys/SystemInformation.cxx | 37 ++++++++++++++-------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index fef68af..32180cf 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -477,7 +477,7 @@ protected:
 
   // For Linux and Cygwin, /proc/cpuinfo formats are slightly different
   bool RetreiveInformationFromCpuInfoFile();
-  std::string ExtractValueFromCpuInfoFile(std::string buffer,
+  std::string ExtractValueFromCpuInfoFile(const std::string& buffer,
                                           const char* word, size_t init=0);
 
   bool QueryLinuxMemory();
@@ -3145,28 +3145,29 @@ bool SystemInformationImplementation::RetrieveClassicalCPUIdentity()
 
 
 /** Extract a value from the CPUInfo file */
-std::string SystemInformationImplementation::ExtractValueFromCpuInfoFile(std::string buffer,const char* word,size_t init)
+std::string SystemInformationImplementation::ExtractValueFromCpuInfoFile(const std::string& buffer,const char* word,size_t init)
 {
-  size_t pos = buffer.find(word,init);
-  if(pos != buffer.npos)
+  const size_t wordLen = strlen(word);
+  for(size_t at = buffer.find(word,init); at != buffer.npos;
+      at = buffer.find(word,at+wordLen))
     {
-    this->CurrentPositionInFile = pos;
-    pos = buffer.find(":",pos);
+    // It may happen that the beginning matches, but this is still not the requested key.
+    // An example is looking for "cpu" when "cpu family" comes first. So we check that
+    // we have only spaces from here to the colon, otherwise we search again.
+    size_t pos = buffer.find_first_not_of(" \t",at+wordLen);
+    if(pos == buffer.npos || buffer[pos] != ':')
+      {
+      continue;
+      }
     size_t pos2 = buffer.find("\n",pos);
-    if(pos!=buffer.npos && pos2!=buffer.npos)
+    if(pos2 == buffer.npos)
       {
-      // It may happen that the beginning matches, but this is still not the requested key.
-      // An example is looking for "cpu" when "cpu family" comes first. So we check that
-      // we have only spaces from here to pos, otherwise we search again.
-      for(size_t i=this->CurrentPositionInFile+strlen(word); i < pos; ++i)
-        {
-        if(buffer[i] != ' ' && buffer[i] != '\t')
-          {
-          return this->ExtractValueFromCpuInfoFile(buffer, word, pos2);
-          }
-        }
-      return buffer.substr(pos+2,pos2-pos-2);
+      break;
       }
+    this->CurrentPositionInFile = at;
+    // skip the colon and the blank after it; an empty value may lack the blank
+    pos = (pos+2 < pos2)? pos+2 : pos2;
+    return buffer.substr(pos,pos2-pos);
     }
   this->CurrentPositionInFile = buffer.npos;
   return "";
-- 
2.43.0


From c838f781cce452dc575c08b885eecb10a506d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 110/135] fix: count the cores of a single socket, and each
 socket once

A machine with one socket was reported to have one core, and sockets
whose ids are not contiguous were counted too many.
---
 vital/kwiversys/SystemInformation.cxx | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 32180cf..1bd391f 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -52,6 +52,7 @@
 #include <iostream>
 #include <sstream>
 #include <fstream>
+#include <set>
 #include <string>
 #include <vector>
 
@@ -3205,17 +3206,13 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
     }
 
 #ifdef __linux
-  // Find the largest physical id.
-  int maxId = -1;
+  // Find the physical ids; they need neither start at zero nor be contiguous.
+  std::set<int> physicalIds;
   std::string idc =
                        this->ExtractValueFromCpuInfoFile(buffer,"physical id");
   while(this->CurrentPositionInFile != buffer.npos)
     {
-      int id = atoi(idc.c_str());
-      if(id > maxId)
-      {
-       maxId=id;
-      }
+    physicalIds.insert(atoi(idc.c_str()));
     idc = this->ExtractValueFromCpuInfoFile(buffer,"physical id",
                                             this->CurrentPositionInFile+1);
     }
@@ -3225,10 +3222,14 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
   std::string cores =
                         this->ExtractValueFromCpuInfoFile(buffer,"cpu cores");
   int numberOfCoresPerCPU=atoi(cores.c_str());
-  if (maxId > 0)
+  if (!physicalIds.empty())
     {
+    if (numberOfCoresPerCPU < 1)
+      {
+      numberOfCoresPerCPU = 1;
+      }
     this->NumberOfPhysicalCPU=static_cast<unsigned int>(
-      numberOfCoresPerCPU*(maxId+1));
+      numberOfCoresPerCPU*physicalIds.size());
     }
   else
     {
-- 
2.43.0


From 52312875028a92a7f204f08429a6d5a89186c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 111/135] fix: read the processor's feature flags whenever the
 table has them

They were read only where the table also states a stepping or revision.
---
 vital/kwiversys/SystemInformation.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 1bd391f..0e3577b 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3348,7 +3348,7 @@ bool SystemInformationImplementation::RetreiveInformationFromCpuInfoFile()
 
   // processor feature flags (probably x86 specific)
   std::string cpuflags = this->ExtractValueFromCpuInfoFile(buffer,"flags");
-  if(!cpurev.empty())
+  if(!cpuflags.empty())
     {
     // now we can match every flags as space + flag + space
     cpuflags = " " + cpuflags + " ";
-- 
2.43.0


From dbfe47942987defacbbf745efc3cbafec367911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 112/135] fix: free the demangled name, not the buffer it may
 have outgrown

__cxa_demangle reallocates the buffer for names beyond its size.
---
 vital/kwiversys/SystemInformation.cxx | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 0e3577b..1863e75 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -1465,15 +1465,12 @@ std::string SymbolProperties::Demangle(const char *symbol) const
   std::string result = safes(symbol);
 #if defined(KWSYS_SYSTEMINFORMATION_HAS_CPP_DEMANGLE)
   int status = 0;
-  size_t bufferLen = 1024;
-  char *buffer = (char*)malloc(1024);
-  char *demangledSymbol =
-    abi::__cxa_demangle(symbol, buffer, &bufferLen, &status);
+  char *demangledSymbol = abi::__cxa_demangle(symbol, NULL, NULL, &status);
   if (!status)
     {
     result = demangledSymbol;
     }
-  free(buffer);
+  free(demangledSymbol);
 #else
   (void)symbol;
 #endif
-- 
2.43.0


From f444c411f99e7e390297ab5b5190f5f3a2a63439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 113/135] fix: take a field of a kernel table from the line it
 begins

A process named "VmRSS: 12" was reported to use that much memory.
---
 vital/kwiversys/SystemInformation.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 1863e75..a45f8f6 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -983,12 +983,12 @@ int NameValue(
   size_t nLines=lines.size();
   for (size_t i=0; i<nLines; ++i)
     {
-    size_t at=lines[i].find(name);
-    if (at==std::string::npos)
+    // the name begins its line: elsewhere it may be part of a value
+    if (lines[i].compare(0,name.size(),name)!=0)
       {
       continue;
       }
-    std::istringstream is(lines[i].substr(at+name.size()));
+    std::istringstream is(lines[i].substr(name.size()));
     is >> value;
     return 0;
     }
-- 
2.43.0


From 681c69096cfc37ff9b248f51238ba46586da567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 114/135] fix: do not take a very large memory limit for a
 negative one

---
 vital/kwiversys/SystemInformation.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index a45f8f6..8c1f9d5 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3526,13 +3526,13 @@ SystemInformationImplementation::GetProcMemoryAvailable(
   ierr=GetResourceLimit(RLIMIT_DATA,&rlim);
   if ((ierr==0) && (rlim.rlim_cur != RLIM_INFINITY))
     {
-    memAvail=min((SystemInformation::LongLong)rlim.rlim_cur/1024,memAvail);
+    memAvail=min((SystemInformation::LongLong)(rlim.rlim_cur/1024),memAvail);
     }
 
   ierr=GetResourceLimit(RLIMIT_AS,&rlim);
   if ((ierr==0) && (rlim.rlim_cur != RLIM_INFINITY))
     {
-    memAvail=min((SystemInformation::LongLong)rlim.rlim_cur/1024,memAvail);
+    memAvail=min((SystemInformation::LongLong)(rlim.rlim_cur/1024),memAvail);
     }
 #elif defined(__APPLE__)
   struct rlimit rlim;
-- 
2.43.0


From afa3aa956e3bf081c84689d20f71ce4ad7de08b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 115/135] fix: read kernel versions of any number of digits

Kernel 10.2 was taken for 1.x, and its memory table not understood.
---
 vital/kwiversys/SystemInformation.cxx | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/vital/kwiversys/SystemInformation.cxx b/vital/kwiversys/SystemInformation.cxx
index 8c1f9d5..e3b14f3 100644
--- a/vital/kwiversys/SystemInformation.cxx
+++ b/vital/kwiversys/SystemInformation.cxx
@@ -3892,22 +3892,8 @@ bool SystemInformationImplementation::QueryLinuxMemory()
     return false;
     }
 
-  if( strlen(unameInfo.release)>=3 )
-    {
-    // release looks like "2.6.3-15mdk-i686-up-4GB"
-    char majorChar=unameInfo.release[0];
-    char minorChar=unameInfo.release[2];
-
-    if( isdigit(majorChar) )
-      {
-      linuxMajor=majorChar-'0';
-      }
-
-    if( isdigit(minorChar) )
-      {
-      linuxMinor=minorChar-'0';
-      }
-    }
+  // release looks like "2.6.3-15mdk-i686-up-4GB"
+  sscanf(unameInfo.release, "%d.%d", &linuxMajor, &linuxMinor);
 
   FILE *fd = fopen("/proc/meminfo", "r" );
   if ( !fd )
-- 
2.43.0


From a3f82ea8280a828f4719806760ca98f30af44f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:05 +0000
Subject: [PATCH 116/135] fix: SharedForward: do not overrun the path buffers
 with long names, PATH entries or commands

---
 vital/kwiversys/SharedForward.h.in | 43 +++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index f22fa58..27e0743 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -613,6 +613,10 @@ static int kwsys_shared_forward_self_path(const char* argv0, char* result)
   if(has_slash)
     {
     /* There is a slash.  Use the dirname of the given location.  */
+    if(strlen(argv0) >= KWSYS_SHARED_FORWARD_MAXPATH)
+      {
+      return 0;
+      }
     kwsys_shared_forward_dirname(argv0, result);
     return 1;
     }
@@ -644,17 +648,21 @@ static int kwsys_shared_forward_self_path(const char* argv0, char* result)
           --length;
           }
 
-        /* Construct the name of the executable in this location.  */
-        strncpy(result, first, length);
-        result[length] = KWSYS_SHARED_FORWARD_PATH_SLASH;
-        strcpy(result+(length)+1, argv0);
-
-        /* Check if it exists and is executable.  */
-        if(kwsys_shared_forward_is_executable(result))
+        /* Skip names too long to exist.  */
+        if(length + 1 + strlen(argv0) < KWSYS_SHARED_FORWARD_MAXPATH)
           {
-          /* Found it.  */
-          result[length] = 0;
-          return 1;
+          /* Construct the name of the executable in this location.  */
+          strncpy(result, first, length);
+          result[length] = KWSYS_SHARED_FORWARD_PATH_SLASH;
+          strcpy(result+(length)+1, argv0);
+
+          /* Check if it exists and is executable.  */
+          if(kwsys_shared_forward_is_executable(result))
+            {
+            /* Found it.  */
+            result[length] = 0;
+            return 1;
+            }
           }
         }
 
@@ -692,6 +700,16 @@ static int kwsys_shared_forward_fullpath(const char* self_path,
     {
     /* Relative to self path.  */
     char temp_path[KWSYS_SHARED_FORWARD_MAXPATH];
+    if(strlen(self_path) + 1 + strlen(in_path) >= sizeof(temp_path))
+      {
+      if(desc)
+        {
+        fprintf(stderr, "Error converting %s \"%s%s%s\" to real path: "
+                "name is too long\n", desc, self_path,
+                kwsys_shared_forward_path_slash, in_path);
+        }
+      return 0;
+      }
     strcpy(temp_path, self_path);
     strcat(temp_path, kwsys_shared_forward_path_slash);
     strcat(temp_path, in_path);
@@ -856,6 +874,11 @@ static int @KWSYS_NAMESPACE@_shared_forward_to_real(int argc, char** argv_in)
         if(argc > 2)
           {
           /* Use the command line given.  */
+          if(strlen(argv[2]) >= sizeof(exe))
+            {
+            fprintf(stderr, "The command \"%s\" is too long.\n", argv[2]);
+            return 1;
+            }
           strcpy(exe, argv[2]);
           argv += 2;
           argc -= 2;
-- 
2.43.0


From 86fb9b9b6caca7a8f4d6a725e1942901f2024b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 117/135] fix: SharedForward: a directory in PATH with the
 launcher's name is not the launcher

---
 vital/kwiversys/SharedForward.h.in | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index 27e0743..b27a532 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -584,6 +584,14 @@ static int kwsys_shared_forward_is_executable(const char* f)
 # define KWSYS_SHARED_FORWARD_ACCESS_OK X_OK
 #else
 # define KWSYS_SHARED_FORWARD_ACCESS_OK 04
+#endif
+#if !defined(_WIN32) || defined(__CYGWIN__)
+  /* A directory may be searchable but it cannot be executed.  */
+  struct stat fs;
+  if(stat(f, &fs) != 0 || S_ISDIR(fs.st_mode))
+    {
+    return 0;
+    }
 #endif
   if(KWSYS_SHARED_FORWARD_ACCESS(f, KWSYS_SHARED_FORWARD_ACCESS_OK) == 0)
     {
-- 
2.43.0


From 3ef5d975e0e331729130afee6a88a30ab72024fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 118/135] fix: SharedForward: find the build tree's files when
 called from within the configuration folder

---
 vital/kwiversys/SharedForward.h.in | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index b27a532..53067bc 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -782,8 +782,9 @@ static int kwsys_shared_forward_get_settings(const char* self_path,
 #endif
 
 #if defined(KWSYS_SHARED_FORWARD_CONFIG_NAME)
-    /* Remove the configuration directory from self_path.  */
-    kwsys_shared_forward_dirname(self_path, self_path_logical);
+    /* Remove the configuration directory from the real self path.  The
+       self path as given may be "." or a symbolic link.  */
+    kwsys_shared_forward_dirname(self_path_real, self_path_logical);
 #endif
     }
   else
-- 
2.43.0


From 4a9d3da8817532ebfdbe9f3c53887dea8ba3dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 119/135] fix: SharedForward: keep an old search path of any
 length and add no empty entry to the new one

---
 vital/kwiversys/SharedForward.h.in | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/vital/kwiversys/SharedForward.h.in b/vital/kwiversys/SharedForward.h.in
index 53067bc..467b1e9 100644
--- a/vital/kwiversys/SharedForward.h.in
+++ b/vital/kwiversys/SharedForward.h.in
@@ -867,14 +867,27 @@ static int @KWSYS_NAMESPACE@_shared_forward_to_real(int argc, char** argv_in)
       {
       /* Append the old runtime search path.  */
       const char* old_ldpath = getenv(KWSYS_SHARED_FORWARD_LDPATH);
-      if(old_ldpath)
+      char* ldpath = kwsys_shared_forward_ldpath;
+      if(old_ldpath && *old_ldpath)
         {
-        strcat(kwsys_shared_forward_ldpath, kwsys_shared_forward_path_sep);
-        strcat(kwsys_shared_forward_ldpath, old_ldpath);
+        size_t length = strlen(kwsys_shared_forward_ldpath);
+        ldpath = (char*)malloc(length + 1 + strlen(old_ldpath) + 1);
+        if(!ldpath)
+          {
+          fprintf(stderr, "Error running \"%s\": out of memory\n", argv[0]);
+          return 1;
+          }
+        strcpy(ldpath, kwsys_shared_forward_ldpath);
+        /* An empty path entry would name the current directory.  */
+        if(ldpath[length-1] != '=')
+          {
+          strcat(ldpath, kwsys_shared_forward_path_sep);
+          }
+        strcat(ldpath, old_ldpath);
         }
 
       /* Store the environment variable.  */
-      putenv(kwsys_shared_forward_ldpath);
+      putenv(ldpath);
 
 #if defined(KWSYS_SHARED_FORWARD_OPTION_COMMAND)
       /* Look for the command line replacement option.  */
@@ -906,7 +919,7 @@ static int @KWSYS_NAMESPACE@_shared_forward_to_real(int argc, char** argv_in)
       /* Look for the print command line option.  */
       if(argc > 1 && strcmp(argv[1], KWSYS_SHARED_FORWARD_OPTION_PRINT) == 0)
         {
-        fprintf(stdout, "%s\n", kwsys_shared_forward_ldpath);
+        fprintf(stdout, "%s\n", ldpath);
         fprintf(stdout, "%s\n", exe);
         return 0;
         }
-- 
2.43.0


From 1bcdf5fe6feba2f74258b86f9888b5ed2c505e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:54 +0000
Subject: [PATCH 120/135] fix: FStream::ReadBOM: leave short streams readable

---
 vital/kwiversys/FStream.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vital/kwiversys/FStream.cxx b/vital/kwiversys/FStream.cxx
index 018652c..407051d 100644
--- a/vital/kwiversys/FStream.cxx
+++ b/vital/kwiversys/FStream.cxx
@@ -34,6 +34,8 @@ BOM ReadBOM(std::istream& in)
   in.read(reinterpret_cast<char*>(bom), 2);
   if(!in.good())
     {
+    // Too short for a BOM.  Leave what there is readable.
+    in.clear();
     in.seekg(orig);
     return BOM_None;
     }
@@ -65,9 +67,11 @@ BOM ReadBOM(std::istream& in)
       {
       return BOM_UTF32LE;
       }
+    in.clear();
     in.seekg(p);
     return BOM_UTF16LE;
     }
+  in.clear();
   in.seekg(orig);
   return BOM_None;
 }
-- 
2.43.0


From 35b920955156a8106e427756b070b5be6921525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:04 +0000
Subject: [PATCH 121/135] fix: Find the UTM zone of longitudes far from zero
 without overflow or endless loop

---
 vital/algo/geo_map.cxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vital/algo/geo_map.cxx b/vital/algo/geo_map.cxx
index 746ad7d..0974ab4 100644
--- a/vital/algo/geo_map.cxx
+++ b/vital/algo/geo_map.cxx
@@ -34,6 +34,9 @@
  */
 
 #include "geo_map.h"
+
+#include <cmath>
+
 #include <vital/algo/algorithm.txx>
 
 /// \cond DoxygenSuppress
@@ -57,13 +60,14 @@ int
 geo_map
 ::latlon_zone(double /*lat*/, double lon) const
 {
-  while(lon < -180)
+  lon = std::fmod(lon + 180, 360);
+  if(lon < 0)
   {
     lon += 360;
   }
   // this simplifed implementation ignores the exceptions to the
   // standard UTM zone rules (e.g. around Norway)
-  return (static_cast<int>((lon + 180) / 6) % 60) + 1;
+  return (static_cast<int>(lon / 6) % 60) + 1;
 }
 
 } } } // end namespace
-- 
2.43.0


From c88ec5fb33265be768364002324f555b1b15da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:23 +0000
Subject: [PATCH 122/135] fix: Let the C helper headers of tracks and track
 sets be included together

---
 vital/bindings/c/helpers/track_set.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vital/bindings/c/helpers/track_set.h b/vital/bindings/c/helpers/track_set.h
index 256042c..b81aff2 100644
--- a/vital/bindings/c/helpers/track_set.h
+++ b/vital/bindings/c/helpers/track_set.h
@@ -33,8 +33,8 @@
  * \brief C Interface vital::track_set helpers
  */
 
-#ifndef VITAL_C_HELPERS_TRACK_H_
-#define VITAL_C_HELPERS_TRACK_H_
+#ifndef VITAL_C_HELPERS_TRACK_SET_H_
+#define VITAL_C_HELPERS_TRACK_SET_H_
 
 #include <vital/types/track_set.h>
 
@@ -51,4 +51,4 @@ SharedPointerCache< vital::track_set, vital_trackset_t >
 
 } }
 
-#endif // VITAL_C_HELPERS_TRACK_H_
+#endif // VITAL_C_HELPERS_TRACK_SET_H_
-- 
2.43.0


From 65e159d97041fecac54d9048c0da300f6b0f5e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:47 +0000
Subject: [PATCH 123/135] fix: Find the C library from Python where
 LD_LIBRARY_PATH is not set

---
 vital/bindings/python/vital/util/find_vital_library.py.in | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vital/bindings/python/vital/util/find_vital_library.py.in b/vital/bindings/python/vital/util/find_vital_library.py.in
index c56ef03..ad988ff 100644
--- a/vital/bindings/python/vital/util/find_vital_library.py.in
+++ b/vital/bindings/python/vital/util/find_vital_library.py.in
@@ -127,7 +127,8 @@ def _find_vital_library_path():
 
     search_dirs = [os.path.dirname(os.path.abspath(__file__))]
     # NOTE this is not cover all possible systems
-    search_dirs.extend(os.environ['LD_LIBRARY_PATH'].split(_system_path_separator()))
+    if 'LD_LIBRARY_PATH' in os.environ:
+        search_dirs.extend(os.environ['LD_LIBRARY_PATH'].split(_system_path_separator()))
     if __BUILD_DIR__:
         search_dirs = [__BUILD_DIR__] + search_dirs
 
@@ -167,7 +168,8 @@ def find_library_path(lib):
     search_dirs = [os.path.dirname(os.path.abspath(__file__))]
 
     # NOTE this is not cover all possible systems
-    search_dirs.extend(os.environ['LD_LIBRARY_PATH'].split(_system_path_separator()))
+    if 'LD_LIBRARY_PATH' in os.environ:
+        search_dirs.extend(os.environ['LD_LIBRARY_PATH'].split(_system_path_separator()))
 
     if __BUILD_DIR__:
         search_dirs = [__BUILD_DIR__] + search_dirs
-- 
2.43.0


From fe433e783ea198cefdc9b623cfc08b9e31e80272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:38 +0000
Subject: [PATCH 124/135] fix: Leave no temporary file or descriptor behind
 when ConfigBlock.as_string fails

---
 vital/bindings/python/vital/config_block.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vital/bindings/python/vital/config_block.py b/vital/bindings/python/vital/config_block.py
index 1475643..1847023 100644
--- a/vital/bindings/python/vital/config_block.py
+++ b/vital/bindings/python/vital/config_block.py
@@ -458,12 +458,13 @@ class ConfigBlock (VitalObject):
 
         """
         fd, fp = tempfile.mkstemp()
-        self.write(fp)
-        with open(fp) as written_config:
-            s = written_config.read()
-        os.close(fd)
-        os.remove(fp)
-        return s
+        try:
+            self.write(fp)
+            with open(fp) as written_config:
+                return written_config.read()
+        finally:
+            os.close(fd)
+            os.remove(fp)
 
 
 def _initialize_cb_statics():
-- 
2.43.0


From 5f5227d561da1b7d631c0036f0f70da768027289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:38 +0000
Subject: [PATCH 125/135] fix: ConfigBlock.get_description: answer None for a
 key that is not there

---
 vital/bindings/python/vital/config_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/bindings/python/vital/config_block.py b/vital/bindings/python/vital/config_block.py
index 1847023..3449592 100644
--- a/vital/bindings/python/vital/config_block.py
+++ b/vital/bindings/python/vital/config_block.py
@@ -259,7 +259,7 @@ class ConfigBlock (VitalObject):
         cb_get_descr.restype = self.MST_TYPE_PTR
 
         mst_ptr = cb_get_descr(self, key)
-        if mst_ptr is not None:
+        if mst_ptr:
             s = mst_ptr.contents.str
             self.MST_FREE(mst_ptr)
             return s
-- 
2.43.0


From c8a76e513741f9e9b8d710f32951a93c0c63919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:38 +0000
Subject: [PATCH 126/135] fix: Let Python objects without an instance be
 dropped without an error

---
 vital/bindings/python/vital/camera_map.py      | 9 +++++----
 vital/bindings/python/vital/image_container.py | 9 +++++----
 vital/bindings/python/vital/track.py           | 9 +++++----
 vital/bindings/python/vital/track_set.py       | 9 +++++----
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/vital/bindings/python/vital/camera_map.py b/vital/bindings/python/vital/camera_map.py
index ec22167..536673d 100644
--- a/vital/bindings/python/vital/camera_map.py
+++ b/vital/bindings/python/vital/camera_map.py
@@ -79,10 +79,11 @@ class CameraMap (VitalObject):
                                "instance")
 
     def _destroy(self):
-        cm_del = self.VITAL_LIB.vital_camera_map_destroy
-        cm_del.argtypes = [self.C_TYPE_PTR, VitalErrorHandle.C_TYPE_PTR]
-        with VitalErrorHandle() as eh:
-            cm_del(self, eh)
+        if self._inst_ptr:
+            cm_del = self.VITAL_LIB.vital_camera_map_destroy
+            cm_del.argtypes = [self.C_TYPE_PTR, VitalErrorHandle.C_TYPE_PTR]
+            with VitalErrorHandle() as eh:
+                cm_del(self, eh)
 
     def size(self):
         """
diff --git a/vital/bindings/python/vital/image_container.py b/vital/bindings/python/vital/image_container.py
index 8e0074c..db454d5 100644
--- a/vital/bindings/python/vital/image_container.py
+++ b/vital/bindings/python/vital/image_container.py
@@ -68,10 +68,11 @@ class ImageContainer (VitalObject):
                                "instance.")
 
     def _destroy(self):
-        imgc_del = self.VITAL_LIB.vital_image_container_destroy
-        imgc_del.argtypes = [self.C_TYPE_PTR, VitalErrorHandle.C_TYPE_PTR]
-        with VitalErrorHandle() as eh:
-            imgc_del(self, eh)
+        if self._inst_ptr:
+            imgc_del = self.VITAL_LIB.vital_image_container_destroy
+            imgc_del.argtypes = [self.C_TYPE_PTR, VitalErrorHandle.C_TYPE_PTR]
+            with VitalErrorHandle() as eh:
+                imgc_del(self, eh)
 
     def size(self):
         """
diff --git a/vital/bindings/python/vital/track.py b/vital/bindings/python/vital/track.py
index 17a7950..29b1879 100644
--- a/vital/bindings/python/vital/track.py
+++ b/vital/bindings/python/vital/track.py
@@ -58,10 +58,11 @@ class Track (VitalObject):
                                "pointer returned)")
 
     def _destroy(self):
-        t_del = self.VITAL_LIB['vital_track_destroy']
-        t_del.argtypes = [self.C_TYPE_PTR, VitalErrorHandle.C_TYPE_PTR]
-        with VitalErrorHandle() as eh:
-            t_del(self, eh)
+        if self._inst_ptr:
+            t_del = self.VITAL_LIB['vital_track_destroy']
+            t_del.argtypes = [self.C_TYPE_PTR, VitalErrorHandle.C_TYPE_PTR]
+            with VitalErrorHandle() as eh:
+                t_del(self, eh)
 
     def __len__(self):
         """
diff --git a/vital/bindings/python/vital/track_set.py b/vital/bindings/python/vital/track_set.py
index 10f1f07..2ba6f58 100644
--- a/vital/bindings/python/vital/track_set.py
+++ b/vital/bindings/python/vital/track_set.py
@@ -95,10 +95,11 @@ class TrackSet (VitalObject):
                                "(NULL pointer returned)")
 
     def _destroy(self):
-        ts_del = self.VITAL_LIB['vital_trackset_destroy']
-        ts_del.argtypes = [self.C_TYPE_PTR, VitalErrorHandle.C_TYPE_PTR]
-        with VitalErrorHandle() as eh:
-            ts_del(self, eh)
+        if self._inst_ptr:
+            ts_del = self.VITAL_LIB['vital_trackset_destroy']
+            ts_del.argtypes = [self.C_TYPE_PTR, VitalErrorHandle.C_TYPE_PTR]
+            with VitalErrorHandle() as eh:
+                ts_del(self, eh)
 
     def __len__(self):
         ts_size = self.VITAL_LIB['vital_trackset_size']
-- 
2.43.0


From 053813ffb066e45e68ee4b11ef83563018be7bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 127/135] fix: Let VITAL_THROW_MSG compile and throw the
 message it is given

---
 vital/exceptions/base.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vital/exceptions/base.h b/vital/exceptions/base.h
index 2defe11..84ffc59 100644
--- a/vital/exceptions/base.h
+++ b/vital/exceptions/base.h
@@ -39,6 +39,7 @@
 #include <vital/vital_config.h>
 #include <vital/vital_export.h>
 
+#include <sstream>
 #include <string>
 #include <exception>
 
@@ -104,9 +105,7 @@ protected:
 #define VITAL_THROW_MSG(E, MSG) do {           \
     std::stringstream _oss_;                    \
     _oss_ << MSG;                               \
-    E except;                                   \
-    except.set_location( __file, __line );      \
-    throw E( MSG.str() );                       \
+    throw E( _oss_.str() );                     \
   } while (0)
 
 #endif // VITAL_CORE_EXCEPTIONS_BASE_H
-- 
2.43.0


From 0ce43e567aed2330a773259569f1cc97040b9b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:39 +0000
Subject: [PATCH 128/135] fix: Keep the reason of an invalid matrix operation
 in the exception

---
 vital/exceptions/math.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/exceptions/math.cxx b/vital/exceptions/math.cxx
index 8d85e8e..3aad037 100644
--- a/vital/exceptions/math.cxx
+++ b/vital/exceptions/math.cxx
@@ -77,6 +77,7 @@ point_maps_to_infinity
 
 invalid_matrix_operation
 ::invalid_matrix_operation(std::string reason) VITAL_NOTHROW
+  : m_reason(reason)
 {
   m_what = "Invalid operation: " + reason;
 }
-- 
2.43.0


From 9ccd9292c25fa2b0f0c29bed4400ef0f81fb973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:05 +0000
Subject: [PATCH 129/135] fix: write and read configuration values the same
 under every locale

---
 vital/config/config_block.h    | 5 +++++
 vital/types/timestamp_config.h | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/vital/config/config_block.h b/vital/config/config_block.h
index 1b9129c..57a429f 100644
--- a/vital/config/config_block.h
+++ b/vital/config/config_block.h
@@ -458,6 +458,8 @@ config_block_get_value_cast_default( config_block_value_t const& value )
   try
   {
     std::stringstream interpreter;
+    // the text does not depend on the locale of the application
+    interpreter.imbue( std::locale::classic() );
     interpreter << value; // string value
 
     R result;
@@ -622,6 +624,9 @@ config_block_set_value_cast_default( T const& value )
 {
   std::stringstream val_str;
 
+  // The text does not depend on the locale of the application
+  val_str.imbue( std::locale::classic() );
+
   // Enough digits to get the same floating point value back
   typedef std::numeric_limits< typename std::decay< T >::type > limits_t;
   val_str.precision( limits_t::is_specialized
diff --git a/vital/types/timestamp_config.h b/vital/types/timestamp_config.h
index 9b64fe2..8081e10 100644
--- a/vital/types/timestamp_config.h
+++ b/vital/types/timestamp_config.h
@@ -60,6 +60,7 @@ config_block_get_value_cast( config_block_value_t const& value )
   timestamp obj;
 
   std::stringstream str; // add string to stream
+  str.imbue( std::locale::classic() );
   str << value;
 
   timestamp::time_t t( 0 );
@@ -96,6 +97,7 @@ config_block_value_t
 config_block_set_value_cast( timestamp const& value )
 {
   std::stringstream str;
+  str.imbue( std::locale::classic() );
 
   str << value.get_time_usec() << " " << value.get_frame();
 
-- 
2.43.0


From d99103579c2df45c976c8f7ccee11fd6575352dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:05 +0000
Subject: [PATCH 130/135] fix: do not group the digits of SYSENV numbers under
 any locale

---
 vital/config/token_type_sysenv.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vital/config/token_type_sysenv.cxx b/vital/config/token_type_sysenv.cxx
index 97ed489..287b935 100644
--- a/vital/config/token_type_sysenv.cxx
+++ b/vital/config/token_type_sysenv.cxx
@@ -71,6 +71,7 @@ lookup_entry (std::string const& name, std::string& result)
   else if ("numproc" == name)   // number of processors/cores
   {
     std::stringstream sval;
+    sval.imbue( std::locale::classic() );
     unsigned int numCPU = m_sysinfo.GetNumberOfLogicalCPU();
     // unsigned int numCPU = m_sysinfo.GetNumberOfPhysicalCPU();
     sval << numCPU;
@@ -82,6 +83,7 @@ lookup_entry (std::string const& name, std::string& result)
   else if ("totalvirtualmemory" == name)
   {
     std::stringstream sval;
+    sval.imbue( std::locale::classic() );
     sval <<  m_sysinfo.GetTotalVirtualMemory();
     result = sval.str();
     return true;
@@ -91,6 +93,7 @@ lookup_entry (std::string const& name, std::string& result)
   else if ("availablevirtualmemory" == name)
   {
     std::stringstream sval;
+    sval.imbue( std::locale::classic() );
     sval << m_sysinfo.GetAvailableVirtualMemory();
     result = sval.str();
     return true;
@@ -100,6 +103,7 @@ lookup_entry (std::string const& name, std::string& result)
   else if ("totalphysicalmemory" == name)
   {
     std::stringstream sval;
+    sval.imbue( std::locale::classic() );
     sval << m_sysinfo.GetTotalPhysicalMemory();
     result = sval.str();
     return true;
@@ -109,6 +113,7 @@ lookup_entry (std::string const& name, std::string& result)
   else if ("availablephysicalmemory" == name)
   {
     std::stringstream sval;
+    sval.imbue( std::locale::classic() );
     sval << m_sysinfo.GetAvailablePhysicalMemory();
     result = sval.str();
     return true;
-- 
2.43.0


From 927be86c61e5887390aaa1d3e08310c2b5b1cb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:05 +0000
Subject: [PATCH 131/135] fix: write and read camera files the same under every
 locale

---
 vital/io/camera_io.cxx | 4 +++-
 vital/io/eigen_io.h    | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/vital/io/camera_io.cxx b/vital/io/camera_io.cxx
index b024d59..7169df8 100644
--- a/vital/io/camera_io.cxx
+++ b/vital/io/camera_io.cxx
@@ -69,7 +69,8 @@ read_krtd_file( path_t const& file_path )
                                               "path." );
   }
 
-  // Read the file
+  // Read the file, whose numbers do not depend on the locale
+  input_stream.imbue( std::locale::classic() );
   std::shared_ptr< simple_camera > cam = std::make_shared< simple_camera >();
   input_stream >> *cam;
   return cam;
@@ -121,6 +122,7 @@ write_krtd_file( camera const&  cam,
   {
     throw file_write_exception( file_path, "Could not open file for writing." );
   }
+  ofile.imbue( std::locale::classic() );
   ofile << cam;
   ofile.close();
   if ( ! ofile )
diff --git a/vital/io/eigen_io.h b/vital/io/eigen_io.h
index fbdecc8..944e400 100644
--- a/vital/io/eigen_io.h
+++ b/vital/io/eigen_io.h
@@ -111,6 +111,7 @@ operator>>( std::istream& s, Matrix< T, Dynamic, 1 >& v )
     s.clear( std::ios::eofbit );
   }
   std::istringstream numbers( line );
+  numbers.imbue( s.getloc() );
   while ( ! ( numbers >> std::ws ).eof() )
   {
     T value;
-- 
2.43.0


From 3a67b80280446625f547b0ff9a819556a61aab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:05 +0000
Subject: [PATCH 132/135] fix: write and read track files the same under every
 locale

---
 vital/io/track_set_io.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/io/track_set_io.cxx b/vital/io/track_set_io.cxx
index 7850795..44bea5c 100644
--- a/vital/io/track_set_io.cxx
+++ b/vital/io/track_set_io.cxx
@@ -82,6 +82,7 @@ read_track_file( path_t const& file_path )
   for ( std::string line; std::getline( input_stream, line ); )
   {
     std::stringstream ss( line );
+    ss.imbue( std::locale::classic() );
     if ( ( ss >> std::ws ).eof() )
     {
       continue;
@@ -183,6 +184,7 @@ write_track_file( track_set_sptr const& tracks,
   {
     throw file_write_exception( file_path, "Could not open file for writing." );
   }
+  ofile.imbue( std::locale::classic() );
   ofile.precision( std::numeric_limits< double >::max_digits10 );
   VITAL_FOREACH( vital::track_sptr t, trks )
   {
-- 
2.43.0


From 93ed6f98fa78f67a02c61bf7b67823391642c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:05 +0000
Subject: [PATCH 133/135] fix: write and read landmark files the same under
 every locale

---
 vital/io/landmark_map_io.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vital/io/landmark_map_io.cxx b/vital/io/landmark_map_io.cxx
index 185dbbb..06fdb4d 100644
--- a/vital/io/landmark_map_io.cxx
+++ b/vital/io/landmark_map_io.cxx
@@ -90,6 +90,7 @@ write_ply_file( landmark_map_sptr const&  landmarks,
   {
     throw file_write_exception( file_path, "Could not open file for writing." );
   }
+  ofile.imbue( std::locale::classic() );
   ofile.precision( std::numeric_limits< double >::max_digits10 );
   // write the PLY header
   ofile << "ply\n"
@@ -165,6 +166,7 @@ get_number( std::string const& token, T& value )
     return false;
   }
   std::istringstream iss( token );
+  iss.imbue( std::locale::classic() );
   return ( iss >> value ) && iss.peek() == std::istringstream::traits_type::eof();
 }
 
-- 
2.43.0


From fa8aa3fb9a5798328095828d1da4d8af7c43b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:51 +0000
Subject: [PATCH 134/135] fix: do not group the digits of a source line under
 any locale

---
 vital/logger/default_logger.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vital/logger/default_logger.cxx b/vital/logger/default_logger.cxx
index bee3210..7b6c027 100644
--- a/vital/logger/default_logger.cxx
+++ b/vital/logger/default_logger.cxx
@@ -237,6 +237,7 @@ private:
 
     // format location
     std::stringstream loc;
+    loc.imbue( std::locale::classic() );
     loc << location.get_file_name() << "(" << location.get_line_number() << "): ";
 
     log_message_i( level, msg, loc.str() );
-- 
2.43.0


From 9062313a15f709f10a98fe45f73188143e532dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:13 +0000
Subject: [PATCH 135/135] fix: do not group the digits of a line number in a
 configuration file under any locale

---
 vital/config/config_block_io.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vital/config/config_block_io.cxx b/vital/config/config_block_io.cxx
index 94ca278..dc99650 100644
--- a/vital/config/config_block_io.cxx
+++ b/vital/config/config_block_io.cxx
@@ -462,7 +462,7 @@ void write_config( config_block_sptr const& config,
     int line;
     if ( config->get_location( key, file, line ) )
     {
-      ofile << "# defined - " << file << ":" << line << "\n";
+      ofile << "# defined - " << file << ":" << std::to_string( line ) << "\n";
     }
   }
   ofile.flush();
-- 
2.43.0


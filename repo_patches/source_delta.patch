From c67268dd31f03c0dae7a90dff23496c963be4c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 01/67] fix: DWARF 5 range-list entries with explicit start
 addresses ignore the base

DW_RLE_startx_endx, DW_RLE_startx_length and DW_RLE_start_length carry
complete addresses; only DW_RLE_offset_pair is relative to the current base
address (DWARF 5, section 2.17.3).
---
 util/symbolize/dwarf3ranges.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/dwarf3ranges.cc b/util/symbolize/dwarf3ranges.cc
index 13f5a9a..48c8b85 100644
--- a/util/symbolize/dwarf3ranges.cc
+++ b/util/symbolize/dwarf3ranges.cc
@@ -123,7 +123,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             CHECK(stop_ptr <= (addr_buffer_ + addr_buffer_length_));
             uint64 stop = reader_->ReadAddress(stop_ptr);
             if (start != stop)
-              ranges->push_back (make_pair (start + base, stop + base));
+              ranges->push_back (make_pair (start, stop));
             break;
           }
           case DW_RLE_startx_length: {
@@ -138,7 +138,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (start + base, start + base + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           case DW_RLE_offset_pair: {
@@ -173,7 +173,7 @@ void AddressRangeList::ReadDwarfRngLists(uint64 base,
             uint64 range_length = reader_->ReadUnsignedLEB128(pos, &len); pos += len;
             CHECK(pos <= rnglist_buffer_ + rnglist_buffer_length_);
             if (range_length != 0)
-              ranges->push_back (make_pair (base + start, base + start + range_length));
+              ranges->push_back (make_pair (start, start + range_length));
             break;
           }
           default: { 
-- 
2.43.0


From 065a9d01d4de37c834bbc4079053296226a5b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 02/67] fix: report failed writes of text sample files

---
 sample_reader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sample_reader.cc b/sample_reader.cc
index ac5d6ab..a9108c1 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -252,7 +252,11 @@ bool TextSampleReaderWriter::Write(const char *aux_info) {
   if (aux_info) {
     fprintf(fp, "%s", aux_info);
   }
-  fclose(fp);
+  bool write_error = ferror(fp) != 0;
+  if (fclose(fp) != 0 || write_error) {
+    LOG(ERROR) << "Error writing to " << profile_file_;
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 9a5ceacb2075b23fb91fb2b31267675e6c15b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 03/67] fix: DWARF 5 line tables number directories and files
 from 0

---
 util/symbolize/addr2line_inlinestack.cc |  4 ++--
 util/symbolize/dwarf2reader.cc          |  7 ++++---
 util/symbolize/functioninfo.cc          | 10 +++++++++-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index f68f6e1..aea98c9 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -265,7 +265,7 @@ void InlineStackHandler::ProcessAttributeUnsigned(
   if (!subprogram_stack_.empty()) {
     switch (attr) {
       case DW_AT_call_file: {
-        if (data == 0 || data >= file_names_->size()) {
+        if ((data == 0 && dwarf_version_ < 5) || data >= file_names_->size()) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
@@ -468,7 +468,7 @@ void InlineStackHandler::ProcessAttributeSigned(
       case DW_AT_call_file: {
         CHECK(form == DW_FORM_implicit_const);
 
-        if (data == 0 || data >= file_names_->size()) {
+        if ((data == 0 && dwarf_version_ < 5) || data >= file_names_->size()) {
           LOG(WARNING) << "unexpected reference to file_num " << data;
           break;
         }
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 072665f..d49227d 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1612,7 +1612,8 @@ void LineInfo::ReadHeader() {
     header_.actuals_offset = 0;
   } 
   else if (header_.version == 5) {
-    // Read the DWARF-5 directory table.
+    // Read the DWARF-5 directory table. Directories and files are numbered
+    // from 0 in DWARF 5.
     {
       static const uint32 kMaxTypes = 4;
       uint32 content_types[kMaxTypes];
@@ -1629,7 +1630,7 @@ void LineInfo::ReadHeader() {
       if (!AdvanceLinePtr(len, &lineptr)) {
         return;
       }
-      for (uint32 row = 1; row <= entry_count; ++row) {
+      for (uint32 row = 0; row < entry_count; ++row) {
         const char* dirname = NULL;
         for (uint32 col = 0; col < format_count; ++col) {
           if (content_types[col] == DW_LNCT_path) {
@@ -1667,7 +1668,7 @@ void LineInfo::ReadHeader() {
       if (!AdvanceLinePtr(len, &lineptr)) {
         return;
       }
-      for (uint32 row = 1; row <= entry_count; ++row) {
+      for (uint32 row = 0; row < entry_count; ++row) {
         const char* filename = NULL;
         uint64 dirindex = 0;
         uint64 mod_time = 0;
diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index ec0f904..fbc057b 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -85,6 +85,11 @@ bool CULineInfoHandler::ShouldAddAddress(uint64 address) const {
 }
 
 void CULineInfoHandler::DefineDir(const char *name, uint32 dir_num) {
+  // DWARF 5 tables define directory 0 themselves.
+  if (dir_num == 0) {
+    (*dirs_)[0] = name;
+    return;
+  }
   // These should never come out of order, actually
   CHECK_EQ(dir_num, dirs_->size());
   dirs_->push_back(name);
@@ -96,7 +101,10 @@ void CULineInfoHandler::DefineFile(const char *name,
   // These should never come out of order, actually.
   CHECK_GE(dir_num, 0);
   CHECK_LT(dir_num, dirs_->size());
-  if (file_num == files_->size() || file_num == -1) {
+  if (file_num == 0) {
+    // DWARF 5 tables define file 0 themselves.
+    (*files_)[0] = std::make_pair(dir_num, name);
+  } else if (file_num == files_->size() || file_num == -1) {
     files_->push_back(std::make_pair(dir_num, name));
   } else {
     LOG(INFO) << "error in DefineFile";
-- 
2.43.0


From 05b37608e48eed20c7682cbcecaae72d1e0e6a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 04/67] fix: accept the MD5, size and timestamp columns of
 DWARF 5 file tables

---
 util/symbolize/dwarf2reader.cc | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index d49227d..a3221de 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -1451,6 +1451,16 @@ bool LineInfo::ReadUnsignedForm(uint32 form, uint64* value,
     if (!AdvanceLinePtr(2, lineptr)) {
       return false;
     }
+  } else if (form == DW_FORM_data4) {
+    *value = reader_->ReadFourBytes(*lineptr);
+    if (!AdvanceLinePtr(4, lineptr)) {
+      return false;
+    }
+  } else if (form == DW_FORM_data8) {
+    *value = reader_->ReadEightBytes(*lineptr);
+    if (!AdvanceLinePtr(8, lineptr)) {
+      return false;
+    }
   } else {
     return false;
   }
@@ -1653,7 +1663,7 @@ void LineInfo::ReadHeader() {
 
     // Read the DWARF-5 filename table.
     {
-      static const uint32 kMaxTypes = 4;
+      static const uint32 kMaxTypes = 8;
       uint32 content_types[kMaxTypes];
       uint32 content_forms[kMaxTypes];
       uint32 format_count;
@@ -1684,6 +1694,21 @@ void LineInfo::ReadHeader() {
               malformed_ = true;
               return;
             }
+          } else if (content_types[col] == DW_LNCT_timestamp) {
+            if (!ReadUnsignedForm(content_forms[col], &mod_time, &lineptr)) {
+              malformed_ = true;
+              return;
+            }
+          } else if (content_types[col] == DW_LNCT_size) {
+            if (!ReadUnsignedForm(content_forms[col], &filelength, &lineptr)) {
+              malformed_ = true;
+              return;
+            }
+          } else if (content_types[col] == DW_LNCT_MD5 &&
+                     content_forms[col] == DW_FORM_data16) {
+            if (!AdvanceLinePtr(16, &lineptr)) {
+              return;
+            }
           } else {
             malformed_ = true;
             return;
-- 
2.43.0


From d59505e76289533480308414e159d77c872f5a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 05/67] fix: DW_FORM_implicit_const values are signed

---
 util/symbolize/dwarf2reader.cc | 6 +++---
 util/symbolize/dwarf2reader.h  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index a3221de..f07dc3b 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -144,10 +144,10 @@ void CompilationUnit::ReadAbbrevs() {
       const enum DwarfAttribute name =
         static_cast<enum DwarfAttribute>(nametemp);
       const enum DwarfForm form = static_cast<enum DwarfForm>(formtemp);
-      uint32 value = 0;
+      int64 value = 0;
       if (form == DW_FORM_implicit_const) {
           DCHECK(abbrevptr < abbrev_start + abbrev_length);
-          value = reader_->ReadUnsignedLEB128(abbrevptr, &len);
+          value = reader_->ReadSignedLEB128(abbrevptr, &len);
           abbrevptr += len;
       }
 
@@ -606,7 +606,7 @@ uint64 CompilationUnit::Start() {
 // This is all boring data manipulation and calling of the handler.
 const char* CompilationUnit::ProcessAttribute(
     uint64 dieoffset, const char* start, enum DwarfAttribute attr,
-    enum DwarfForm form, uint32 value) {
+    enum DwarfForm form, int64 value) {
   size_t len;
 
   switch (form) {
diff --git a/util/symbolize/dwarf2reader.h b/util/symbolize/dwarf2reader.h
index 130f45e..2918a55 100644
--- a/util/symbolize/dwarf2reader.h
+++ b/util/symbolize/dwarf2reader.h
@@ -48,7 +48,7 @@ struct AttributeSpec {
     enum DwarfAttribute name;
     enum DwarfForm form;
     // For the special case of DW_FORM_implicit_const
-    uint32 value;
+    int64 value;
 };
 
 
@@ -576,7 +576,7 @@ class CompilationUnit {
                                const char* start,
                                enum DwarfAttribute attr,
                                enum DwarfForm form,
-                               uint32 value = 0);
+                               int64 value = 0);
 
   // Called when we have an attribute with unsigned data to give to
   // our handler.  The attribute is for the DIE at OFFSET from the
-- 
2.43.0


From 43f07fa112c9ef8cb1a7e8f1658b1ec99f68699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 06/67] fix: read DW_FORM_loclistx attributes and skip
 DW_FORM_line_strp ones

---
 util/symbolize/dwarf2reader.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index f07dc3b..26fa1cd 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -268,6 +268,7 @@ const char* CompilationUnit::SkipAttribute(const char* start, enum DwarfForm for
     }
       break;
     case DW_FORM_strp:
+    case DW_FORM_line_strp:
     case DW_FORM_strp_sup:
     case DW_FORM_sec_offset:
         return start + reader_->OffsetSize();
@@ -793,9 +794,10 @@ const char* CompilationUnit::ProcessAttribute(
       return start + len;
       break; 
     }
+    case DW_FORM_loclistx:
     case DW_FORM_rnglistx: {
-      uint64 rng_index = reader_->ReadUnsignedLEB128(start, &len);
-      ProcessAttributeUnsigned(dieoffset, attr, form, rng_index);
+      uint64 list_index = reader_->ReadUnsignedLEB128(start, &len);
+      ProcessAttributeUnsigned(dieoffset, attr, form, list_index);
       return start + len;
       break;
     }
-- 
2.43.0


From a1376ebc21935cb07f55f756a453aab8d19fc65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 07/67] fix: read indexed address attributes of every size

---
 util/symbolize/dwarf2reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 26fa1cd..66c031d 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -809,7 +809,7 @@ const char* CompilationUnit::ProcessAttribute(
     case DW_FORM_GNU_addr_index: {
       CHECK(addr_buffer_ != NULL);
       uint64 addr_index = 0;
-      size_t len;
+      size_t len = 0;
       switch (form) {
         case DW_FORM_addrx1: {
           addr_index = reader_->ReadOneByte(start);
@@ -817,7 +817,7 @@ const char* CompilationUnit::ProcessAttribute(
             break;
         }
         case DW_FORM_addrx2: {
-          uint64 addr_index = reader_->ReadTwoBytes(start);
+          addr_index = reader_->ReadTwoBytes(start);
           len += 2;
             break;
         }
@@ -844,7 +844,7 @@ const char* CompilationUnit::ProcessAttribute(
                                                                 reader_->AddressSize())
                           );
       ProcessAttributeUnsigned(dieoffset, attr, form, v);
-      return start + 1;
+      return start + len;
       break;  
     }
     case DW_FORM_implicit_const: {
-- 
2.43.0


From b9c4b2c57a6cc03aca154e004a891cd2a9b4e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 08/67] fix: apply the unit's table bases to every attribute of
 its first entry

---
 util/symbolize/dwarf2reader.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 66c031d..29c11ce 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -872,6 +872,20 @@ void CompilationUnit::ProcessAttributeUnsigned(uint64 offset,
 const char* CompilationUnit::ProcessDIE(uint64 dieoffset,
                                         const char* start,
                                         const Abbrev& abbrev) {
+  // The unit's table bases also apply to attributes that come before them.
+  if (abbrev.tag == DW_TAG_compile_unit || abbrev.tag == DW_TAG_skeleton_unit) {
+    const char* attrptr = start;
+    for (const AttributeSpec& spec : abbrev.attributes) {
+      if (spec.form == DW_FORM_sec_offset) {
+        if (spec.name == DW_AT_str_offsets_base)
+          handler_->set_str_offset_base(reader_->ReadOffset(attrptr));
+        else if (spec.name == DW_AT_addr_base)
+          handler_->set_addr_base(reader_->ReadOffset(attrptr));
+      }
+      attrptr = SkipAttribute(attrptr, spec.form);
+    }
+  }
+
   for (AttributeList::const_iterator i = abbrev.attributes.begin();
        i != abbrev.attributes.end();
        i++)  {
-- 
2.43.0


From a125b61679c86d2b0fe903ac92b1eff90ddd37f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 09/67] fix: read ELF files without a section header table

---
 util/symbolize/elf_reader.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/util/symbolize/elf_reader.cc b/util/symbolize/elf_reader.cc
index 9787c11..409bb76 100644
--- a/util/symbolize/elf_reader.cc
+++ b/util/symbolize/elf_reader.cc
@@ -587,13 +587,11 @@ class ElfReaderImpl {
                     "file: " << path;
       return false;
     }
-    // Need a section header.
     if (header_.e_shoff == 0) {
+      // No sections; the program headers can still be read.
       LOG(ERROR) << "No section header: " << path;
-      return false;
-    }
-
-    if (header_.e_shnum == SHN_UNDEF) {
+      header_.e_shnum = SHN_UNDEF;
+    } else if (header_.e_shnum == SHN_UNDEF) {
       // The number of sections in the program header is only a 16-bit value. In
       // the event of overflow (greater than SHN_LORESERVE sections), e_shnum
       // will read SHN_UNDEF and the true number of section header table entries
-- 
2.43.0


From 537c563b2462186387e5d982b12ef90f62e64332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 10/67] fix: allow empty ELF sections at page boundaries

---
 util/symbolize/elf_reader.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/symbolize/elf_reader.cc b/util/symbolize/elf_reader.cc
index 409bb76..c0d6854 100644
--- a/util/symbolize/elf_reader.cc
+++ b/util/symbolize/elf_reader.cc
@@ -136,6 +136,12 @@ class ElfSectionReader {
     const size_t offset_aligned = header_.sh_offset - additional;
     section_size_ = header_.sh_size;
     size_aligned_ = section_size_ + additional;
+    if (size_aligned_ == 0) {
+      // An empty section at a page boundary: nothing can be mapped.
+      contents_aligned_ = NULL;
+      contents_ = "";
+      return;
+    }
     contents_aligned_ = mmap(NULL, size_aligned_, PROT_READ, MAP_SHARED,
                              fd, offset_aligned);
     if (contents_aligned_ == MAP_FAILED)
@@ -146,7 +152,8 @@ class ElfSectionReader {
   }
 
   ~ElfSectionReader() {
-    munmap(contents_aligned_, size_aligned_);
+    if (contents_aligned_ != NULL)
+      munmap(contents_aligned_, size_aligned_);
   }
 
   // Return the section header for this section.
-- 
2.43.0


From afc457dcbb9393405d5be0108213d5b6c8f45c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 11/67] fix: pass the right string sections to the line-table
 reader

---
 util/symbolize/addr2line_inlinestack.cc |  8 ++++----
 util/symbolize/functioninfo.cc          | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index aea98c9..1ce0c95 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -415,15 +415,15 @@ void InlineStackHandler::ProcessAttributeUnsigned(
           const char* str_buffer = NULL;
           uint64 str_buffer_size = 0;
           if (str_section != sections_.end()) {
-            str_buffer = line_str->second.first;
-            str_buffer_size = line_str->second.second;
+            str_buffer = str_section->second.first;
+            str_buffer_size = str_section->second.second;
           }
           SectionMap::const_iterator str_offsets = sections_.find(".debug_str_offsets");
           const char* str_offsets_buffer = NULL;
           uint64 str_offsets_size = 0;
           if (str_offsets != sections_.end()) {
-            str_offsets_buffer = line_str->second.first;
-            str_offsets_size = line_str->second.second;
+            str_offsets_buffer = str_offsets->second.first;
+            str_offsets_size = str_offsets->second.second;
           }                    
           LineInfo lireader(line_sect->second.first + data, line_sect->second.second - data,
                             line_str_buffer, line_str_size,
diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index fbc057b..567fbfa 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -265,15 +265,15 @@ void CUFunctionInfoHandler::ProcessAttributeUnsigned(uint64 offset,
     const char* str_buffer = NULL;
     uint64 str_buffer_size = 0;
     if (str_section != sections_.end()) {
-      str_buffer = line_str->second.first;
-      str_buffer_size = line_str->second.second;
+      str_buffer = str_section->second.first;
+      str_buffer_size = str_section->second.second;
     }
-    SectionMap::const_iterator str_offset = sections_.find(".debug_line_str");
+    SectionMap::const_iterator str_offset = sections_.find(".debug_str_offsets");
     const char* str_offset_buffer = NULL;
     uint64 str_offset_size = 0;
     if (str_offset != sections_.end()) {
-      str_offset_buffer = line_str->second.first;
-      str_offset_size = line_str->second.second;
+      str_offset_buffer = str_offset->second.first;
+      str_offset_size = str_offset->second.second;
     }                    
     LineInfo lireader(line_sect->second.first + data, line_sect->second.second - data,
                       line_str_buffer, line_str_size,
-- 
2.43.0


From 851690af60b3b0cc7ca3f8ff3d6c1bb937ba8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 12/67] fix: keep a line sequence that starts where another one
 ends

---
 util/symbolize/functioninfo.cc | 15 ++++++++++-----
 util/symbolize/functioninfo.h  | 12 ++++++++++++
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/util/symbolize/functioninfo.cc b/util/symbolize/functioninfo.cc
index 567fbfa..64ae6b2 100644
--- a/util/symbolize/functioninfo.cc
+++ b/util/symbolize/functioninfo.cc
@@ -57,6 +57,7 @@ void CULineInfoHandler::Init() {
   CHECK_EQ(files_->size(), 0);
   dirs_->push_back("");
   files_->push_back(std::make_pair(0, ""));
+  lines_before_sequence_ = linemap_->NumLogicals();
 }
 
 void CULineInfoHandler::StartCU() {
@@ -165,12 +166,16 @@ uint32 CULineInfoHandler::AddLogicalStack(uint32 logical_num) {
 void CULineInfoHandler::AddLine(uint64 address, uint32 file_num,
                                 uint32 line_num, uint32 column_num,
                                 uint32 discriminator, bool end_sequence) {
-  if (!ShouldAddAddress(address)) {
-    return;
-  }
   if (end_sequence) {
-    linemap_->AddActual(address, 0);
-  } else {
+    if (ShouldAddAddress(address)) {
+      if (GetLogicals() == NULL) {
+        linemap_->EndSequence(address, lines_before_sequence_);
+      } else {
+        linemap_->AddActual(address, 0);
+      }
+    }
+    lines_before_sequence_ = linemap_->NumLogicals();
+  } else if (ShouldAddAddress(address)) {
     if (GetLogicals() == NULL) {
       if (file_num < files_->size()) {
         const std::pair<int, const char *>& file = (*files_)[file_num];
diff --git a/util/symbolize/functioninfo.h b/util/symbolize/functioninfo.h
index dba3248..2003044 100644
--- a/util/symbolize/functioninfo.h
+++ b/util/symbolize/functioninfo.h
@@ -147,6 +147,16 @@ class AddressToLineMap {
     line_map_[addr] = logical_num;
   }
 
+  // Number of logical lines added so far.
+  uint32 NumLogicals() const { return logical_lines_.size(); }
+
+  // Ends at ADDR the sequence whose first line is numbered above
+  // LINES_BEFORE. Another sequence may start right at ADDR; its line stays.
+  void EndSequence(uint64 addr, uint32 lines_before) {
+    uint32 &line = line_map_[addr];
+    if (line > lines_before) line = 0;
+  }
+
   const_iterator begin() const {
     return line_map_.begin();
   }
@@ -292,6 +302,8 @@ class CULineInfoHandler: public LineInfoHandler {
   FileVector* files_;
   DirectoryVector* dirs_;
   const map<uint64_t, uint64_t> *sampled_functions_;
+  // Number of logical lines in linemap_ before the current sequence.
+  uint32 lines_before_sequence_;
   DISALLOW_EVIL_CONSTRUCTORS(CULineInfoHandler);
 };
 
-- 
2.43.0


From 9dba53eb2572d7313d8fc4c4079ef2fcdac12d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 13/67] fix: use the linkage name of a function wherever it is
 recorded

---
 legacy_addr2line.cc                     |  4 ++--
 util/symbolize/addr2line_inlinestack.cc | 17 +++++++++++++++++
 util/symbolize/addr2line_inlinestack.h  |  9 +++++++++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index 96d7e0c..6fadbd8 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -210,7 +210,7 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
   if (subprog != NULL) {
     const SubprogramInfo *declaration =
         inline_stack_handler_->GetDeclaration(subprog);
-    function_name = declaration->name().c_str();
+    function_name = inline_stack_handler_->GetName(subprog).c_str();
     start_line =
         inline_stack_handler_->GetAbstractOrigin(subprog)->callsite_line();
     if (start_line == 0)
@@ -254,7 +254,7 @@ void Google3Addr2line::GetInlineStack(uint64_t address,
     }
 
     stack->push_back(SourceInfo(
-        canonical_parent->name().c_str(),
+        inline_stack_handler_->GetName(subprog->parent()).c_str(),
         dir_name,
         subprog->callsite_filename(),
         start_line,
diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 1ce0c95..8d13fd0 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -250,6 +250,7 @@ void InlineStackHandler::ProcessAttributeString(
     if (attr == DW_AT_MIPS_linkage_name
         || attr == DW_AT_linkage_name) {
       subprogram_stack_.back()->set_name(data);
+      subprogram_stack_.back()->set_has_linkage_name();
     } else if (attr == DW_AT_name &&
                subprogram_stack_.back()->name().empty()) {
       subprogram_stack_.back()->set_name(data);
@@ -734,6 +735,22 @@ const SubprogramInfo *InlineStackHandler::GetDeclaration(
   return declaration;
 }
 
+const string& InlineStackHandler::GetName(
+    const SubprogramInfo *subprog) const {
+  CHECK(subprog->input_file_index() < subprograms_by_offset_maps_.size());
+  const SubprogramsByOffsetMap &subprograms_by_offset =
+      *subprograms_by_offset_maps_[subprog->input_file_index()];
+  const string *name = &subprog->name();
+  while (!subprog->has_linkage_name()) {
+    uint64 next = subprog->specification();
+    if (!next) next = subprog->abstract_origin();
+    if (!next) return *name;
+    subprog = subprograms_by_offset.find(next)->second;
+    if (name->empty()) name = &subprog->name();
+  }
+  return subprog->name();
+}
+
 const SubprogramInfo *InlineStackHandler::GetAbstractOrigin(
     const SubprogramInfo *subprog) const {
   const int input_file_index = subprog->input_file_index();
diff --git a/util/symbolize/addr2line_inlinestack.h b/util/symbolize/addr2line_inlinestack.h
index 0bf46cc..aaedb2c 100644
--- a/util/symbolize/addr2line_inlinestack.h
+++ b/util/symbolize/addr2line_inlinestack.h
@@ -66,6 +66,10 @@ class SubprogramInfo {
   void set_name(const char *name) { name_.assign(name); }
   const string& name() const { return name_; }
 
+  // Set when name() is the linkage (mangled) name.
+  void set_has_linkage_name() { has_linkage_name_ = true; }
+  bool has_linkage_name() const { return has_linkage_name_; }
+
   // Address ranges are specified in the DWARF file as a reference to
   // a range list or a pair of DIEs specifying a single range.
   // SwapAddressRanges is used for the first case, while the
@@ -141,6 +145,7 @@ class SubprogramInfo {
   uint64 specification_;
   int input_file_index_;
   bool used_;
+  bool has_linkage_name_ = false;
   DISALLOW_COPY_AND_ASSIGN(SubprogramInfo);
 };
 
@@ -233,6 +238,10 @@ class InlineStackHandler: public Dwarf2Handler {
 
   const SubprogramInfo *GetAbstractOrigin(const SubprogramInfo *subprog) const;
 
+  // Returns the name of a subprogram: the linkage name if the subprogram, its
+  // specification or its abstract origin has one, its first name otherwise.
+  const string& GetName(const SubprogramInfo *subprog) const;
+
   // Puts the start addresses of all inlined subprograms into the given set.
   void GetSubprogramAddresses(std::set<uint64> *addrs);
 
-- 
2.43.0


From 7412cc689b8aa3310f758524a14f5ef7de305f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:58 +0000
Subject: [PATCH 14/67] fix: read .debug_str_offsets in the symbolizer

---
 legacy_addr2line.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/legacy_addr2line.cc b/legacy_addr2line.cc
index 6fadbd8..7e24ae5 100644
--- a/legacy_addr2line.cc
+++ b/legacy_addr2line.cc
@@ -91,7 +91,8 @@ bool Google3Addr2line::Prepare() {
   SectionMap sections;
   const char *debug_section_names[] = {
     ".debug_line", ".debug_abbrev", ".debug_info", ".debug_str",
-    ".debug_ranges", ".debug_addr", ".debug_rnglists", ".debug_line_str"
+    ".debug_ranges", ".debug_addr", ".debug_rnglists", ".debug_line_str",
+    ".debug_str_offsets"
   };
   for (const char *section_name : debug_section_names) {
     size_t section_size;
-- 
2.43.0


From 0a562ae7bd3ff946ae8e61dbb1497fa069339825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 15/67] fix: ignore the address ranges of compilation units

---
 util/symbolize/addr2line_inlinestack.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 8d13fd0..6b5eccb 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -442,9 +442,6 @@ void InlineStackHandler::ProcessAttributeUnsigned(
       case DW_AT_str_offsets_base:
         str_offset_base_ = data;
         break;
-      case DW_AT_ranges: 
-        CHECK(form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8);
-        FALLTHROUGH_INTENDED;
       case DW_AT_GNU_ranges_base:
       case DW_AT_rnglists_base:
         ranges_base_ = data;     
-- 
2.43.0


From 8c4428c38659d3e69af5d1d3a4a3ffd27e86e70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 16/67] fix: accept every constant attribute stored in the
 abbreviation

---
 util/symbolize/addr2line_inlinestack.cc | 44 +++++--------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index 6b5eccb..e0ef7f0 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -299,13 +299,15 @@ void InlineStackHandler::ProcessAttributeUnsigned(
       case DW_AT_call_line:
         CHECK(form == DW_FORM_data1 ||
               form == DW_FORM_data2 ||
-              form == DW_FORM_data4);
+              form == DW_FORM_data4 ||
+              form == DW_FORM_implicit_const);
         subprogram_stack_.back()->set_callsite_line(data);
         break;
       case DW_AT_GNU_discriminator:
         CHECK(form == DW_FORM_data1 ||
               form == DW_FORM_data2 ||
-              form == DW_FORM_data4);
+              form == DW_FORM_data4 ||
+              form == DW_FORM_implicit_const);
         subprogram_stack_.back()->set_callsite_discr(data);
         break;
       case DW_AT_abstract_origin:
@@ -461,40 +463,10 @@ void InlineStackHandler::ProcessAttributeSigned(
     enum DwarfAttribute attr,
     enum DwarfForm form,
     int64 data) {
-
-    switch (attr) {
-      case DW_AT_call_file: {
-        CHECK(form == DW_FORM_implicit_const);
-
-        if ((data == 0 && dwarf_version_ < 5) || data >= file_names_->size()) {
-          LOG(WARNING) << "unexpected reference to file_num " << data;
-          break;
-        }
-
-        if (file_names_ != NULL) {
-          const FileVector::value_type &file =
-              (*file_names_)[data];
-          if (directory_names_ != NULL) {
-            if (file.first < directory_names_->size()) {
-              const char *dir = (*directory_names_)[file.first];
-              subprogram_stack_.back()->set_callsite_directory(dir);
-            } else {
-              LOG(WARNING) << "unexpected reference to dir_num " << file.first;
-            }
-          }
-          subprogram_stack_.back()->set_callsite_filename(file.second);
-        }
-        break;
-      }
-      case DW_AT_call_line:
-        CHECK(form == DW_FORM_implicit_const);
-        subprogram_stack_.back()->set_callsite_line(data);
-        break;
-
-      default:
-        break;
-    }      
-
+  // Any constant can be moved into the abbreviation by the compiler.
+  if (form == DW_FORM_implicit_const && data >= 0) {
+    ProcessAttributeUnsigned(offset, attr, form, data);
+  }
 }
 
 void InlineStackHandler::FindBadSubprograms(
-- 
2.43.0


From 471150bdc90a9612ed8ccaf6ea13064267167ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 17/67] fix: use DWARF 5 directory indexes as they are

---
 addr2line.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/addr2line.cc b/addr2line.cc
index af9fba1..5dbd6c2 100644
--- a/addr2line.cc
+++ b/addr2line.cc
@@ -125,11 +125,14 @@ void LLVMAddr2line::GetInlineStack(uint64_t address, SourceStack *stack) const {
     if (line_table->hasFileAtIndex(file)) {
       const auto &entry = line_table->Prologue.getFileNameEntry(file);
       file_name = llvm::dwarf::toString(entry.Name).value();
-      if (entry.DirIdx > 0 &&
-          entry.DirIdx <= line_table->Prologue.IncludeDirectories.size())
+      // Before DWARF 5 the table leaves out directory 0.
+      const uint64_t dir_base =
+          line_table->Prologue.getVersion() >= 5 ? 0 : 1;
+      if (entry.DirIdx > 0 && entry.DirIdx - dir_base <
+                                  line_table->Prologue.IncludeDirectories.size())
         dir_name =
             llvm::dwarf::toString(
-                line_table->Prologue.IncludeDirectories[entry.DirIdx - 1])
+                line_table->Prologue.IncludeDirectories[entry.DirIdx - dir_base])
                 .value();
     }
     stack->emplace_back(function_name, dir_name, file_name, start_line, line,
-- 
2.43.0


From 500cdcfdab07773c9a38746b62af2af753d49213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 18/67] fix: refuse compile units without a name in Addr2Cu

---
 addr2cu.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/addr2cu.cc b/addr2cu.cc
index d314003..a26f5f2 100644
--- a/addr2cu.cc
+++ b/addr2cu.cc
@@ -54,6 +54,11 @@ absl::StatusOr<absl::string_view> Addr2Cu::GetCompileUnitFileNameForCodeAddress(
   llvm::DWARFDie die = unit->getNonSkeletonUnitDIE();
   std::optional<llvm::DWARFFormValue> form_value =
       die.findRecursively({llvm::dwarf::DW_AT_name});
+  if (!form_value.has_value()) {
+    // For example, a DWARF 4 skeleton whose split debug info is not available.
+    return absl::FailedPreconditionError(absl::StrFormat(
+        "no name found for the compile unit on address 0x%x", code_address));
+  }
   llvm::StringRef name = llvm::dwarf::toStringRef(form_value, "");
   return absl::string_view(name.data(), name.size());
 }
-- 
2.43.0


From 1ff06da2a666653b438ec072ea9fd7286b815a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 19/67] fix: sum branch counters in 64 bits

---
 branch_frequencies.h | 2 +-
 lbr_aggregation.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/branch_frequencies.h b/branch_frequencies.h
index 1dee479..427a2c5 100644
--- a/branch_frequencies.h
+++ b/branch_frequencies.h
@@ -17,7 +17,7 @@ namespace devtools_crosstool_autofdo
     int64_t GetNumberOfTakenBranchCounters() const
     {
       return absl::c_accumulate(
-          taken_branch_counters, 0,
+          taken_branch_counters, int64_t{0},
           [](int64_t cnt, const auto &v)
           { return cnt + v.second; });
     }
diff --git a/lbr_aggregation.h b/lbr_aggregation.h
index 2d58359..ac6a9b4 100644
--- a/lbr_aggregation.h
+++ b/lbr_aggregation.h
@@ -21,7 +21,7 @@ namespace devtools_crosstool_autofdo {
 struct LbrAggregation {
   int64_t GetNumberOfBranchCounters() const {
     return absl::c_accumulate(
-        branch_counters, 0,
+        branch_counters, int64_t{0},
         [](int64_t cnt, const auto &v) { return cnt + v.second; });
   }
 
-- 
2.43.0


From 8a672340482a600b7c04c669a03fbacb45065882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 20/67] fix: compute overall progress in integers

---
 status_provider.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/status_provider.cc b/status_provider.cc
index 442f0e2..71c2f89 100644
--- a/status_provider.cc
+++ b/status_provider.cc
@@ -1,5 +1,6 @@
 #include "status_provider.h"
 
+#include <cstdint>
 #include <string>
 
 #include "third_party/abseil/absl/strings/str_format.h"
@@ -24,7 +25,8 @@ int MultiStatusProvider::GetProgress() const {
   if (i == n_status) return 100;
   int w = weighted_statuses_[i].weight;
   int p = weighted_statuses_[i].status_provider->GetProgress();
-  return (finished_weight + static_cast<float>(w) * p / 100) * 100 /
+  return (static_cast<int64_t>(finished_weight) * 100 +
+          static_cast<int64_t>(w) * p) /
          total_weight_;
 }
 }  // namespace devtools_crosstool_autofdo
-- 
2.43.0


From 59079a14dfcb14e00b4af9349fe3fa1655a7326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 21/67] fix: do not read before the start of short symbol names

---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 355df2f..b1dbd97 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -506,7 +506,7 @@ void SymbolMap::BuildSymbolMap() {
     static const std::regex kSuffixRe(R"(\.__part\.\d+$)");
     return (size != 0 &&
             (type == STT_FUNC || absl::EndsWith(name, ".cold") || std::regex_search(name, kSuffixRe)) &&
-            strcmp(name + strlen(name) - 4, "@plt") != 0);
+            !absl::EndsWith(name, "@plt"));
   };
   elf_reader.VisitSymbols(&symbol_reader);
 #if defined(HAVE_LLVM)
-- 
2.43.0


From 0895df742327fd9d99141bcca0abe7223a465351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 22/67] fix: use every event of a thread, whatever their order

---
 spe_tid_pid_provider.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/spe_tid_pid_provider.cc b/spe_tid_pid_provider.cc
index cfc8220..ae7af01 100644
--- a/spe_tid_pid_provider.cc
+++ b/spe_tid_pid_provider.cc
@@ -28,8 +28,6 @@ SpeTidPidProvider::SpeTidPidProvider(
     auto record = [&](int pid, int tid, uint64_t timestamp) {
       if (pid <= 0 || tid <= 0) return;
       absl::btree_map<uint64_t, pid_t>& pids = tids_to_pids_[tid];
-      // If the most recent entry is from this PID, don't bother adding it.
-      if (!pids.empty() && pids.rbegin()->second == pid) return;
       VLOG(7) << absl::StrCat("tid = ", tid, ", timestamp = ", timestamp,
                               ", pid = ", pid, "\n");
       pids.insert(std::make_pair(timestamp, pid));
@@ -48,6 +46,20 @@ SpeTidPidProvider::SpeTidPidProvider(
       record(info->pid(), info->tid(), info->sample_time_ns());
     }
   }
+
+  // Drop entries that only repeat the PID of the entry before them. This must
+  // wait for all events, because they are not necessarily in time order.
+  for (auto& [tid, pids] : tids_to_pids_) {
+    pid_t previous_pid = 0;
+    for (auto it = pids.begin(); it != pids.end();) {
+      if (it->second == previous_pid) {
+        it = pids.erase(it);
+      } else {
+        previous_pid = it->second;
+        ++it;
+      }
+    }
+  }
 }
 
 uint64_t SpeTidPidProvider::SpeTimestampToPerfTimestamp(uint64_t cycles) const {
-- 
2.43.0


From 14f41d3095b2591c236adb062aff60d0b519744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:21 +0000
Subject: [PATCH 23/67] fix: read the process events of trace recordings

---
 perfdata_reader.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/perfdata_reader.cc b/perfdata_reader.cc
index acdac31..f2ce52d 100644
--- a/perfdata_reader.cc
+++ b/perfdata_reader.cc
@@ -362,11 +362,8 @@ absl::Status PerfDataReader::ReadWithSpeRecordCallBack(
     absl::FunctionRef<void(const quipper::ArmSpeDecoder::Record &, int)>
         callback) const {
   quipper::PerfReader perf_reader;
-  // We don't need to serialise anything here, so let's exclude all major event
-  // types.
-  perf_reader.SetEventTypesToSkipWhenSerializing(
-      {quipper::PERF_RECORD_SAMPLE, quipper::PERF_RECORD_MMAP,
-       quipper::PERF_RECORD_FORK, quipper::PERF_RECORD_COMM});
+  // No event type can be skipped here: every event that says which process a
+  // thread belongs to is needed to attribute the records.
   if (!perf_reader.ReadFromPointer(perf_data_.buffer->getBufferStart(),
                                    perf_data_.buffer->getBufferSize())) {
     LOG(FATAL) << "Failed to read perf data file: " << perf_data_.description;
-- 
2.43.0


From 47249474730ef34dc75353ce3d5725294d0b1ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 24/67] fix: forget matched DSOs of the previous recording

---
 sample_reader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample_reader.cc b/sample_reader.cc
index a9108c1..0f1a45a 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -273,6 +273,8 @@ bool TextSampleReaderWriter::IsFileExist() const {
 bool PerfDataSampleReader::Append(const std::string &profile_file) {
   quipper::PerfReader reader;
   quipper::PerfParser parser(&reader);
+  // The cache is keyed by DSO objects owned by the parser of one file.
+  match_cache_.clear();
   if (!reader.ReadFile(profile_file) || !parser.ParseRawEvents()) {
     return false;
   }
-- 
2.43.0


From 62a6d1bff94f39f5ff6b7970d40a7a8554b9b5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 25/67] fix: ignore wrong-path entries when forming ranges

---
 sample_reader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sample_reader.cc b/sample_reader.cc
index 0f1a45a..d8e7992 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -318,10 +318,15 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
       branch_count_map_[Branch(event.branch_stack[start_index].from.offset(),
                                event.branch_stack[start_index].to.offset())]++;
     }
+    // Index of the most recent entry before `i` that is not on a wrong path:
+    // control really ran from entry `i` to that entry.
+    int next_index = start_index;
     for (int i = start_index + 1; i < event.branch_stack.size(); i++) {
       if (event.branch_stack[i].spec == quipper::PERF_BR_SPEC_WRONG_PATH) {
         continue;
       }
+      const auto &next_branch = event.branch_stack[next_index];
+      next_index = i;
 
       if (!MatchBinary(event.branch_stack[i].to)) {
         continue;
@@ -346,7 +351,7 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
         continue;
       }
       uint64_t begin = event.branch_stack[i].to.offset();
-      uint64_t end = event.branch_stack[i - 1].from.offset();
+      uint64_t end = next_branch.from.offset();
       // The interval between two taken branches should not be too large.
       if (end < begin || end - begin > (1 << 20)) {
         const std::string reason =
-- 
2.43.0


From c401310e72ae36911e0946d7ebfc821fbcd4d951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 26/67] fix: form no range that ends in another binary

---
 sample_reader.cc | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sample_reader.cc b/sample_reader.cc
index d8e7992..b552e11 100644
--- a/sample_reader.cc
+++ b/sample_reader.cc
@@ -350,17 +350,21 @@ bool PerfDataSampleReader::Append(const std::string &profile_file) {
         LOG(WARNING) << "Bogus LBR data (duplicated top entry)";
         continue;
       }
-      uint64_t begin = event.branch_stack[i].to.offset();
-      uint64_t end = next_branch.from.offset();
-      // The interval between two taken branches should not be too large.
-      if (end < begin || end - begin > (1 << 20)) {
-        const std::string reason =
-            (end < begin ? "(range is negative)" : "(range is too large)");
-        LOG(WARNING) << "Bogus LBR data " << reason << ": " << std::hex << begin
-                     << "->" << end << " index=" << i;
-        continue;
+      // Control may leave the binary unrecorded (e.g. through the kernel); then
+      // no straight-line range of this binary ends at the next branch.
+      if (MatchBinary(next_branch.from)) {
+        uint64_t begin = event.branch_stack[i].to.offset();
+        uint64_t end = next_branch.from.offset();
+        // The interval between two taken branches should not be too large.
+        if (end < begin || end - begin > (1 << 20)) {
+          const std::string reason =
+              (end < begin ? "(range is negative)" : "(range is too large)");
+          LOG(WARNING) << "Bogus LBR data " << reason << ": " << std::hex
+                       << begin << "->" << end << " index=" << i;
+          continue;
+        }
+        range_count_map_[Range(begin, end)]++;
       }
-      range_count_map_[Range(begin, end)]++;
       if (MatchBinary(event.branch_stack[i].from)) {
         branch_count_map_[Branch(event.branch_stack[i].from.offset(),
                                  event.branch_stack[i].to.offset())]++;
-- 
2.43.0


From b6d6c5d4e758dc3e2ac492b730de37a313ff2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 27/67] fix: add up call target counts of merged profiles

---
 profile_creator.cc |  2 +-
 symbol_map.cc      | 11 +++++++++--
 symbol_map.h       |  8 +++++++-
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index 09d68b6..a430135 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -253,7 +253,7 @@ bool ProfileCreator::ConvertPrefetchHints(const std::string &profile_file,
     if (!symbol_map->AddIndirectCallTarget(
             *name, stack,
             "__prefetch_" + hint.type + "_" + std::to_string(prefetch_index),
-            static_cast<uint64_t>(delta))) {
+            static_cast<uint64_t>(delta), SymbolMap::PREFETCH_HINTS)) {
       LOG(WARNING) << "Ignoring address " << std::hex << pc
                    << ". Could not add an indirect call target. Likely the "
                       "inline stack is empty for this address.";
diff --git a/symbol_map.cc b/symbol_map.cc
index b1dbd97..5340db0 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -601,8 +601,15 @@ bool SymbolMap::AddIndirectCallTarget(absl::string_view symbol_name,
   if ((data_source == PERFDATA || data_source == AFDOPROTO) &&
       src[0].HasInvalidInfo())
     return false;
-  symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
-      .target_map[GetOriginalName(target)] = count;
+  uint64_t &target_count =
+      symbol->pos_counts[src[0].Offset(use_discriminator_encoding)]
+          .target_map[GetOriginalName(target)];
+  // A prefetch hint is a distance: hints for one location do not add up.
+  if (data_source == PREFETCH_HINTS) {
+    target_count = count;
+  } else {
+    target_count += count;
+  }
   return true;
 }
 
diff --git a/symbol_map.h b/symbol_map.h
index 6613f9e..15c9b64 100644
--- a/symbol_map.h
+++ b/symbol_map.h
@@ -431,7 +431,13 @@ class SymbolMap {
   // AFDOPROTO: convert afdo proto generated by GWP autofdo pipeline to
   //            afdo profile.
   // AFDOPROFILE: merge an existing afdo profile into current one.
-  typedef enum { INVALID = 0, PERFDATA, AFDOPROTO, AFDOPROFILE } DataSource;
+  typedef enum {
+    INVALID = 0,
+    PERFDATA,
+    AFDOPROTO,
+    AFDOPROFILE,
+    PREFETCH_HINTS
+  } DataSource;
   // Increments source stack's count.
   //   symbol: name of the symbol in which source is located.
   //   source: source location (in terms of inlined source stack).
-- 
2.43.0


From 5b8de0df6d0d6025e1d521ca61320dc8167491d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:39 +0000
Subject: [PATCH 28/67] fix: keep a defined inline instance among equally hot
 ones

---
 symbol_map.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 5340db0..41d3d39 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1575,7 +1575,11 @@ int64_t Symbol::throttleInlineInstancesAtSameLocation(
                          return a.first.location < b.first.location;
                        // If the locations are the same, compare the hotness of
                        // the callsites.
-                       return a.second->total_count > b.second->total_count;
+                       if (a.second->total_count != b.second->total_count)
+                         return a.second->total_count > b.second->total_count;
+                       // Equally hot callsites are ordered by name, because
+                       // the order of the hash map is arbitrary.
+                       return CallsiteLessThan()(a.first, b.first);
                      });
 
     uint64_t num_inline_instances_at_same_loc = 0;
-- 
2.43.0


From f02137056557463c2caa9e08b2a02a6a93382e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 29/67] fix: merge flattened callsites after their function is
 processed

---
 symbol_map.cc | 25 +++++++++++++++----------
 symbol_map.h  |  3 ++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 41d3d39..38f1e28 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1366,11 +1366,9 @@ void SymbolMap::BuildHybridProfile(const SymbolMap &srcmap,
 }
 
 int64_t SymbolMap::FlattenNestedInlineCallsitesImpl(
-    int max_inline_callsite_nesting_level, int depth, Symbol *func) {
+    int max_inline_callsite_nesting_level, int depth, Symbol *func,
+    SymbolUniquePtrVector *outlined) {
   int64_t original_total_count = func->total_count;
-  // Iterator of func->callsites may be invalidated if an inlined function with
-  // the same name as the top level function is flattened and merged into itself
-  // and causes callsites to be rehashed. We need to make a copy of callsites.
   std::vector<CallsiteMap::value_type*> callsites;
   callsites.reserve(func->callsites.size());
   for (auto &callsite : func->callsites) {
@@ -1387,7 +1385,7 @@ int64_t SymbolMap::FlattenNestedInlineCallsitesImpl(
       // sure after merging the max inline depth of that function is under the
       // limit.
       FlattenNestedInlineCallsitesImpl(max_inline_callsite_nesting_level, 1,
-                                       callsite);
+                                       callsite, outlined);
       callsite->EstimateHeadCount();
       // TODO(williamjhuang): There seems to be a bug in FlattenCallsite, that
       // flattening into an existing (non-empty) function can results in a call
@@ -1400,16 +1398,17 @@ int64_t SymbolMap::FlattenNestedInlineCallsitesImpl(
           func->pos_counts[pos.location].target_map[callsite->info.func_name]);
       func->total_count +=
           func->pos_counts[pos.location].count - original_count;
-      // Add outlined callsite and its content to the top level symbol map.
-      AddSymbolToMap(*callsite);
-      map_.at(callsite->info.func_name)->Merge(callsite);
+      // The outlined callsite is merged into the top level symbol map only after
+      // the current top level symbol is processed: it may be an instance of a
+      // symbol that is still being processed.
+      outlined->push_back(absl::WrapUnique(callsite));
     }
     func->callsites.clear();
   } else {
     for (const auto *pos_and_callsite : callsites) {
       Symbol *callsite = pos_and_callsite->second;
       int64_t diff = FlattenNestedInlineCallsitesImpl(
-          max_inline_callsite_nesting_level, depth + 1, callsite);
+          max_inline_callsite_nesting_level, depth + 1, callsite, outlined);
       func->total_count += diff;
     }
   }
@@ -1421,10 +1420,16 @@ int SymbolMap::FlattenNestedInlineCallsites(
   int num_flattened = 0;
   if (max_inline_callsite_nesting_level > 0) {
     for (const auto &[name, symbol] : map_) {
+      SymbolUniquePtrVector outlined;
       if (FlattenNestedInlineCallsitesImpl(max_inline_callsite_nesting_level, 1,
-                                           symbol) != 0) {
+                                           symbol, &outlined) != 0) {
         ++num_flattened;
       }
+      // Add outlined callsites and their content to the top level symbol map.
+      for (const auto &callsite : outlined) {
+        AddSymbolToMap(*callsite);
+        map_.at(callsite->info.func_name)->Merge(callsite.get());
+      }
     }
   }
   return num_flattened;
diff --git a/symbol_map.h b/symbol_map.h
index 15c9b64..0470e96 100644
--- a/symbol_map.h
+++ b/symbol_map.h
@@ -608,7 +608,8 @@ class SymbolMap {
   // nested inline callsites and flatten them if their nesting level reach the
   // maximum. Returns difference of `func`'s total count after flattening.
   int64_t FlattenNestedInlineCallsitesImpl(
-      int max_inline_callsite_nesting_level, int depth, Symbol *func);
+      int max_inline_callsite_nesting_level, int depth, Symbol *func,
+      SymbolUniquePtrVector *outlined);
 
   // Store the loadable_exec_segment info:
   // offset is the offset of the segment, and
-- 
2.43.0


From 9c2e8f4b914eef108767830d6b0557e213ac4c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 30/67] fix: profile_diff: accept flags next to the two files

---
 profile_diff.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profile_diff.cc b/profile_diff.cc
index fc11f27..5e55bae 100644
--- a/profile_diff.cc
+++ b/profile_diff.cc
@@ -24,18 +24,18 @@ int main(int argc, char **argv) {
       "of [0,1]). If overlap is > 0.9, the two profiles are "
       "considered similar and should provide comparable speedup.";
   absl::SetProgramUsageMessage(use);
-  absl::ParseCommandLine(argc, argv);
+  std::vector<char *> args = absl::ParseCommandLine(argc, argv);
   devtools_crosstool_autofdo::SymbolMap symbol_map_1, symbol_map_2;
 
-  if (argc != 3) {
+  if (args.size() != 3) {
     LOG(FATAL) << "Please specify two files to compare";
   }
 
   absl::node_hash_set<std::string> names;
   devtools_crosstool_autofdo::LLVMProfileReader reader_1(&symbol_map_1, names);
   devtools_crosstool_autofdo::LLVMProfileReader reader_2(&symbol_map_2, names);
-  reader_1.ReadFromFile(argv[1]);
-  reader_2.ReadFromFile(argv[2]);
+  reader_1.ReadFromFile(args[1]);
+  reader_2.ReadFromFile(args[2]);
 
   if (absl::GetFlag(FLAGS_compare_function)) {
     symbol_map_1.DumpFuncLevelProfileCompare(symbol_map_2);
-- 
2.43.0


From 636172e73bab8d6a8aeb50b6db79e24ab8f9a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 31/67] fix: number call graph nodes in visiting order

---
 symbol_map.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 38f1e28..930f0dd 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -796,7 +796,7 @@ class CallGraph {
   void TopoVisit(SCCNode *node, absl::flat_hash_set<SCCNode *> *workingset,
                  std::vector<SCCNode *> *sorted);
   SCCNode *CreateSCCNode(Symbol *sym);
-  void StrongConnect(SCCNode *node, unsigned index, NodeStack *stack,
+  void StrongConnect(SCCNode *node, unsigned *index, NodeStack *stack,
                      SCCMap *sccmap);
   void CollapseSCC(SCCMap *sccmap);
 
@@ -847,11 +847,11 @@ SCCNode *CallGraph::FindOrCreateSCCNode(Symbol *sym) {
 
 // Find the strongly connected component using DFS. sccmap is the map mapping
 // each node to the root node of the SCC where node belongs to.
-void CallGraph::StrongConnect(SCCNode *node, unsigned index, NodeStack *stack,
+void CallGraph::StrongConnect(SCCNode *node, unsigned *index, NodeStack *stack,
                               SCCMap *sccmap) {
-  node->index = index;
-  node->lowlink = index;
-  index++;
+  node->index = *index;
+  node->lowlink = *index;
+  ++*index;
   stack->push_back(node);
 
   for (auto *callee : node->callees) {
@@ -908,7 +908,7 @@ void CallGraph::FindAndCollapseSCC() {
   NodeStack stack;
   SCCMap sccmap;
   for (auto *node : nodes) {
-    if (!node->index) StrongConnect(node, index, &stack, &sccmap);
+    if (!node->index) StrongConnect(node, &index, &stack, &sccmap);
   }
   CollapseSCC(&sccmap);
 }
-- 
2.43.0


From 9a02122846e3ff4304f789c157bde1390caa17aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 32/67] fix: keep inclusive counts in 64 bits

---
 symbol_map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 930f0dd..470b0f9 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -968,7 +968,7 @@ void SymbolMap::ComputeTotalCountIncl() {
   // same total_count_incl.
   std::vector<Symbol *> stacksyms;
   for (auto *node : sorted) {
-    unsigned scc_total_count_incl = 0;
+    uint64_t scc_total_count_incl = 0;
     for (auto *sym : node->syms) {
       sym->total_count_incl = sym->total_count;
       stacksyms.push_back(sym);
-- 
2.43.0


From 569f1b42cf2c6c6b16012bb80ed62664fee7c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 33/67] fix: drop symbols that were merged into another one

---
 symbol_map.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/symbol_map.cc b/symbol_map.cc
index 470b0f9..5f24a08 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -337,6 +337,13 @@ void SymbolMap::ElideSuffixesAndMerge() {
     for (auto &n_s : map_) {
       if (n_s.second == sym) n_s.second = ret.first->second;
     }
+    // `sym` is now part of another symbol and must not be counted again.
+    unique_symbols_.erase(
+        std::remove_if(unique_symbols_.begin(), unique_symbols_.end(),
+                       [sym](const std::unique_ptr<Symbol> &s) {
+                         return s.get() == sym;
+                       }),
+        unique_symbols_.end());
   }
 }
 
-- 
2.43.0


From 09c79703e731ab62b47ce374e1d8f98c47b93c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 34/67] fix: add the total of functions without samples in any
 order

---
 llvm_profile_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm_profile_reader.cc b/llvm_profile_reader.cc
index e466368..ff5d5af 100644
--- a/llvm_profile_reader.cc
+++ b/llvm_profile_reader.cc
@@ -80,10 +80,12 @@ void LLVMProfileReader::ReadFromFunctionSamples(
   if (stack.empty() && !shouldMergeProfileForSym(func_name)) return;
 
   const char *top_func_name = nullptr;
+  uint64_t previous_total_count = 0;
   if (stack.empty()) {
     top_func_name = func_name;
     symbol_map_->AddSymbol(func_name);
     symbol_map_->AddSymbolEntryCount(func_name, fs.getHeadSamples());
+    previous_total_count = symbol_map_->map().at(func_name)->total_count;
   } else {
     top_func_name = stack.back().func_name;
   }
@@ -119,7 +121,7 @@ void LLVMProfileReader::ReadFromFunctionSamples(
   // debug information receive samples and lines with debug information don't.
   // It's not something we have seen in practice so it's not being implemented.
   if (stack.empty() &&
-      symbol_map_->map().at(func_name)->total_count == 0) {
+      symbol_map_->map().at(func_name)->total_count == previous_total_count) {
     symbol_map_->AddSymbolEntryCount(func_name, 0, fs.getTotalSamples());
   }
 }
-- 
2.43.0


From f9745240dc4e44d03b2ad10eaabfecfbf61f5cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 35/67] fix: keep cache misses of functions with an unlocated
 first address

---
 symbol_map.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/symbol_map.cc b/symbol_map.cc
index 5f24a08..475f7ca 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -1481,15 +1481,16 @@ void SymbolMap::BuildFlatProfile(const SymbolMap &srcmap,
 bool SymbolMap::EnsureEntryInFuncForSymbol(absl::string_view func_name,
                                            uint64_t pc) {
   if (map().find(func_name) != map().end()) return true;
-  AddSymbol(func_name);
   SourceStack stack;
   get_addr2line()->GetInlineStack(pc, &stack);
-  // Add bogus samples, so that the writer won't skip over.
-  if (!TraverseInlineStack(func_name, stack, count_threshold() + 1)) {
+  if (stack.empty()) {
     LOG(WARNING) << "Ignoring address " << std::hex << pc
                  << ". No inline stack found.";
     return false;
   }
+  AddSymbol(func_name);
+  // Add bogus samples, so that the writer won't skip over.
+  TraverseInlineStack(func_name, stack, count_threshold() + 1);
   return true;
 }
 
-- 
2.43.0


From 05b786e7abf04c5bf128843c3412ee001055ca5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 36/67] fix: take the build id from build-id notes only

---
 llvm_propeller_binary_content.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_content.cc b/llvm_propeller_binary_content.cc
index 7a28c52..db9742a 100644
--- a/llvm_propeller_binary_content.cc
+++ b/llvm_propeller_binary_content.cc
@@ -133,7 +133,8 @@ std::string ELFFileUtil<ELFT>::GetBuildId() {
     llvm::Error err = llvm::Error::success();
     for (const typename ELFT::Note &note : elf_file_->notes(shdr, err)) {
       llvm::StringRef r = note.getName();
-      if (r == kBuildIdNoteName) {
+      if (r == kBuildIdNoteName &&
+          note.getType() == llvm::ELF::NT_GNU_BUILD_ID) {
         llvm::ArrayRef<uint8_t> build_id = note.getDesc(shdr.sh_addralign);
         std::string build_id_str(build_id.size() * 2, '0');
         int k = 0;
-- 
2.43.0


From ab440870b7f7c4c2e2f0eb792bcab2f7863f351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 37/67] fix: read notes of sections without alignment
 constraint

---
 llvm_propeller_binary_content.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_content.cc b/llvm_propeller_binary_content.cc
index db9742a..f1075d0 100644
--- a/llvm_propeller_binary_content.cc
+++ b/llvm_propeller_binary_content.cc
@@ -1,5 +1,6 @@
 #include "llvm_propeller_binary_content.h"
 
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <memory>
@@ -135,7 +136,8 @@ std::string ELFFileUtil<ELFT>::GetBuildId() {
       llvm::StringRef r = note.getName();
       if (r == kBuildIdNoteName &&
           note.getType() == llvm::ELF::NT_GNU_BUILD_ID) {
-        llvm::ArrayRef<uint8_t> build_id = note.getDesc(shdr.sh_addralign);
+        llvm::ArrayRef<uint8_t> build_id =
+            note.getDesc(std::max<uint64_t>(shdr.sh_addralign, 4));
         std::string build_id_str(build_id.size() * 2, '0');
         int k = 0;
         for (uint8_t t : build_id) {
-- 
2.43.0


From 8bdada8b33f2160fa71ef8a34d3ac26f876a654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 38/67] fix: keep 64-bit sizes of a module's code section

---
 llvm_propeller_binary_content.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_content.cc b/llvm_propeller_binary_content.cc
index f1075d0..473ebc2 100644
--- a/llvm_propeller_binary_content.cc
+++ b/llvm_propeller_binary_content.cc
@@ -81,7 +81,7 @@ absl::Status FindRelocatableTextSectionToFillSegment(
       binary_content.segments.push_back(BinaryContent::Segment{
           .offset = typename ELFT::Off::value_type(shdr.sh_offset),
           .vaddr = typename ELFT::Addr::value_type(shdr.sh_addr),
-          .memsz = typename ELFT::Word::value_type(shdr.sh_size)});
+          .memsz = typename ELFT::Off::value_type(shdr.sh_size)});
       binary_content.kernel_module->text_section_index =
           std::distance(sections->begin(), &shdr);
       return absl::OkStatus();
-- 
2.43.0


From e394931caf65efa463480c2a88ee57f8f20288c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 39/67] fix: refuse files without ELF magic instead of aborting

---
 llvm_propeller_binary_content.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_content.cc b/llvm_propeller_binary_content.cc
index 473ebc2..2a4598b 100644
--- a/llvm_propeller_binary_content.cc
+++ b/llvm_propeller_binary_content.cc
@@ -385,7 +385,10 @@ absl::StatusOr<std::unique_ptr<BinaryContent>> GetBinaryContent(
 
   std::unique_ptr<ELFFileUtilBase> elf_file_util =
       CreateELFFileUtil(binary_content->object_file.get());
-  CHECK(elf_file_util != nullptr);
+  if (elf_file_util == nullptr) {
+    return absl::FailedPreconditionError(
+        absl::StrCat("Not a valid ELF file '", binary_file_name, "'."));
+  }
   binary_content->build_id = elf_file_util->GetBuildId();
   if (!binary_content->build_id.empty())
     LOG(INFO) << "Build Id found in '" << binary_file_name
-- 
2.43.0


From 125e289f9f9bfcb14257c625bc7ab1757f612da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 40/67] fix: map the end of a function to no branch source

---
 llvm_propeller_binary_address_mapper.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_binary_address_mapper.cc b/llvm_propeller_binary_address_mapper.cc
index d71128a..3f04b6a 100644
--- a/llvm_propeller_binary_address_mapper.cc
+++ b/llvm_propeller_binary_address_mapper.cc
@@ -252,7 +252,9 @@ std::optional<int> BinaryAddressMapper::FindBbHandleIndexUsingBinaryAddress(
       return it - bb_handles_.begin();
     }
     case BranchDirection::kFrom: {
-      DCHECK_NE(GetBBEntry(*it).Size, 0);
+      // The address may be the end of a selected function whose last block is
+      // empty, which contains no code to branch from.
+      if (GetBBEntry(*it).Size == 0) return std::nullopt;
       return it - bb_handles_.begin();
     }
     default:
-- 
2.43.0


From 1cd059e14a24b029c55cd718e35360205501a96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 41/67] fix: mappings at the end of the address space

---
 perfdata_reader.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/perfdata_reader.cc b/perfdata_reader.cc
index f2ce52d..9e26994 100644
--- a/perfdata_reader.cc
+++ b/perfdata_reader.cc
@@ -237,8 +237,10 @@ absl::StatusOr<BinaryMMaps> SelectMMaps(
           entry_exists = true;
           continue;
         }
-        if (!((load_addr + load_size <= e.load_addr) ||
-              (e.load_addr + e.load_size <= load_addr))) {
+        // Written without end addresses: those of mappings at the end of the
+        // address space overflow.
+        if (load_addr <= e.load_addr ? e.load_addr - load_addr < load_size
+                                     : load_addr - e.load_addr < e.load_size) {
           return absl::FailedPreconditionError(absl::StrCat(
               "Found conflict mmap event: ",
               MMapEntry{pid, load_addr, load_size, page_offset,
@@ -292,7 +294,7 @@ uint64_t PerfDataReader::RuntimeAddressToBinaryAddress(uint32_t pid,
   if (i == binary_mmaps_.end()) return kInvalidBinaryAddress;
   const MMapEntry *mmap = nullptr;
   for (const MMapEntry &p : i->second)
-    if (p.load_addr <= addr && addr < p.load_addr + p.load_size) mmap = &p;
+    if (p.load_addr <= addr && addr - p.load_addr < p.load_size) mmap = &p;
   if (!mmap) return kInvalidBinaryAddress;
 
   uint64_t file_offset;
-- 
2.43.0


From 6d8ec2857291f88766bb90f08b29c2c741e864dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 42/67] fix: judge each name of the binary on its own when
 selecting mappings

---
 perfdata_reader.cc | 47 ++++++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/perfdata_reader.cc b/perfdata_reader.cc
index 9e26994..ccfcaaf 100644
--- a/perfdata_reader.cc
+++ b/perfdata_reader.cc
@@ -1,7 +1,6 @@
 #include "perfdata_reader.h"
 
 #include <cstdint>
-#include <functional>
 #include <memory>
 #include <optional>
 #include <string>
@@ -50,42 +49,36 @@ namespace devtools_crosstool_autofdo {
 
 // Given "n", compare it to each of mmap_event.filename. If "n" is absolute,
 // then we compare "n" w/ mmap_event.filename. Otherwise we compare n's name
-// part w/ mmap_event.filename's name part.
+// part w/ mmap_event.filename's name part. Each name is judged on its own.
 struct MMapSelector {
   explicit MMapSelector(const absl::flat_hash_set<std::string> &name_set) {
-    std::string n = *(name_set.begin());
-    // Similar to handling kernel image name -> mmap name.
-    // https://source.corp.google.com/piper///depot/google3/devtools/crosstool/autofdo/sample_reader.cc;l=89;rcl=500000000
-    if (name_set.size() == 1 && n == "[kernel.kallsyms]") {
-      target_mmap_name_set = {"[kernel.kallsyms]", "[kernel.kallsyms]_text",
-                              "[kernel.kallsyms]_stext"};
-      path_changer = noop_path_changer;
-    } else if (llvm::sys::path::is_absolute(n)) {
-      target_mmap_name_set = name_set;
-      path_changer = noop_path_changer;
-    } else {
-      for (const std::string &nm : name_set) {
-        target_mmap_name_set.insert(llvm::sys::path::filename(nm).str());
+    for (const std::string &n : name_set) {
+      // Similar to handling kernel image name -> mmap name.
+      // https://source.corp.google.com/piper///depot/google3/devtools/crosstool/autofdo/sample_reader.cc;l=89;rcl=500000000
+      if (n == "[kernel.kallsyms]") {
+        target_mmap_path_set.insert({"[kernel.kallsyms]",
+                                     "[kernel.kallsyms]_text",
+                                     "[kernel.kallsyms]_stext"});
+      } else if (llvm::sys::path::is_absolute(n)) {
+        target_mmap_path_set.insert(n);
+      } else {
+        target_mmap_name_set.insert(llvm::sys::path::filename(n).str());
       }
-      path_changer = name_only_path_changer;
     }
   }
 
-  // mmap_fn is always absolute path. If target_mmap_name is absolute, we
-  // compare both directly. Otherwise, we only compare the name part of
-  // mmap_fn.
+  // mmap_fn is always absolute path. If a target name is absolute, we compare
+  // both directly. Otherwise, we only compare the name part of mmap_fn.
   bool operator()(const std::string &mmap_fn) const {
-    return target_mmap_name_set.find(path_changer(mmap_fn).str()) !=
-           target_mmap_name_set.end();
+    return target_mmap_path_set.contains(mmap_fn) ||
+           target_mmap_name_set.contains(
+               llvm::sys::path::filename(mmap_fn).str());
   }
 
-  std::function<llvm::StringRef(const std::string &mmap_fn)> path_changer;
+  // Names that are compared with the whole mmap_event.filename.
+  absl::flat_hash_set<std::string> target_mmap_path_set;
+  // Names that are compared with the name part of mmap_event.filename.
   absl::flat_hash_set<std::string> target_mmap_name_set;
-
-  static llvm::StringRef noop_path_changer(const std::string &n) { return n; }
-  static llvm::StringRef name_only_path_changer(const std::string &n) {
-    return llvm::sys::path::filename(n);
-  }
 };
 
 absl::StatusOr<absl::flat_hash_set<std::string>> GetBuildIdNames(
-- 
2.43.0


From be401f6f0265f4e9bf1f3f2a3175fafddf428b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 43/67] fix: count no fall-throughs to unknown addresses

---
 perfdata_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/perfdata_reader.cc b/perfdata_reader.cc
index ccfcaaf..b881a2a 100644
--- a/perfdata_reader.cc
+++ b/perfdata_reader.cc
@@ -407,7 +407,8 @@ void PerfDataReader::AggregateLBR(LbrAggregation *result) const {
       // (*)  (p == 0 && from == lastFrom && to == lastTo) ==> true
 
       ++result->branch_counters[{.from = from, .to = to}];
-      if (last_to != kInvalidBinaryAddress && last_to <= from)
+      if (last_to != kInvalidBinaryAddress && from != kInvalidBinaryAddress &&
+          last_to <= from)
         ++result->fallthrough_counters[{.from = last_to, .to = from}];
       last_to = to;
       last_from = from;
-- 
2.43.0


From 1dcfd660644fabea6b5bc454824645c3ec07ac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 44/67] fix: merge profiles that share edges

---
 llvm_propeller_program_cfg_builder.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/llvm_propeller_program_cfg_builder.cc b/llvm_propeller_program_cfg_builder.cc
index 44fd0d5..11c20dc 100644
--- a/llvm_propeller_program_cfg_builder.cc
+++ b/llvm_propeller_program_cfg_builder.cc
@@ -15,6 +15,7 @@
 #include "llvm_propeller_program_cfg.h"
 #include "base/logging.h"
 #include "third_party/abseil/absl/container/flat_hash_map.h"
+#include "third_party/abseil/absl/container/flat_hash_set.h"
 #include "third_party/abseil/absl/status/status.h"
 #include "third_party/abseil/absl/status/statusor.h"
 #include "third_party/abseil/absl/strings/str_cat.h"
@@ -207,9 +208,21 @@ absl::Status ProgramCfgBuilder::CreateEdges(
   absl::flat_hash_map<std::pair<CFGNode::InterCfgId, CFGNode::InterCfgId>,
                       CFGEdge *>
       tmp_edge_map;
+  // Edges of the initial CFGs exist already.
+  for (const auto &[cfg_index, cfg] : cfgs_) {
+    for (const auto *edges : {&cfg->intra_edges(), &cfg->inter_edges()}) {
+      for (const std::unique_ptr<CFGEdge> &edge : *edges) {
+        tmp_edge_map.insert({{edge->src()->inter_cfg_id(),
+                              edge->sink()->inter_cfg_id()},
+                             edge.get()});
+      }
+    }
+  }
 
   absl::flat_hash_map<std::pair<int, int>, int> tmp_bb_fallthrough_counters;
 
+  // Edges, created here or before, that carry some of the branches.
+  absl::flat_hash_set<const CFGEdge *> edges_of_branches;
   int weight_on_dubious_edges = 0;
   int edges_recorded = 0;
   for (auto [branch, weight] : branch_aggregation.branch_counters) {
@@ -269,8 +282,10 @@ absl::Status ProgramCfgBuilder::CreateEdges(
                binary_address_mapper_->GetBBEntry(from_bb_handle).hasReturn()) {
       edge_kind = CFGEdge::Kind::kRet;
     }
-    InternalCreateEdge(from_bb_index.value(), to_bb_index.value(), weight,
-                       edge_kind, tmp_node_map, &tmp_edge_map);
+    CFGEdge *edge =
+        InternalCreateEdge(from_bb_index.value(), to_bb_index.value(), weight,
+                           edge_kind, tmp_node_map, &tmp_edge_map);
+    if (edge != nullptr) edges_of_branches.insert(edge);
   }
 
   if (weight_on_dubious_edges /
@@ -283,8 +298,7 @@ absl::Status ProgramCfgBuilder::CreateEdges(
                         stats_->cfg_stats.total_edge_weight_created()));
   }
 
-  if (stats_->cfg_stats.total_edges_created() /
-          static_cast<double>(edges_recorded) <
+  if (edges_of_branches.size() / static_cast<double>(edges_recorded) <
       0.0005) {
     return absl::InternalError(
         "Fewer than 0.05% recorded jumps are converted into CFG edges, "
-- 
2.43.0


From f0ddd70432a2a4f23fb8e686ffb887d138f6d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 45/67] fix: keep 64-bit addresses of blocks in control-flow
 graphs

---
 llvm_propeller_cfg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm_propeller_cfg.h b/llvm_propeller_cfg.h
index c3408b8..aa49fc1 100644
--- a/llvm_propeller_cfg.h
+++ b/llvm_propeller_cfg.h
@@ -264,7 +264,7 @@ class CFGNode final {
   const int bb_id_;
   // Index of the node in its CFG's `nodes()`.
   const int node_index_;
-  const int addr_;
+  const uint64_t addr_;
   int size_ = 0;
   const llvm::object::BBAddrMap::BBEntry::Metadata metadata_;
   int freq_ = 0;
-- 
2.43.0


From 7a6002fb42dfe94112441a8f83f0b22aec1905f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 46/67] fix: write program graphs in the order of their
 functions

---
 llvm_propeller_program_cfg_proto_builder.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/llvm_propeller_program_cfg_proto_builder.cc b/llvm_propeller_program_cfg_proto_builder.cc
index dee493d..130e65b 100644
--- a/llvm_propeller_program_cfg_proto_builder.cc
+++ b/llvm_propeller_program_cfg_proto_builder.cc
@@ -2,8 +2,10 @@
 
 #include <fcntl.h>
 
+#include <algorithm>
 #include <memory>
 #include <string>
+#include <vector>
 
 #include "llvm_propeller_cfg.h"
 #include "llvm_propeller_cfg.pb.h"
@@ -44,7 +46,15 @@ bool ProgramCfgProtoBuilder::WriteAndClose() {
 // Add CFGs to protobuf.
 void ProgramCfgProtoBuilder::AddCfgs(
     const absl::flat_hash_map<int, std::unique_ptr<ControlFlowGraph>> &cfgs) {
-  for (auto &[function_index, cfg] : cfgs)
+  // The order of the map's elements varies from run to run.
+  std::vector<const ControlFlowGraph *> sorted_cfgs;
+  sorted_cfgs.reserve(cfgs.size());
+  for (auto &[function_index, cfg] : cfgs) sorted_cfgs.push_back(cfg.get());
+  std::sort(sorted_cfgs.begin(), sorted_cfgs.end(),
+            [](const ControlFlowGraph *a, const ControlFlowGraph *b) {
+              return a->function_index() < b->function_index();
+            });
+  for (const ControlFlowGraph *cfg : sorted_cfgs)
     PopulateControlFlowGraphPb(program_cfg_pb_.add_cfg(), *cfg);
 }
 
-- 
2.43.0


From f38e91c98f70749ef3cbbb7728937c73311922a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 47/67] fix: leave edges to other functions out of
 single-function layouts

---
 llvm_propeller_node_chain_builder.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/llvm_propeller_node_chain_builder.h b/llvm_propeller_node_chain_builder.h
index 8c5cfe4..f194544 100644
--- a/llvm_propeller_node_chain_builder.h
+++ b/llvm_propeller_node_chain_builder.h
@@ -244,12 +244,15 @@ class NodeChainBuilder {
                                NodeChain &unsplit_chain);
 
   // Returns whether `edge` should be considered in constructing the chains.
+  // Edges to nodes of other CFGs than `cfgs_` are not considered.
   bool ShouldVisitEdge(const CFGEdge &edge) {
-    return edge.weight() != 0 && !edge.IsReturn() &&
-           ((code_layout_scorer_.code_layout_params()
-                 .inter_function_reordering() &&
-             cfgs_.size() > 1 && !edge.inter_section()) ||
-            !edge.IsCall());
+    if (edge.weight() == 0 || edge.IsReturn()) return false;
+    if (code_layout_scorer_.code_layout_params().inter_function_reordering() &&
+        cfgs_.size() > 1) {
+      return !edge.inter_section();
+    }
+    return !edge.IsCall() &&
+           edge.src()->function_index() == edge.sink()->function_index();
   }
 
   const PropellerCodeLayoutScorer code_layout_scorer_;
-- 
2.43.0


From 5bb477bc5e5aa2a4cc6dd59ed05328a75d20abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 48/67] fix: score distances beyond 31 bits

---
 llvm_propeller_code_layout_scorer.cc | 3 ++-
 llvm_propeller_code_layout_scorer.h  | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/llvm_propeller_code_layout_scorer.cc b/llvm_propeller_code_layout_scorer.cc
index 98582c9..8db47f1 100644
--- a/llvm_propeller_code_layout_scorer.cc
+++ b/llvm_propeller_code_layout_scorer.cc
@@ -1,6 +1,7 @@
 #include "llvm_propeller_code_layout_scorer.h"
 
 #include <algorithm>
+#include <cstdint>
 #include <cstdlib>
 
 #include "llvm_propeller_options.pb.h"
@@ -26,7 +27,7 @@ PropellerCodeLayoutScorer::PropellerCodeLayoutScorer(
 // Returns the score for one edge, given its source to sink direction and
 // distance in the layout.
 double PropellerCodeLayoutScorer::GetEdgeScore(const CFGEdge &edge,
-                                               int src_sink_distance) const {
+                                               int64_t src_sink_distance) const {
   // Approximate callsites to be in the middle of the source basic block.
   if (edge.IsCall()) src_sink_distance += edge.src()->size() / 2;
 
diff --git a/llvm_propeller_code_layout_scorer.h b/llvm_propeller_code_layout_scorer.h
index a35ed19..1ec3a5b 100644
--- a/llvm_propeller_code_layout_scorer.h
+++ b/llvm_propeller_code_layout_scorer.h
@@ -1,6 +1,8 @@
 #ifndef AUTOFDOLLVM_PROPELLER_CODE_LAYOUT_SCORER_H_
 #define AUTOFDOLLVM_PROPELLER_CODE_LAYOUT_SCORER_H_
 
+#include <cstdint>
+
 #include "llvm_propeller_cfg.h"
 #include "llvm_propeller_options.pb.h"
 
@@ -14,7 +16,7 @@ class PropellerCodeLayoutScorer {
  public:
   explicit PropellerCodeLayoutScorer(
       const PropellerCodeLayoutParameters &params);
-  double GetEdgeScore(const CFGEdge &edge, int src_sink_distance) const;
+  double GetEdgeScore(const CFGEdge &edge, int64_t src_sink_distance) const;
   const PropellerCodeLayoutParameters &code_layout_params() const {
     return code_layout_params_;
   }
-- 
2.43.0


From 63188c9956be8b10a9ef4a1f9fb0fd682cb6255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 49/67] fix: sort the edges within given chains

---
 llvm_propeller_node_chain_builder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/llvm_propeller_node_chain_builder.cc b/llvm_propeller_node_chain_builder.cc
index 14a96ab..96e4645 100644
--- a/llvm_propeller_node_chain_builder.cc
+++ b/llvm_propeller_node_chain_builder.cc
@@ -494,6 +494,7 @@ void NodeChainBuilder::InitChainEdges() {
     });
   }
   for (auto &[chain_id, chain] : chains_) {
+    chain->SortIntraChainEdges(*node_to_bundle_mapper_);
     chain->SetScore(
         chain->ComputeScore(*node_to_bundle_mapper_, code_layout_scorer_));
   }
-- 
2.43.0


From cb93101222237c4ef3335356e5755056861fe346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 50/67] fix: score weights whose products exceed 32 bits

---
 llvm_propeller_code_layout_scorer.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/llvm_propeller_code_layout_scorer.cc b/llvm_propeller_code_layout_scorer.cc
index 8db47f1..7b75aa9 100644
--- a/llvm_propeller_code_layout_scorer.cc
+++ b/llvm_propeller_code_layout_scorer.cc
@@ -28,25 +28,27 @@ PropellerCodeLayoutScorer::PropellerCodeLayoutScorer(
 // distance in the layout.
 double PropellerCodeLayoutScorer::GetEdgeScore(const CFGEdge &edge,
                                                int64_t src_sink_distance) const {
+  // Products with the weight may not fit 32 bits.
+  const double weight = edge.weight();
   // Approximate callsites to be in the middle of the source basic block.
   if (edge.IsCall()) src_sink_distance += edge.src()->size() / 2;
 
   if (edge.IsReturn()) src_sink_distance += edge.sink()->size() / 2;
 
   if (src_sink_distance == 0 && edge.IsBranchOrFallthrough())
-    return edge.weight() * code_layout_params_.fallthrough_weight();
+    return weight * code_layout_params_.fallthrough_weight();
 
   double absolute_src_sink_distance =
       static_cast<double>(std::abs(src_sink_distance));
   if (src_sink_distance > 0 &&
       absolute_src_sink_distance < code_layout_params_.forward_jump_distance())
-    return edge.weight() * code_layout_params_.forward_jump_weight() *
+    return weight * code_layout_params_.forward_jump_weight() *
            (1.0 - absolute_src_sink_distance /
                     code_layout_params_.forward_jump_distance());
 
   if (src_sink_distance < 0 &&
       absolute_src_sink_distance < code_layout_params_.backward_jump_distance())
-    return edge.weight() * code_layout_params_.backward_jump_weight() *
+    return weight * code_layout_params_.backward_jump_weight() *
            (1.0 - absolute_src_sink_distance /
                     code_layout_params_.backward_jump_distance());
   return 0;
-- 
2.43.0


From 43af3ae09dc76afe74ef00311bcf6d69999afa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 51/67] fix: create the edges of control-flow graphs in a fixed
 order

---
 llvm_propeller_program_cfg_builder.cc | 14 +++++++++++---
 llvm_propeller_program_cfg_builder.h  |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/llvm_propeller_program_cfg_builder.cc b/llvm_propeller_program_cfg_builder.cc
index 11c20dc..e469608 100644
--- a/llvm_propeller_program_cfg_builder.cc
+++ b/llvm_propeller_program_cfg_builder.cc
@@ -1,5 +1,6 @@
 #include "llvm_propeller_program_cfg_builder.h"
 
+#include <cstdint>
 #include <memory>
 #include <optional>
 #include <tuple>
@@ -8,12 +9,14 @@
 
 #include "addr2cu.h"
 #include "bb_handle.h"
+#include "binary_address_branch.h"
 #include "branch_aggregation.h"
 #include "llvm_propeller_binary_address_mapper.h"
 #include "llvm_propeller_cfg.h"
 #include "llvm_propeller_formatting.h"
 #include "llvm_propeller_program_cfg.h"
 #include "base/logging.h"
+#include "third_party/abseil/absl/container/btree_map.h"
 #include "third_party/abseil/absl/container/flat_hash_map.h"
 #include "third_party/abseil/absl/container/flat_hash_set.h"
 #include "third_party/abseil/absl/status/status.h"
@@ -115,7 +118,7 @@ absl::StatusOr<std::unique_ptr<ProgramCfg>> ProgramCfgBuilder::Build(
 void ProgramCfgBuilder::CreateFallthroughs(
     const BranchAggregation &branch_aggregation,
     const absl::flat_hash_map<CFGNode::InterCfgId, CFGNode *> &tmp_node_map,
-    absl::flat_hash_map<std::pair<int, int>, int> *tmp_bb_fallthrough_counters,
+    absl::btree_map<std::pair<int, int>, int> *tmp_bb_fallthrough_counters,
     absl::flat_hash_map<std::pair<CFGNode::InterCfgId, CFGNode::InterCfgId>,
                         CFGEdge *> *tmp_edge_map) {
   for (auto [fallthrough, cnt] : branch_aggregation.fallthrough_counters) {
@@ -219,13 +222,18 @@ absl::Status ProgramCfgBuilder::CreateEdges(
     }
   }
 
-  absl::flat_hash_map<std::pair<int, int>, int> tmp_bb_fallthrough_counters;
+  absl::btree_map<std::pair<int, int>, int> tmp_bb_fallthrough_counters;
 
   // Edges, created here or before, that carry some of the branches.
   absl::flat_hash_set<const CFGEdge *> edges_of_branches;
   int weight_on_dubious_edges = 0;
   int edges_recorded = 0;
-  for (auto [branch, weight] : branch_aggregation.branch_counters) {
+  // Visit the branches in a fixed order, as it decides the order and, for edges
+  // of several kinds, the kind of the edges.
+  const absl::btree_map<BinaryAddressBranch, int64_t> branch_counters(
+      branch_aggregation.branch_counters.begin(),
+      branch_aggregation.branch_counters.end());
+  for (auto [branch, weight] : branch_counters) {
     ++edges_recorded;
     std::optional<int> from_bb_index =
         binary_address_mapper_->FindBbHandleIndexUsingBinaryAddress(
diff --git a/llvm_propeller_program_cfg_builder.h b/llvm_propeller_program_cfg_builder.h
index 9c745d3..4e48711 100644
--- a/llvm_propeller_program_cfg_builder.h
+++ b/llvm_propeller_program_cfg_builder.h
@@ -10,6 +10,7 @@
 #include "llvm_propeller_cfg.h"
 #include "llvm_propeller_program_cfg.h"
 #include "llvm_propeller_statistics.h"
+#include "third_party/abseil/absl/container/btree_map.h"
 #include "third_party/abseil/absl/container/flat_hash_map.h"
 #include "third_party/abseil/absl/status/status.h"
 #include "third_party/abseil/absl/status/statusor.h"
@@ -63,8 +64,7 @@ class ProgramCfgBuilder {
   void CreateFallthroughs(
       const BranchAggregation &branch_aggregation,
       const absl::flat_hash_map<CFGNode::InterCfgId, CFGNode *> &tmp_node_map,
-      absl::flat_hash_map<std::pair<int, int>, int>
-          *tmp_bb_fallthrough_counters,
+      absl::btree_map<std::pair<int, int>, int> *tmp_bb_fallthrough_counters,
       absl::flat_hash_map<std::pair<CFGNode::InterCfgId, CFGNode::InterCfgId>,
                           CFGEdge *> *tmp_edge_map);
 
-- 
2.43.0


From bafc23ee569171585658e7b98c08d1fd632bd7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 52/67] fix: write inlined calls in the order of their
 positions

---
 profile_writer.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/profile_writer.h b/profile_writer.h
index 04431d7..1f56b53 100644
--- a/profile_writer.h
+++ b/profile_writer.h
@@ -6,9 +6,12 @@
 #ifndef AUTOFDO_PROFILE_WRITER_H_
 #define AUTOFDO_PROFILE_WRITER_H_
 
+#include <algorithm>
 #include <cstdint>
 #include <map>
 #include <string>
+#include <utility>
+#include <vector>
 
 #include "symbol_map.h"
 
@@ -139,9 +142,16 @@ class SymbolTraverser {
   void Traverse(const Symbol *node) {
     level_++;
     Visit(node);
-    for (const auto &callsite_symbol : node->callsites) {
-      VisitCallsite(callsite_symbol.first);
-      Traverse(callsite_symbol.second);
+    // Visit the call sites in a fixed order, as it decides the order in profiles.
+    std::vector<std::pair<Callsite, const Symbol *>> callsites(
+        node->callsites.begin(), node->callsites.end());
+    std::sort(callsites.begin(), callsites.end(),
+              [](const auto &a, const auto &b) {
+                return CallsiteLessThan()(a.first, b.first);
+              });
+    for (const auto &[callsite, symbol] : callsites) {
+      VisitCallsite(callsite);
+      Traverse(symbol);
     }
     level_--;
   }
-- 
2.43.0


From 1a34c7dccfb5baaa7c00c204abebc6da0abf4fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 53/67] fix: number the blocks of all parts in graph dumps

---
 llvm_propeller_profile_writer.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/llvm_propeller_profile_writer.cc b/llvm_propeller_profile_writer.cc
index 9a6512b..110eb2f 100644
--- a/llvm_propeller_profile_writer.cc
+++ b/llvm_propeller_profile_writer.cc
@@ -75,11 +75,22 @@ void DumpCfgs(const PropellerProfile &profile,
       CHECK(cfg_dump_os.good())
           << "Failed to open " << cfg_dump_file << " for writing.";
 
+      // Number the blocks in layout order, skipping a number between clusters
+      // which do not follow each other in the layout.
+      std::vector<const FunctionClusterInfo::BBCluster *> clusters;
+      for (const auto &cluster : func_cluster_info.clusters)
+        clusters.push_back(&cluster);
+      absl::c_sort(clusters, [](const auto *a, const auto *b) {
+        return a->layout_index < b->layout_index;
+      });
       absl::flat_hash_map<CFGNode::IntraCfgId, int> layout_index_map;
-      for (auto &cluster : func_cluster_info.clusters)
-        for (int bbi = 0; bbi < cluster.full_bb_ids.size(); ++bbi)
-          layout_index_map.insert({cluster.full_bb_ids[bbi].intra_cfg_id,
-                                   cluster.layout_index + bbi});
+      int layout_index = 0;
+      for (int i = 0; i < clusters.size(); ++i) {
+        if (i && clusters[i]->layout_index != clusters[i - 1]->layout_index + 1)
+          ++layout_index;
+        for (const auto &full_bb_id : clusters[i]->full_bb_ids)
+          layout_index_map.insert({full_bb_id.intra_cfg_id, layout_index++});
+      }
 
       cfg->WriteDotFormat(cfg_dump_os, layout_index_map);
     }
-- 
2.43.0


From 9ac92f5431ceaec8154115d3f7c11c7a794ff753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 54/67] fix: leave blocks of other functions out of edge
 profiles

---
 llvm_propeller_profile_writer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/llvm_propeller_profile_writer.cc b/llvm_propeller_profile_writer.cc
index 110eb2f..b9f842d 100644
--- a/llvm_propeller_profile_writer.cc
+++ b/llvm_propeller_profile_writer.cc
@@ -109,6 +109,7 @@ void DumpCfgProfile(const ControlFlowGraph &cfg, std::ofstream &out) {
     out << "#cfg-prof " << node.bb_id() << ":" << node_frequency;
     node.ForEachOutEdgeRef([&](const CFGEdge &edge) {
       if (!edge.IsBranchOrFallthrough()) return;
+      if (edge.sink()->function_index() != node.function_index()) return;
       out << " " << edge.sink()->bb_id() << ":" << edge.weight();
     });
     out << "\n";
-- 
2.43.0


From 5deea35d71879e0ea501524dcc94f59e9bcb3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:55 +0000
Subject: [PATCH 55/67] fix: report layout files that cannot be written

---
 llvm_propeller_profile_generator.cc |  3 ++-
 llvm_propeller_profile_writer.cc    | 16 +++++++++++++++-
 llvm_propeller_profile_writer.h     |  5 +++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/llvm_propeller_profile_generator.cc b/llvm_propeller_profile_generator.cc
index 3385254..0fb9877 100644
--- a/llvm_propeller_profile_generator.cc
+++ b/llvm_propeller_profile_generator.cc
@@ -30,6 +30,7 @@
 #include "third_party/abseil/absl/status/status.h"
 #include "third_party/abseil/absl/strings/str_cat.h"
 #include "base/logging.h"
+#include "base/status_macros.h"
 
 namespace devtools_crosstool_autofdo
 {
@@ -176,7 +177,7 @@ namespace devtools_crosstool_autofdo
                        profile_computer->ComputeProfile(statuses.profile_mapping,
                                                         statuses.code_layout));
 
-      PropellerProfileWriter(opts).Write(profile);
+      RETURN_IF_ERROR(PropellerProfileWriter(opts).Write(profile));
       statuses.file_writing->SetDone();
       LOG(INFO) << profile_computer->stats().DebugString();
       InvokePropellerTelemetryReporters(profile_computer->binary_content(),
diff --git a/llvm_propeller_profile_writer.cc b/llvm_propeller_profile_writer.cc
index b9f842d..f2609e1 100644
--- a/llvm_propeller_profile_writer.cc
+++ b/llvm_propeller_profile_writer.cc
@@ -18,6 +18,8 @@
 #include <vector>
 
 #include "llvm_propeller_options.pb.h"
+#include "base/status_macros.h"
+#include "third_party/abseil/absl/status/status.h"
 #include "third_party/abseil/absl/strings/str_cat.h"
 #include "third_party/abseil/absl/strings/str_format.h"
 #include "third_party/abseil/absl/strings/str_join.h"
@@ -115,9 +117,19 @@ void DumpCfgProfile(const ControlFlowGraph &cfg, std::ofstream &out) {
     out << "\n";
   });
 }
+
+// Closes `os`, which writes to the file `name`, and returns an error if any of
+// it could not be written. Without a name, no file is requested.
+absl::Status CloseFile(std::ofstream &os, absl::string_view name) {
+  os.close();
+  if (!name.empty() && os.fail())
+    return absl::UnavailableError(absl::StrCat("Failed to write ", name));
+  return absl::OkStatus();
+}
 }  // namespace
 
-void PropellerProfileWriter::Write(const PropellerProfile &profile) const {
+absl::Status PropellerProfileWriter::Write(
+    const PropellerProfile &profile) const {
   std::ofstream cc_profile_os(options_.cluster_out_name());
   std::ofstream ld_profile_os(options_.symbol_order_out_name());
   if (profile_encoding_.version != ClusterEncodingVersion::VERSION_0) {
@@ -269,6 +281,8 @@ void PropellerProfileWriter::Write(const PropellerProfile &profile) const {
   }
   if (options_.has_cfg_dump_dir_name())
     DumpCfgs(profile, options_.cfg_dump_dir_name());
+  RETURN_IF_ERROR(CloseFile(cc_profile_os, options_.cluster_out_name()));
+  return CloseFile(ld_profile_os, options_.symbol_order_out_name());
 }
 }  // namespace devtools_crosstool_autofdo
 #endif
diff --git a/llvm_propeller_profile_writer.h b/llvm_propeller_profile_writer.h
index 7f862b0..d8567d1 100644
--- a/llvm_propeller_profile_writer.h
+++ b/llvm_propeller_profile_writer.h
@@ -6,6 +6,7 @@
 #include "llvm_propeller_options.pb.h"
 #include "llvm_propeller_profile.h"
 #include "base/logging.h"
+#include "third_party/abseil/absl/status/status.h"
 
 namespace devtools_crosstool_autofdo {
 // Writes the propeller profiles to output files.
@@ -16,8 +17,8 @@ class PropellerProfileWriter {
         profile_encoding_(GetProfileEncoding(options.cluster_out_version())) {}
 
   // Writes code layout result in `all_functions_cluster_info` into the output
-  // file.
-  void Write(const PropellerProfile& profile) const;
+  // file. Returns an error if an output file could not be written completely.
+  absl::Status Write(const PropellerProfile& profile) const;
 
  private:
   struct ProfileEncoding {
-- 
2.43.0


From 538202dec8f3f3322704f7f0ca534f3934d8f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:54 +0000
Subject: [PATCH 56/67] fix: omit no hot edge from call-chain clustering
 because of overflow

---
 llvm_propeller_chain_cluster_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llvm_propeller_chain_cluster_builder.cc b/llvm_propeller_chain_cluster_builder.cc
index 3a4b637..175fcc1 100644
--- a/llvm_propeller_chain_cluster_builder.cc
+++ b/llvm_propeller_chain_cluster_builder.cc
@@ -17,7 +17,7 @@ namespace devtools_crosstool_autofdo {
 namespace {
 // We omit edges if their weight is less than
 // 1/kHotEdgeRelativeFrequencyThreshold of their sink.
-constexpr int kHotEdgeRelativeFrequencyThreshold = 10;
+constexpr int64_t kHotEdgeRelativeFrequencyThreshold = 10;
 // We avoid clustering if it reduces the density by more than
 // 1/kDensityDegradationThreshold.
 constexpr int64_t kExecutionDensityDegradationThreshold = 8;
-- 
2.43.0


From b5c31e3e35f8cf1c16f53e0a803fe4f6929febef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:54 +0000
Subject: [PATCH 57/67] fix: report hint files that cannot be read, accept hint
 types of any length

---
 profile_creator.cc | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index a430135..46f6143 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -68,30 +68,29 @@ typedef std::vector<PrefetchHint> PrefetchHints;
 //   - the hint type (string) - e.g. NTA, T{0|1|2}.
 // The delta is to the next cache miss, calculated from the memory location
 // used in the memory operation at PC.
-PrefetchHints ReadPrefetchHints(const std::string &file_name) {
-  PrefetchHints hints;
+// Returns false if the file cannot be read or has a malformed line.
+bool ReadPrefetchHints(const std::string &file_name, PrefetchHints *hints) {
   FILE *fp = fopen(file_name.c_str(), "r");
   if (fp == nullptr) {
-    LOG(ERROR) << "Cannot open " << file_name << "to read";
-  } else {
-    uint64_t address = 0;
-    int64_t delta = 0;
-    char prefetch_type[5];
-    while (!feof(fp)) {
-      if (3 != fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%s\n", &address, &delta,
-                      prefetch_type)) {
-        LOG(ERROR) << "Error reading from " << file_name;
-        break;
-      }
-      // We don't validate the type here. We'll just use it as a suffix to the
-      // "__prefetch" indirect call, and let the compiler decide if it
-      // supports it.
-      std::string type(prefetch_type);
-      hints.push_back({address, delta, type});
-    }
-    fclose(fp);
+    LOG(ERROR) << "Cannot open " << file_name << " to read";
+    return false;
+  }
+  uint64_t address = 0;
+  int64_t delta = 0;
+  char *prefetch_type = nullptr;
+  int fields;
+  while ((fields = fscanf(fp, "%" SCNx64 ",%" SCNd64 ",%ms\n", &address, &delta,
+                          &prefetch_type)) == 3) {
+    // We don't validate the type here. We'll just use it as a suffix to the
+    // "__prefetch" indirect call, and let the compiler decide if it
+    // supports it.
+    hints->push_back({address, delta, prefetch_type});
+    free(prefetch_type);
   }
-  return hints;
+  bool success = fields == EOF && !ferror(fp);
+  if (!success) LOG(ERROR) << "Error reading from " << file_name;
+  fclose(fp);
+  return success;
 }
 }  // namespace
 
@@ -229,7 +228,8 @@ bool ProfileCreator::ConvertPrefetchHints(const std::string &profile_file,
   // used.
   if (!CheckAndAssignAddr2Line(symbol_map, Addr2line::Create(binary_)))
     return false;
-  PrefetchHints hints = ReadPrefetchHints(profile_file);
+  PrefetchHints hints;
+  if (!ReadPrefetchHints(profile_file, &hints)) return false;
   absl::btree_map<uint64_t, uint8_t> repeated_prefetches_indices;
   for (auto &hint : hints) {
     uint64_t pc = hint.address;
-- 
2.43.0


From 7867b6456806d07083720b267ab6939e63a9b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:54 +0000
Subject: [PATCH 58/67] fix: number more than 256 hints for one address
 distinctly

---
 profile_creator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index 46f6143..204b956 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -230,7 +230,7 @@ bool ProfileCreator::ConvertPrefetchHints(const std::string &profile_file,
     return false;
   PrefetchHints hints;
   if (!ReadPrefetchHints(profile_file, &hints)) return false;
-  absl::btree_map<uint64_t, uint8_t> repeated_prefetches_indices;
+  absl::btree_map<uint64_t, uint32_t> repeated_prefetches_indices;
   for (auto &hint : hints) {
     uint64_t pc = hint.address;
     int64_t delta = hint.delta;
@@ -239,7 +239,7 @@ bool ProfileCreator::ConvertPrefetchHints(const std::string &profile_file,
       LOG(INFO) << "Instruction address not found:" << std::hex << pc;
       continue;
     }
-    uint8_t prefetch_index = repeated_prefetches_indices[pc]++;
+    uint32_t prefetch_index = repeated_prefetches_indices[pc]++;
 
     SourceStack stack;
     symbol_map->get_addr2line()->GetInlineStack(pc, &stack);
-- 
2.43.0


From 22d6ff50aabf01ae35149dd5a4b262bd1b2faaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:54 +0000
Subject: [PATCH 59/67] fix: honor --profiler for profiles that are not given
 in a list file

---
 create_llvm_prof.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/create_llvm_prof.cc b/create_llvm_prof.cc
index 3992c27..95dfc32 100644
--- a/create_llvm_prof.cc
+++ b/create_llvm_prof.cc
@@ -155,7 +155,9 @@ devtools_crosstool_autofdo::PropellerOptions CreatePropellerOptionsFromFlags() {
     for (const std::string &pf : perf_files)
       if (!pf.empty())
         option_builder.AddInputProfiles(
-            devtools_crosstool_autofdo::InputProfileBuilder().SetName(pf));
+            devtools_crosstool_autofdo::InputProfileBuilder()
+                .SetName(pf)
+                .SetType(GetProfileTypeFromFlag()));
   }
   if (!absl::GetFlag(FLAGS_propeller_cfg_dump_dir).empty()) {
     option_builder.SetCfgDumpDirName(
-- 
2.43.0


From 3d481e2ff32fd54e3f65a9cd436382188798c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:09 +0000
Subject: [PATCH 60/67] fix: match the name of the binary literally

---
 profile_creator.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/profile_creator.cc b/profile_creator.cc
index 204b956..e1a9e0f 100644
--- a/profile_creator.cc
+++ b/profile_creator.cc
@@ -171,7 +171,13 @@ bool ProfileCreator::ReadSample(absl::string_view input_profile_name,
       }
       const char *file_base_name = basename(dup_name);
       CHECK(file_base_name) << "Cannot find basename for: " << binary_;
-      focus_binary_re = std::string(".*/") + file_base_name + "$";
+      focus_binary_re = ".*/";
+      // The name is not a regular expression: every character stands for itself.
+      for (const char *c = file_base_name; *c != 0; ++c) {
+        if (strchr("^$\\.*+?()[]{}|/", *c)) focus_binary_re += '\\';
+        focus_binary_re += *c;
+      }
+      focus_binary_re += "$";
       free(dup_name);
 
       ElfReader reader(binary_);
-- 
2.43.0


From 179ae8849313f7f5fcb6bd0a3c43291d3f5a0376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 61/67] fix: let dump_gcov take flags; keep the names that
 cannot be demangled

---
 dump_gcov.cc  | 12 +++++++++---
 symbol_map.cc |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/dump_gcov.cc b/dump_gcov.cc
index 49a2ba6..84afd9c 100644
--- a/dump_gcov.cc
+++ b/dump_gcov.cc
@@ -14,7 +14,10 @@
 
 // Read the gcda file and dump the information.
 
+#include <vector>
+
 #include "base/commandlineflags.h"
+#include "base/logging.h"
 #include "profile_reader.h"
 #include "symbol_map.h"
 #include "third_party/abseil/absl/flags/parse.h"
@@ -22,16 +25,19 @@
 
 int main(int argc, char **argv) {
   absl::SetProgramUsageMessage(argv[0]);
-  absl::ParseCommandLine(argc, argv);
+  const std::vector<char *> args = absl::ParseCommandLine(argc, argv);
 
-  if (argc != 2) {
+  if (args.size() != 2) {
     LOG(FATAL) << "Please use: dump_gcov file_path\n";
     return -1;
   }
   devtools_crosstool_autofdo::SymbolMap symbol_map;
   devtools_crosstool_autofdo::AutoFDOProfileReader reader(
       &symbol_map, false);
-  reader.ReadFromFile(argv[1]);
+  if (!reader.ReadFromFile(args[1])) {
+    LOG(FATAL) << "Cannot read " << args[1];
+    return -1;
+  }
   symbol_map.Dump();
   return 0;
 }
diff --git a/symbol_map.cc b/symbol_map.cc
index 475f7ca..0bac49c 100644
--- a/symbol_map.cc
+++ b/symbol_map.cc
@@ -94,7 +94,7 @@ std::string getPrintName(const char *name) {
   if (!absl::GetFlag(FLAGS_demangle_symbol_names)) return name;
   if (!absl::debugging_internal::Demangle(name, tmp_buf, sizeof(tmp_buf))) {
     LOG(WARNING) << "Demangle failed: " << std::string(name);
-    return "";
+    return name;
   }
   return tmp_buf;
 }
-- 
2.43.0


From 119a7160ae01b2fe0b181a4de6f17436a868e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 62/67] fix: count the samples of Arm traces once

---
 simple_spe_sample_reader.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/simple_spe_sample_reader.cc b/simple_spe_sample_reader.cc
index a1d59ad..115515e 100644
--- a/simple_spe_sample_reader.cc
+++ b/simple_spe_sample_reader.cc
@@ -139,11 +139,7 @@ bool SimpleSpeDataSampleReader::Append(const std::string &profile_file) {
     range_count_map_[range] += count;
   }
   
-  // Update total count
-  total_count_ += temp_reader.total_count_;
-  
-  LOG(INFO) << "Appended profile " << profile_file 
-            << " (" << temp_reader.total_count_ << " samples)";
+  LOG(INFO) << "Appended profile " << profile_file;
   
   return true;
 }
@@ -167,6 +163,7 @@ bool SimpleSpeDataSampleReader::Read() {
   const auto &events = reader.events();
   uint64_t spe_event_count = 0;
   uint64_t branch_records = 0;
+  uint64_t samples = 0;
   
   for (const auto &event : events) {
     // Check if this event contains ARM SPE trace data
@@ -192,7 +189,7 @@ bool SimpleSpeDataSampleReader::Read() {
       // Handle conditional not-taken branches
       if (record.op.br_eret.br_cond && record.event.cond_not_taken) {
         address_count_map_[binary_offset]++;
-        total_count_++;
+        samples++;
         continue;
       }
       
@@ -202,7 +199,7 @@ bool SimpleSpeDataSampleReader::Read() {
         uint64_t target_offset = mmap_info.VaToBinaryOffset(target_runtime);
         if (target_offset != 0) {
           branch_count_map_[Branch(binary_offset, target_offset)]++;
-          total_count_++;
+          samples++;
         }
       }
     }
@@ -213,7 +210,7 @@ bool SimpleSpeDataSampleReader::Read() {
     return false;
   }
   
-  if (branch_records == 0 || total_count_ == 0) {
+  if (branch_records == 0 || samples == 0) {
     LOG(ERROR) << "No valid branch samples collected";
     return false;
   }
-- 
2.43.0


From 2979ac8fd23b47bb20fdffe48f717271e6dfa1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 63/67] fix: read the range lists of each split unit by
 themselves

---
 util/symbolize/addr2line_inlinestack.cc |  6 +++-
 util/symbolize/addr2line_inlinestack.h  |  2 ++
 util/symbolize/dwarf2reader.cc          | 38 ++++++++++++++-----------
 util/symbolize/dwarf3ranges.h           |  5 ++++
 4 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index e0ef7f0..d12bd5f 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -103,6 +103,7 @@ bool InlineStackHandler::StartCompilationUnit(uint64 offset,
   CHECK(subprogram_stack_.empty());
   compilation_unit_offset_ = offset;
   compilation_unit_base_ = 0;
+  ranges_base_ = 0;
   have_two_level_line_tables_ = false;
   subprogram_added_by_cu_ = false;
   if (input_file_index_ == -1) {
@@ -354,7 +355,10 @@ void InlineStackHandler::ProcessAttributeUnsigned(
         AddressRangeList::RangeList ranges;
 
         if (form == DW_FORM_sec_offset || form == DW_FORM_data4 || form == DW_FORM_data8) {
-          address_ranges_->ReadRangeList(data, compilation_unit_base_, &ranges, dwarf_version_);
+          // The offsets in a split unit are relative to DW_AT_GNU_ranges_base.
+          const uint64 range_base =
+              input_file_index_ != 0 && dwarf_version_ < 5 ? ranges_base_ : 0;
+          address_ranges_->ReadRangeList(range_base + data, compilation_unit_base_, &ranges, dwarf_version_);
         }
         else {
           CHECK(form == DW_FORM_rnglistx);
diff --git a/util/symbolize/addr2line_inlinestack.h b/util/symbolize/addr2line_inlinestack.h
index aaedb2c..8929a87 100644
--- a/util/symbolize/addr2line_inlinestack.h
+++ b/util/symbolize/addr2line_inlinestack.h
@@ -232,6 +232,8 @@ class InlineStackHandler: public Dwarf2Handler {
     address_ranges_ = address_ranges;
   }
 
+  AddressRangeList *address_range_list() const { return address_ranges_; }
+
   const SubprogramInfo *GetSubprogramForAddress(uint64 address);
 
   const SubprogramInfo *GetDeclaration(const SubprogramInfo *subprog) const;
diff --git a/util/symbolize/dwarf2reader.cc b/util/symbolize/dwarf2reader.cc
index 29c11ce..ae9772e 100644
--- a/util/symbolize/dwarf2reader.cc
+++ b/util/symbolize/dwarf2reader.cc
@@ -19,6 +19,7 @@
 #include <unistd.h>
 #include <stdint.h>
 #include <string.h>
+#include <memory>
 #include <stack>
 #include <utility>
 
@@ -1030,30 +1031,29 @@ void CompilationUnit::ProcessSplitDwarf() {
         SectionMap sections;
         ReadDebugSectionsFromDwo(&elf, &sections);
 
+        // The range lists of the .dwo file apply to its compilation unit only.
+        std::unique_ptr<AddressRangeList> dwo_ranges;
+        AddressRangeList* skeleton_ranges = NULL;
+        const uint64 skeleton_range_base = handler_->get_range_base();
+        InlineStackHandler *inlinestackhandler = NULL;
         auto iter = sections.find(".debug_rnglists");
-        size_t debug_ranges_size = 0;
-        const char *debug_ranges_data = NULL;
-        size_t debug_rnglist_size = 0;
-        const char *debug_rnglist_data = NULL;
         if (iter != sections.end()) {
-          debug_rnglist_data = iter->second.first;
-          debug_rnglist_size = iter->second.second;
-          AddressRangeList *debug_ranges = 
-                new AddressRangeList(debug_ranges_data,
-                                      debug_ranges_size,
-                                      debug_rnglist_data,
-                                      debug_rnglist_size,
-                                      &reader,
-                                      addr_buffer_, 
-                                      addr_buffer_length_);
-          InlineStackHandler *inlinestackhandler = dynamic_cast<InlineStackHandler*>(handler_);
+          inlinestackhandler = dynamic_cast<InlineStackHandler*>(handler_);
           if(!inlinestackhandler)  {
             LOG(FATAL) << "It is not possbile to process the .debug_rnglists sections in seperate .dwo files without InlineStackHandler.";
           }
-          inlinestackhandler->set_address_range_list(debug_ranges);
+          dwo_ranges.reset(new AddressRangeList(NULL, 0,
+                                                iter->second.first,
+                                                iter->second.second,
+                                                &reader,
+                                                addr_buffer_,
+                                                addr_buffer_length_));
+          skeleton_ranges = inlinestackhandler->address_range_list();
+          inlinestackhandler->set_address_range_list(dwo_ranges.get());
+          // A .dwo file has no DW_AT_rnglists_base: its only table is meant.
+          handler_->set_range_base(dwo_ranges->FirstRngListsBase());
         }
 
-        
         CompilationUnit dwo_comp_unit(dwo_name_, sections, 0, &reader,
                                       handler_);
         dwo_comp_unit.SetSplitDwarf(addr_buffer_, addr_buffer_length_, header_.dwo_id);
@@ -1061,6 +1061,10 @@ void CompilationUnit::ProcessSplitDwarf() {
         if (dwo_comp_unit.malformed())
           LOG(WARNING) << "File '" << dwo_name_ << "' has mangled "
                        << ".debug_info.dwo section.";
+        if (inlinestackhandler != NULL) {
+          inlinestackhandler->set_address_range_list(skeleton_ranges);
+          handler_->set_range_base(skeleton_range_base);
+        }
       } else {
         LOG(WARNING) << "File '" << dwo_name_ << "' is not an ELF file.";
       }
diff --git a/util/symbolize/dwarf3ranges.h b/util/symbolize/dwarf3ranges.h
index fc0299c..df9775a 100644
--- a/util/symbolize/dwarf3ranges.h
+++ b/util/symbolize/dwarf3ranges.h
@@ -118,6 +118,11 @@ class AddressRangeList {
 
   uint64 GetRngListsElementOffsetByIndex(uint64 addr_base, uint64 rng_index);
 
+  // Returns the base of the first table of the range lists section.
+  uint64 FirstRngListsBase() const {
+    return rngdatamap_.empty() ? 0 : rngdatamap_.begin()->first;
+  }
+
  private:
 
   uint64 ReadOffset(const char** offsetarrayptr);
-- 
2.43.0


From 181cb61f065c6a97a185a685fdda6ac120d5a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 64/67] fix: let the lines at the end of a sequence cover
 nothing

---
 util/symbolize/functioninfo.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/util/symbolize/functioninfo.h b/util/symbolize/functioninfo.h
index 2003044..9f045e6 100644
--- a/util/symbolize/functioninfo.h
+++ b/util/symbolize/functioninfo.h
@@ -105,7 +105,10 @@ class AddressToLineMap {
   // Adds both a logical entry and an actual entry.
   void AddLine(uint64 addr, LineIdentifier line_id) {
     logical_lines_.push_back(line_id);
-    line_map_[addr] = logical_lines_.size();
+    uint32 &line = line_map_[addr];
+    overwritten_lines_.resize(logical_lines_.size());
+    overwritten_lines_.back() = line;
+    line = logical_lines_.size();
   }
 
   // Resize the per-CU logical map to the size of the CU's
@@ -151,10 +154,11 @@ class AddressToLineMap {
   uint32 NumLogicals() const { return logical_lines_.size(); }
 
   // Ends at ADDR the sequence whose first line is numbered above
-  // LINES_BEFORE. Another sequence may start right at ADDR; its line stays.
+  // LINES_BEFORE. Another sequence may start right at ADDR; its line stays,
+  // also when this sequence has lines at ADDR, which cover nothing.
   void EndSequence(uint64 addr, uint32 lines_before) {
     uint32 &line = line_map_[addr];
-    if (line > lines_before) line = 0;
+    while (line > lines_before) line = overwritten_lines_[line - 1];
   }
 
   const_iterator begin() const {
@@ -186,6 +190,9 @@ class AddressToLineMap {
   std::vector<LineIdentifier> logical_lines_;
   AddressToLogical line_map_;
 
+  // For each line added with AddLine, the line that was at its address before.
+  std::vector<uint32> overwritten_lines_;
+
   // The logical_lines_ vector stores only logicals that are actually
   // used by actuals that we keep (i.e., for non-deleted and/or
   // sampled functions). This maps a per-CU logical number onto the
-- 
2.43.0


From 9ef06a93a1103c14458b6d5cc3d1b81d4d145fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:51 +0000
Subject: [PATCH 65/67] fix: report the early end of a profile being read

---
 gcov.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gcov.cc b/gcov.cc
index f16437b..a843e1d 100644
--- a/gcov.cc
+++ b/gcov.cc
@@ -187,6 +187,8 @@ static inline const char *gcov_read_bytes(unsigned bytes) {
                    1, excess_bytes, gcov_var.file);
     gcov_var.byte_length += excess_bytes;
     if (gcov_var.byte_length < bytes) {
+      // The file ends early, which gcov_close() reports.
+      gcov_var.error = 1;
       gcov_var.byte_length = 0;
       return 0;
     }
-- 
2.43.0


From a924b39c5dfdcbede8fc163d4bcf659948407023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:58 +0000
Subject: [PATCH 66/67] fix: merge adjacent address ranges of a function

---
 util/symbolize/addr2line_inlinestack.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/symbolize/addr2line_inlinestack.cc b/util/symbolize/addr2line_inlinestack.cc
index d12bd5f..f81cdad 100644
--- a/util/symbolize/addr2line_inlinestack.cc
+++ b/util/symbolize/addr2line_inlinestack.cc
@@ -662,7 +662,7 @@ AddressRangeList::RangeList InlineStackHandler::SortAndMerge(
 
   std::sort(rangelist.begin(), rangelist.end());
   for (const auto &range : rangelist) {
-    if (merged.empty() || range.first >= merged.back().second) {
+    if (merged.empty() || range.first > merged.back().second) {
       merged.push_back(range);
     } else {
       merged.back().second = std::max(range.second, merged.back().second);
-- 
2.43.0


From a73fd85f0ea74702b862597be3706b6f2d1d1bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:58 +0000
Subject: [PATCH 67/67] fix: skip empty entries of .debug_ranges lists

---
 util/symbolize/dwarf3ranges.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/symbolize/dwarf3ranges.cc b/util/symbolize/dwarf3ranges.cc
index 48c8b85..a992984 100644
--- a/util/symbolize/dwarf3ranges.cc
+++ b/util/symbolize/dwarf3ranges.cc
@@ -54,7 +54,7 @@ void AddressRangeList::ReadDwarfRangeList(uint64 offset, uint64 base,
       base = stop;
     else if (start == 0 && stop == 0)
       break;
-    else
+    else if (start != stop)
       ranges->push_back(make_pair(start+base, stop+base));
     pos += 2*width;
   } while (true);
-- 
2.43.0


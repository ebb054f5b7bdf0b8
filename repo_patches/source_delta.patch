From c4512cb9e46d08f723e24b764f04a11752b2adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:34 +0000
Subject: [PATCH 01/65] fix: report failed writes from File::WriteStringToFile

---
 src/kml/base/file.cc | 3 ++-
 src/kml/base/file.h  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/file.cc b/src/kml/base/file.cc
index 7aec359..54cc119 100644
--- a/src/kml/base/file.cc
+++ b/src/kml/base/file.cc
@@ -70,8 +70,9 @@ bool File::WriteStringToFile(const string& data,
     return false;
   }
   output_file.write(data.c_str(), static_cast<std::streamsize>(data.length()));
+  // close() flushes: the data is not written until it has succeeded.
   output_file.close();
-  return true;
+  return output_file.good();
 }
 
 string File::JoinPaths(const string& p1, const string& p2) {
diff --git a/src/kml/base/file.h b/src/kml/base/file.h
index ea51eba..37f2f00 100644
--- a/src/kml/base/file.h
+++ b/src/kml/base/file.h
@@ -39,7 +39,8 @@ class File {
                                string* output);
 
   // Writes a string into a file. Returns false if the target file could
-  // not be created and opened for writing.
+  // not be created and opened for writing or if any of the data could not be
+  // written.
   static bool WriteStringToFile(const string& data,
                                 const string& filename);
 
-- 
2.43.0


From cfc98550c72b1bbade6ef5b648f2953b964f184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:01 +0000
Subject: [PATCH 02/65] fix: report failed reads from File::ReadFileToString

---
 src/kml/base/file.cc | 9 +++++++--
 src/kml/base/file.h  | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/kml/base/file.cc b/src/kml/base/file.cc
index 54cc119..e3c2c7f 100644
--- a/src/kml/base/file.cc
+++ b/src/kml/base/file.cc
@@ -46,16 +46,21 @@ bool File::ReadFileToString(const string& filename, string* output) {
   if (!input_file.is_open() || !input_file.good()) {
     return false;
   }
-  output->clear();
+  string contents;
   const unsigned int kBufferSize = 1024;
   char buffer[kBufferSize];
   while (!input_file.eof() && input_file.good()) {
     input_file.read(buffer, kBufferSize);
     // Guard zero read sizess for MSVC 2010.
     if (input_file.gcount() > 0) {
-      output->append(buffer, static_cast<size_t>(input_file.gcount()));
+      contents.append(buffer, static_cast<size_t>(input_file.gcount()));
     }
   }
+  // badbit is set, without eofbit, if reading from the file failed.
+  if (input_file.bad() || !input_file.eof()) {
+    return false;
+  }
+  output->swap(contents);
   return true;
 }
 
diff --git a/src/kml/base/file.h b/src/kml/base/file.h
index 37f2f00..07c7ce5 100644
--- a/src/kml/base/file.h
+++ b/src/kml/base/file.h
@@ -34,7 +34,7 @@ class File {
  public:
 
   // Reads a file into a string. Returns false if given a bad file descriptor
-  // or if the file could not be opened. output is unmodified on failure.
+  // or if the file could not be opened or read. output is unmodified on failure.
   static bool ReadFileToString(const string& filename,
                                string* output);
 
-- 
2.43.0


From 6532f50e307b775ce2afbd1d5acbfc49e47b2b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:58 +0000
Subject: [PATCH 03/65] fix: report errors of the zip writer from
 ZipFile::AddEntry

---
 src/kml/base/zip_file.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 3366837..1d22041 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -231,11 +231,15 @@ bool ZipFile::AddEntry(const string& data,
   if (!zipfile) {
     return false;
   }
-  zipOpenNewFileInZip(zipfile, path_in_zip.c_str(), 0, 0, 0, 0, 0, 0,
-                      Z_DEFLATED, Z_DEFAULT_COMPRESSION);
-  zipWriteInFileInZip(zipfile, static_cast<const void*>(data.data()),
-                      static_cast<unsigned int>(data.size()));
-  return zipCloseFileInZip(zipfile) == ZIP_OK;
+  if (zipOpenNewFileInZip(zipfile, path_in_zip.c_str(), 0, 0, 0, 0, 0, 0,
+                          Z_DEFLATED, Z_DEFAULT_COMPRESSION) != ZIP_OK) {
+    return false;
+  }
+  const int write_status =
+      zipWriteInFileInZip(zipfile, static_cast<const void*>(data.data()),
+                          static_cast<unsigned int>(data.size()));
+  const int close_status = zipCloseFileInZip(zipfile);
+  return write_status == ZIP_OK && close_status == ZIP_OK;
 }
 
 }  // end namespace kmlbase
-- 
2.43.0


From 4d3154497e74bf4864dd27997d22b99cce13c3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:02 +0000
Subject: [PATCH 04/65] fix: ZipFile table of contents used an unterminated
 static buffer

---
 src/kml/base/zip_file.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 1d22041..328aa4b 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -98,8 +98,10 @@ ZipFile::ZipFile(const string& data)
     if (zfile) {
       unz_file_info finfo;
       do {
-        static char buf[1024];
-        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, buf, sizeof(buf),
+        // A name that fills the buffer is not terminated by unzip.
+        char buf[1024 + 1];
+        buf[sizeof(buf) - 1] = '\0';
+        if (libkml_unzGetCurrentFileInfo(zfile, &finfo, buf, sizeof(buf) - 1,
               0, 0, 0, 0) == UNZ_OK) {
           zipfile_toc_.push_back(buf);
         }
-- 
2.43.0


From ad2ec92078516dfec1b986b4503dd127e578b6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:07 +0000
Subject: [PATCH 05/65] fix: ZipFile leaked its memory stream on an unreadable
 archive

---
 src/kml/base/zip_file.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 328aa4b..10a59a0 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -107,6 +107,9 @@ ZipFile::ZipFile(const string& data)
         }
       } while (libkml_unzGoToNextFile(zfile) == UNZ_OK);
       libkml_unzClose(zfile);
+    } else {
+      // The stream is only owned by the unzFile once it is attached.
+      api.zclose_file(api.opaque, mem_stream);
     }
   }
 }
@@ -185,6 +188,7 @@ bool ZipFile::GetEntry(const string& path_in_zip,
   }
   unzFile unzfile = libkml_unzAttach(mem_stream, &api);
   if (!unzfile) {
+    api.zclose_file(api.opaque, mem_stream);
     return false;
   }
 
-- 
2.43.0


From e0a60d2a25a6017cd30fc4263cbf38419c400b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:11 +0000
Subject: [PATCH 06/65] fix: ZipFile::GetEntry returned entries whose checksum
 is wrong

---
 src/kml/base/zip_file.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 10a59a0..d374a3a 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -213,8 +213,10 @@ bool ZipFile::GetEntry(const string& path_in_zip,
     return true;
   }
   char* filedata = new char[nbytes];
+  // The checksum of the entry is verified when it is closed.
   if (libkml_unzReadCurrentFile(unzfilehelper->get_unzfile(), filedata,
-                         nbytes) == static_cast<int>(nbytes)) {
+                         nbytes) == static_cast<int>(nbytes) &&
+      libkml_unzCloseCurrentFile(unzfilehelper->get_unzfile()) == UNZ_OK) {
     output->assign(filedata, nbytes);
     delete [] filedata;
     return true;
-- 
2.43.0


From 27ddc209b0fb16572de02572288c1d9683557d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:13 +0000
Subject: [PATCH 07/65] fix: report a KMZ archive that could not be written in
 full

---
 src/kml/base/zip_file.cc   | 27 ++++++++++++++++++++++-----
 src/kml/base/zip_file.h    |  6 ++++++
 src/kml/engine/kmz_file.cc | 13 +++++++++++--
 src/kml/engine/kmz_file.h  |  6 ++++++
 4 files changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index d374a3a..5d38b4b 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -43,15 +43,23 @@ static const unsigned long kMaxUncompressedZipSize = ZIP_MAX_UNCOMPRESSED_SIZE;
 // This class hides the use of minizip from the interface.
 class MinizipFile {
  public:
-  MinizipFile(zipFile zipfile) : zipfile_(zipfile) {}
+  MinizipFile(zipFile zipfile) : zipfile_(zipfile), write_failed_(false) {}
   ~MinizipFile() {
-    if (zipfile_) {
-      zipClose(zipfile_, 0);
-    }
+    Close();
   }
   zipFile get_zipfile() { return zipfile_; }
+  void set_write_failed() { write_failed_ = true; }
+  bool Close() {
+    if (!zipfile_) {
+      return false;
+    }
+    const bool closed = zipClose(zipfile_, 0) == ZIP_OK;
+    zipfile_ = NULL;
+    return closed && !write_failed_;
+  }
  private:
   zipFile zipfile_;
+  bool write_failed_;
   LIBKML_DISALLOW_EVIL_CONSTRUCTORS(MinizipFile);
 };
 
@@ -241,13 +249,22 @@ bool ZipFile::AddEntry(const string& data,
   }
   if (zipOpenNewFileInZip(zipfile, path_in_zip.c_str(), 0, 0, 0, 0, 0, 0,
                           Z_DEFLATED, Z_DEFAULT_COMPRESSION) != ZIP_OK) {
+    minizip_file_->set_write_failed();
     return false;
   }
   const int write_status =
       zipWriteInFileInZip(zipfile, static_cast<const void*>(data.data()),
                           static_cast<unsigned int>(data.size()));
   const int close_status = zipCloseFileInZip(zipfile);
-  return write_status == ZIP_OK && close_status == ZIP_OK;
+  if (write_status != ZIP_OK || close_status != ZIP_OK) {
+    minizip_file_->set_write_failed();
+    return false;
+  }
+  return true;
+}
+
+bool ZipFile::Close() {
+  return minizip_file_ && minizip_file_->Close();
 }
 
 }  // end namespace kmlbase
diff --git a/src/kml/base/zip_file.h b/src/kml/base/zip_file.h
index f823d1c..5a7980f 100644
--- a/src/kml/base/zip_file.h
+++ b/src/kml/base/zip_file.h
@@ -105,6 +105,12 @@ class ZipFile {
   // essentially a NOP. True will be returned, but the data is unchanged.
   bool AddEntry(const string& data, const string& path_in_zip);
 
+  // Finishes a ZIP file created with ZipFile::Create. Returns true if the
+  // archive and everything added to it was written in full. Nothing can be
+  // added afterwards. The destructor finishes the archive if this was not
+  // called, but cannot report a failure to do so.
+  bool Close();
+
  private:
   // The constructor used to open a ZIP file in-memory, suitable for reading.
   ZipFile(const string& data);
diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 05ac2d5..64632fe 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -136,6 +136,10 @@ bool KmzFile::AddFile(const string& data, const string& path_in_kmz) {
   return zip_file_->AddEntry(data, path_in_kmz);
 }
 
+bool KmzFile::Close() {
+  return zip_file_->Close();
+}
+
 // TODO: the implementation of this function really belongs in base/zip_file.
 size_t KmzFile::AddFileList(const string& base_url,
                             const StringVector& file_paths) {
@@ -194,7 +198,7 @@ bool KmzFile::WriteKmz(const char* kmz_filepath, const string& kml) {
   if (!kmz.get()) {
     return false;
   }
-  if (!kmz->AddFile(kml, kDefaultKmlFilename)) {
+  if (!kmz->AddFile(kml, kDefaultKmlFilename) || !kmz->Close()) {
     return false;
   }
   return kmlbase::File::Exists(kmz_filepath);
@@ -234,7 +238,9 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
   const string kml_data = kmldom::SerializePretty(element);
   // First add the KML file. This is the file opened by default by a client
   // from a KMZ archive.
-  kmz_file->AddFile(kml_data, kDefaultKmlFilename);
+  if (!kmz_file->AddFile(kml_data, kDefaultKmlFilename)) {
+    return false;
+  }
 
   // Next gather the local references and add them.
   StringVector file_paths;
@@ -242,6 +248,9 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
     kmz_file->AddFileList(base_url, file_paths);
   }
 
+  if (!kmz_file->Close()) {
+    return false;
+  }
   return kmlbase::File::Exists(kmz_filepath);
 }
 
diff --git a/src/kml/engine/kmz_file.h b/src/kml/engine/kmz_file.h
index c338b03..1dd4793 100644
--- a/src/kml/engine/kmz_file.h
+++ b/src/kml/engine/kmz_file.h
@@ -118,6 +118,12 @@ class KmzFile : public kmlbase::Referent {
   // False is also returned on any interal zipfile error.
   bool AddFile(const string& data, const string& path_in_kmz);
 
+  // Finishes a KMZ file created with Create. Returns true if the archive and
+  // everything added to it was written in full. Nothing can be added
+  // afterwards. The destructor finishes the archive if this was not called, but
+  // cannot report a failure to do so.
+  bool Close();
+
   // Adds a StringVector of hrefs to the KMZ file, resolved against a base
   // URL. The base URL is usually from kmz_file->get_url() and the hrefs
   // are most easily generated from GetRelativeLinks. All paths are normalized
-- 
2.43.0


From aedd56dc0100f5a1c435ab546ec8434f68229eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:17 +0000
Subject: [PATCH 08/65] fix: KmzFile::CreateFromKmlFilepath crashed on
 unparsable KML

---
 src/kml/engine/kmz_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 64632fe..154b328 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -257,6 +257,9 @@ bool KmzFile::CreateFromElement(const kmldom::ElementPtr& element,
 // Static.
 bool KmzFile::CreateFromKmlFile(const KmlFilePtr& kml_file,
                                 const string& kmz_filepath) {
+  if (!kml_file) {
+    return false;
+  }
   return KmzFile::CreateFromElement(
       kml_file->get_root(), kml_file->get_url(), kmz_filepath);
 }
-- 
2.43.0


From c202e0a1bc7f70841e992df574eb829f334d5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:36 +0000
Subject: [PATCH 09/65] fix: KmzFile::AddFileList read absolute references from
 disk

---
 src/kml/engine/kmz_file.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index 154b328..ddd1cff 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -162,9 +162,10 @@ size_t KmzFile::AddFileList(const string& base_url,
       continue;
     }
 
-    // If the normalized_href points above the base_url, we consider it
-    // invalid.
-    if (normalized_href.substr(0, 2) == "..") {
+    // If the normalized_href is absolute or points above the base_url, we
+    // consider it invalid.
+    if (normalized_href.substr(0, 1) == "/" ||
+        normalized_href.substr(0, 2) == "..") {
       error_count++;
       continue;
     }
-- 
2.43.0


From 9cee575256b2501019203d6b8075df7356fadfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:19 +0000
Subject: [PATCH 10/65] fix: detect failed writes to a ZIP file that minizip
 ignores

---
 src/kml/base/zip_file.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 5d38b4b..30b737e 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -40,6 +40,16 @@ namespace kmlbase {
 // to attempt to handle by default. (2 GB, as per minizip/unzip.h.)
 static const unsigned long kMaxUncompressedZipSize = ZIP_MAX_UNCOMPRESSED_SIZE;
 
+// minizip drops the error of some of its writes.  The stream remembers it: this
+// makes closing the archive fail if any write to it has failed.
+static int ZCALLBACK CloseReportingErrors(voidpf, voidpf stream) {
+  zlib_filefunc64_def io;
+  fill_fopen64_filefunc(&io);
+  const int error = io.zerror_file(io.opaque, stream);
+  const int close_status = io.zclose_file(io.opaque, stream);
+  return error ? error : close_status;
+}
+
 // This class hides the use of minizip from the interface.
 class MinizipFile {
  public:
@@ -82,7 +92,10 @@ ZipFile* ZipFile::OpenFromFile(const char* file_path) {
 
 // Static.
 ZipFile* ZipFile::Create(const char* file_path) {
-  zipFile zipfile = zipOpen(file_path, 0);
+  zlib_filefunc64_def io;
+  fill_fopen64_filefunc(&io);
+  io.zclose_file = CloseReportingErrors;
+  zipFile zipfile = zipOpen2_64(file_path, 0, NULL, &io);
   if (!zipfile) {
     return NULL;
   }
-- 
2.43.0


From f801e8bedc01c862110b71c64d0889c98a4f56b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:13 +0000
Subject: [PATCH 11/65] fix: escape attribute values when serializing

A value holding &, < or a quote (such as an atom:link href with a query)
was written raw, so that the saved document could not be parsed again.
---
 src/kml/base/attributes.cc | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/attributes.cc b/src/kml/base/attributes.cc
index 5cc8508..444790f 100644
--- a/src/kml/base/attributes.cc
+++ b/src/kml/base/attributes.cc
@@ -71,6 +71,36 @@ bool Attributes::Parse(const kmlbase::StringVector& attrs) {
   return true;
 }
 
+// Appends the given attribute value such that parsing the result yields the
+// value again: markup characters, and white space which would be normalized,
+// are written as references.
+static void AppendEscaped(const string& value, string* output) {
+  for (size_t i = 0; i < value.size(); ++i) {
+    switch (value[i]) {
+      case '&':
+        *output += "&amp;";
+        break;
+      case '<':
+        *output += "&lt;";
+        break;
+      case '"':
+        *output += "&quot;";
+        break;
+      case '\t':
+        *output += "&#9;";
+        break;
+      case '\n':
+        *output += "&#10;";
+        break;
+      case '\r':
+        *output += "&#13;";
+        break;
+      default:
+        *output += value[i];
+    }
+  }
+}
+
 void Attributes::Serialize(string* output) const {
   if (output) {
     StringMapIterator iter = CreateIterator();
@@ -78,7 +108,7 @@ void Attributes::Serialize(string* output) const {
       *output += " ";
       *output += iter.Data().first;
       *output += "=\"";
-      *output += iter.Data().second;
+      AppendEscaped(iter.Data().second, output);
       *output += "\"";
     }
   }
-- 
2.43.0


From 9a6f92440721c19e889e2ff5c3226b3c16cb1f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:31 +0000
Subject: [PATCH 12/65] fix: quote text holding a CDATA terminator when
 serializing

Text with "]]>" was wrapped in a CDATA section it ended early, and text
with "<![CDATA[" had only the first of several ampersands escaped, so that
the saved document could not be parsed again. A carriage return came back
as a newline.
---
 src/kml/dom/serializer.cc | 41 ++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/kml/dom/serializer.cc b/src/kml/dom/serializer.cc
index ab25bae..5e9e02a 100644
--- a/src/kml/dom/serializer.cc
+++ b/src/kml/dom/serializer.cc
@@ -37,13 +37,32 @@ using kmlbase::ToString;
 namespace kmldom {
 
 static string EnityEscapeXml(const string& xml) {
-  kmlbase::StringMap map;
-  map["&"] = "&amp;";
-  map["<"] = "&lt;";
-  map[">"] = "&gt;";
-  map["'"] = "&apos;";
-  map["\""] = "&quot;";
-  return kmlbase::CreateExpandedStrings(xml, map, "", "");
+  string escaped;
+  for (size_t i = 0; i < xml.size(); ++i) {
+    switch (xml[i]) {
+      case '&':
+        escaped += "&amp;";
+        break;
+      case '<':
+        escaped += "&lt;";
+        break;
+      case '>':
+        escaped += "&gt;";
+        break;
+      case '\'':
+        escaped += "&apos;";
+        break;
+      case '"':
+        escaped += "&quot;";
+        break;
+      case '\r':
+        escaped += "&#13;";
+        break;
+      default:
+        escaped += xml[i];
+    }
+  }
+  return escaped;
 }
 
 Serializer::Serializer() : xsd_(*Xsd::GetSchema()) {
@@ -56,8 +75,12 @@ Serializer::Serializer() : xsd_(*Xsd::GetSchema()) {
 const string Serializer::MaybeQuoteString(const string& value) {
   // If there's a CDATA anywhere in this string, it must have been set through
   // the API (since the underlying XML parser will strip it out). We need to
-  // entity-replace any reserved characters.
-  if (value.find("<![CDATA[") != string::npos) {
+  // entity-replace any reserved characters.  The same goes for a string which
+  // cannot appear in a CDATA: one holding its terminator, or a carriage return
+  // which the XML parser would turn into a newline.
+  if (value.find("<![CDATA[") != string::npos ||
+      value.find("]]>") != string::npos ||
+      value.find('\r') != string::npos) {
     return EnityEscapeXml(value);
   }
   // If the string contains any reserved characters (but does not have any
-- 
2.43.0


From 81fa331f4eacb279b8e40b0da717bb93a6acc64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:47 +0000
Subject: [PATCH 13/65] fix: escape the text of unknown elements kept by the
 parser

The character data and attribute values of unknown elements were kept with
their references already expanded, so that a document holding them could
not be parsed again after it was saved.
---
 src/kml/dom/kml_handler.cc | 39 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 08e8625..796ed5b 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -55,6 +55,32 @@ kMaxNestingDepth = LIBKML_MAX_NESTING_DEPTH;
 
 namespace kmldom {
 
+// Appends the given character data or attribute value to XML text such that
+// parsing the text yields it again.
+static void AppendEscapedXml(const string& s, string* xml) {
+  for (size_t i = 0; i < s.size(); ++i) {
+    switch (s[i]) {
+      case '&':
+        xml->append("&amp;");
+        break;
+      case '<':
+        xml->append("&lt;");
+        break;
+      case '>':
+        xml->append("&gt;");
+        break;
+      case '"':
+        xml->append("&quot;");
+        break;
+      case '\r':
+        xml->append("&#13;");
+        break;
+      default:
+        xml->append(1, s[i]);
+    }
+  }
+}
+
 KmlHandler::KmlHandler(parser_observer_vector_t& observers)
   : kml_factory_(*KmlFactory::GetFactory()),
     skip_depth_(0),
@@ -328,7 +354,12 @@ bool KmlHandler::CallAddChildObservers(
 // <Placemark><Point><coordinates/></Point></Placemark>
 // <X><Point>foo<coordinates/>bar</Point></P> remains as-is.
 void KmlHandler::CharData(const string& s) {
-  char_data_.top().append(s);
+  if (skip_depth_ > 0 && in_description_ == 0) {
+    // This becomes part of the raw XML of an unknown element.
+    AppendEscapedXml(s, &char_data_.top());
+  } else {
+    char_data_.top().append(s);
+  }
 }
 
 // As with STL pop() methods this is (potentially) destructive.  If the
@@ -355,7 +386,11 @@ void KmlHandler::InsertUnknownStartElement(const string& name,
     top.append(" ");
     top.append(atts.at(i));
     top.append("=\"");
-    top.append(atts.at(i+1));
+    if (in_description_ > 0) {
+      top.append(atts.at(i+1));
+    } else {
+      AppendEscapedXml(atts.at(i+1), &top);
+    }
     top.append("\"");
   }
   top.append(">");
-- 
2.43.0


From 142fe053c94e2278330c8899b7ec780f509609ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:45 +0000
Subject: [PATCH 14/65] fix: coordinates parser overran its buffers and hung on
 junk

A number longer than 1023 characters overflowed a stack buffer, an
unparsable longitude or altitude was taken from uninitialized memory, and
coordinates without any number were parsed for ever.
---
 src/kml/dom/geometry.cc | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index ed43273..39a9f54 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -87,42 +87,38 @@ bool Coordinates::ParseVec3(const char* cstr, char** nextp, Vec3* vec) {
   }
   bool done = false;
   
-  int k;
-  char lon[1024];
-  k = 0;
   while(*cstr && *cstr!='-' && !isdigit(*cstr)) { ++cstr; }
   const char *first = cstr;
   
-  while (*cstr && *cstr!=' ' && *cstr!='\n' && *cstr!=',') { ++cstr; ++k; }
+  while (*cstr && *cstr!=' ' && *cstr!='\n' && *cstr!=',') { ++cstr; }
   
-  memcpy(lon, first, k);
-  lon[k] = '\0'; 
-  string lon_s = string(lon);
-  if( lon_s.empty()) { done = false; return done; }
+  string lon_s(first, cstr - first);
+  if( lon_s.empty()) {
+    // Nothing but junk: it is consumed, such that the caller ends.
+    *nextp = const_cast<char*>(cstr);
+    done = false;
+    return done;
+  }
   
-  double longitude; 
+  double longitude = 0.0;
   kmlbase::StringToDouble(lon_s, &longitude);
   vec->set(0, longitude);
   
   
-  while(*cstr && *cstr!='-' && *cstr!='\n' && !isdigit(*cstr)) { ++cstr; ++k; }
+  while(*cstr && *cstr!='-' && *cstr!='\n' && !isdigit(*cstr)) { ++cstr; }
   
-  char lat[1024];
   first = cstr;
-  k = 0;
   int b = 0;
   while (*cstr  && *cstr!=',') {
     if( *cstr==' ') {
       b = 1;  
       break;
     }
-    ++cstr;  ++k;
+    ++cstr;
   }
-  memcpy(lat, first, k);
-  lat[k] = '\0';
   done = true;
   
-  string lat_s = string(lat);
+  string lat_s(first, cstr - first);
   double latitude = 0.0;
   if( !lat_s.empty())
     kmlbase::StringToDouble(lat_s, &latitude);
@@ -130,24 +126,20 @@ bool Coordinates::ParseVec3(const char* cstr, char** nextp, Vec3* vec) {
   vec->set(1, latitude);
   
   
-  while(*cstr && *cstr!='-'&& !isdigit(*cstr)) { ++cstr; ++k; }
+  while(*cstr && *cstr!='-'&& !isdigit(*cstr)) { ++cstr; }
   
   if ( b < 1) {
-    char alt[1024];
     first = cstr;
-    k = 0;
     while (*cstr && *cstr!=',') {
       if( *cstr==' ') {
 	b = 1;  
 	break;
       }
-      ++cstr;  ++k;
+      ++cstr;
     }
-    memcpy(alt, first, k); 
-    alt[k] = '\0';
     
-    string alt_s = string(alt);
-    double altitude;
+    string alt_s(first, cstr - first);
+    double altitude = 0.0;
     if( !alt_s.empty() ) {
       kmlbase::StringToDouble(alt_s, &altitude);
       vec->set(2, altitude);
-- 
2.43.0


From 6876577f146de8f4a69671437364191860313ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:02 +0000
Subject: [PATCH 15/65] fix: coordinates separated by line breaks or tabs were
 merged

Only a space ended a tuple, so that the output of SerializeRaw (one tuple
per line) and other line-separated coordinates came back as different
tuples.
---
 src/kml/dom/geometry.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index 39a9f54..dab74b0 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -90,7 +90,7 @@ bool Coordinates::ParseVec3(const char* cstr, char** nextp, Vec3* vec) {
   while(*cstr && *cstr!='-' && !isdigit(*cstr)) { ++cstr; }
   const char *first = cstr;
   
-  while (*cstr && *cstr!=' ' && *cstr!='\n' && *cstr!=',') { ++cstr; }
+  while (*cstr && !isspace(*cstr) && *cstr!=',') { ++cstr; }
   
   string lon_s(first, cstr - first);
   if( lon_s.empty()) {
@@ -110,7 +110,7 @@ bool Coordinates::ParseVec3(const char* cstr, char** nextp, Vec3* vec) {
   first = cstr;
   int b = 0;
   while (*cstr  && *cstr!=',') {
-    if( *cstr==' ') {
+    if( isspace(*cstr)) {
       b = 1;  
       break;
     }
@@ -131,7 +131,7 @@ bool Coordinates::ParseVec3(const char* cstr, char** nextp, Vec3* vec) {
   if ( b < 1) {
     first = cstr;
     while (*cstr && *cstr!=',') {
-      if( *cstr==' ') {
+      if( isspace(*cstr)) {
 	b = 1;  
 	break;
       }
-- 
2.43.0


From 19855b7c8cbc9c673f5ca0c73537e1839ee276d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:16 +0000
Subject: [PATCH 16/65] fix: gx:coord with an empty component used
 uninitialized memory

---
 src/kml/dom/geometry.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/dom/geometry.cc b/src/kml/dom/geometry.cc
index dab74b0..b405076 100644
--- a/src/kml/dom/geometry.cc
+++ b/src/kml/dom/geometry.cc
@@ -553,7 +553,7 @@ void GxTrack::Parse(const string& char_data, std::vector<Vec3>* out) {
   kmlbase::SplitStringUsing(char_data, " ", &s);
   kmlbase::Vec3 vec;
   for (size_t i = 0; i < s.size(); i++) {
-    double d;
+    double d = 0.0;
     kmlbase::FromString(s[i], &d);
     vec.set(static_cast<int>(i), d);
     if (i > 2) break;
-- 
2.43.0


From 04b93910f1910e13abf73c4ca2c682197554e7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:56 +0000
Subject: [PATCH 17/65] fix: pretty serialization added white space to text

The text of Snippet, linkSnippet and SimpleData was written between line
breaks and indentation that became part of the text when the document was
loaded again, and grew with every save.
---
 src/kml/dom/xml_serializer.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/kml/dom/xml_serializer.h b/src/kml/dom/xml_serializer.h
index 3b03443..a9d0180 100644
--- a/src/kml/dom/xml_serializer.h
+++ b/src/kml/dom/xml_serializer.h
@@ -89,7 +89,8 @@ class XmlSerializer : public Serializer {
     : newline_(newline),
       indent_(indent),
       output_(output),
-      start_pending_(false) {
+      start_pending_(false),
+      in_text_(false) {
   }
 
   virtual ~XmlSerializer() {}
@@ -117,7 +118,10 @@ class XmlSerializer : public Serializer {
       tag_stack_.pop();
     } else {
       tag_stack_.pop();
-      Indent();
+      if (!in_text_) {
+        Indent();
+      }
+      in_text_ = false;
       output_->write("</", 2);
       const string& tag_name = xsd_.ElementName(type_id);
       output_->write(tag_name.data(), tag_name.size());
@@ -148,10 +152,14 @@ class XmlSerializer : public Serializer {
 
   // Save out character data.
   virtual void SaveContent(const string& content, bool maybe_quote) {
-    EmitStart(false);
-    if (maybe_quote) {
+    if (maybe_quote && !content.empty()) {
+      // This is the text of the element: no white space may be added to it.
+      EmitStart(false, true);
       WriteQuoted(content);
+      in_text_ = true;
     } else {
+      EmitStart(false);
+      in_text_ = false;
       output_->write(content.data(), content.size());
     }
   }
@@ -211,7 +219,7 @@ class XmlSerializer : public Serializer {
     output_->write(quoted.data(), quoted.size());
   }
 
-  bool EmitStart(bool is_nil) {
+  bool EmitStart(bool is_nil, bool is_text = false) {
     if (!start_pending_) {
       return false;
     }
@@ -228,7 +236,9 @@ class XmlSerializer : public Serializer {
     } else {
       output_->put('>');
     }
-    Newline();
+    if (!is_text) {
+      Newline();
+    }
     start_pending_ = false;
     return true;
   }
@@ -238,6 +248,7 @@ class XmlSerializer : public Serializer {
   T* output_;
   std::stack<int> tag_stack_;
   bool start_pending_;
+  bool in_text_;
   string serialized_attributes_;
 };
 
-- 
2.43.0


From 8dac7de019b9b18113595ecc597fb77b87a78bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:48 +0000
Subject: [PATCH 18/65] fix: xal:LocalityName was lost when an address was
 serialized

---
 src/kml/dom/xal.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kml/dom/xal.cc b/src/kml/dom/xal.cc
index 08f597e..cc8ea07 100644
--- a/src/kml/dom/xal.cc
+++ b/src/kml/dom/xal.cc
@@ -164,6 +164,9 @@ void XalLocality::AddElement(const ElementPtr& element) {
 
 void XalLocality::Serialize(Serializer& serializer) const {
   ElementSerializer element_serializer(*this, serializer);
+  if (has_localityname()) {
+    serializer.SaveFieldById(Type_xalLocalityName, get_localityname());
+  }
   if (has_thoroughfare()) {
     serializer.SaveElement(get_thoroughfare());
   }
-- 
2.43.0


From 18dc87fdb8ef1ffc2513e32cc77f26703f66c9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:25 +0000
Subject: [PATCH 19/65] fix: truncated input of some sizes was taken for a
 whole document

The size of the input was passed as the flag which says that it is final.
expat keeps that flag in one byte, so that input whose size is a multiple
of 256 (an empty string, for one) was not checked for being complete: the
part of a document that had arrived was returned without an error.
---
 src/kml/base/expat_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index 9a11720..27d2d97 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -143,7 +143,8 @@ bool ExpatParser::ParseInternalBuffer(size_t len, string* errors,
 // Private.
 bool ExpatParser::_ParseString(const string& xml, string* errors) {
   int xml_size = static_cast<int>(xml.size());
-  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, xml_size);
+  const int is_final = 1;
+  XML_Status status = XML_Parse(parser_, xml.c_str(), xml_size, is_final);
   if (status != XML_STATUS_OK && errors) {
     // This is the other half of XML_StopParser() which is our way of
     // stopping expat if the root element is not KML.
-- 
2.43.0


From 35db2e074ace67e12c8e4f02c77ab1b338fde837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:31 +0000
Subject: [PATCH 20/65] fix: GPX track point without a position repeated the
 previous one

---
 src/kml/convenience/gpx_trk_pt_handler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/gpx_trk_pt_handler.h b/src/kml/convenience/gpx_trk_pt_handler.h
index 2e7fdd6..cbb2f78 100644
--- a/src/kml/convenience/gpx_trk_pt_handler.h
+++ b/src/kml/convenience/gpx_trk_pt_handler.h
@@ -64,6 +64,7 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
       // <trkpt lat="-33.911973070" lon="18.422974152">
       // If both lat and lon exist and are sane doubles create a Vec3 for
       // the point.
+      vec3_.reset();
       boost::scoped_ptr<kmlbase::Attributes> attributes(
           kmlbase::Attributes::Create(atts));
       if (attributes.get()) {
@@ -98,7 +99,7 @@ class GpxTrkPtHandler : public kmlbase::ExpatHandler {
     } else if (name.compare("ele") == 0) {
       // <ele>4.943848</ele>
       if (vec3_.get()) {
-	double alt;
+	double alt = 0;
 	kmlbase::FromString(char_data_, &alt);
         vec3_->set_altitude(alt);
       }
-- 
2.43.0


From 361dc1070042d1ad45f85c8c5deaaca20dea8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:05 +0000
Subject: [PATCH 21/65] fix: text after a description inside an unknown element
 was not escaped

---
 src/kml/dom/kml_handler.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index 796ed5b..b51d715 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -236,7 +236,9 @@ void KmlHandler::EndElement(const string& name) {
   // inside <description> elements. Here we are checking to see if (1) we're
   // inside a closing </description> element and (2) if we're at the end of any
   // possible series of nested description elements.
-  if (name.length() == 11 && name == "description" && --in_description_ == 0) {
+  // A <description> inside an unknown element is not counted.
+  if (name.length() == 11 && name == "description" && in_description_ > 0 &&
+      --in_description_ == 0) {
     skip_depth_--;
   }
 
-- 
2.43.0


From c2b12fe53afb9dfa1599542d698a9d1e6eeaffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:14 +0000
Subject: [PATCH 22/65] fix: old-style Schema named after a KML element crashed
 the parser

---
 src/kml/dom/kml_handler.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kml/dom/kml_handler.cc b/src/kml/dom/kml_handler.cc
index b51d715..6fdc714 100644
--- a/src/kml/dom/kml_handler.cc
+++ b/src/kml/dom/kml_handler.cc
@@ -446,7 +446,8 @@ void KmlHandler::HandleOldSchemaEndElement(
     const SchemaPtr& schema,
     const string& old_schema_name,
     StringVector* simplefield_name_vec) {
-  if (!simplefield_name_vec) {
+  // An old-style Schema named "Schema" makes each Schema a Placemark.
+  if (!schema || !simplefield_name_vec) {
     return;
   }
   schema->set_id(old_schema_name + "_id");
@@ -471,6 +472,9 @@ void KmlHandler::HandleOldSchemaParentEndElement(
   // element. Take the SimpleData elements we've been creating from its
   // children and hand them to an ExtendedData, then give that to the
   // parent placemark.
+  if (!placemark) {  // An element that began before the Schema naming it.
+    return;
+  }
   ExtendedDataPtr extendeddata = kml_factory.CreateExtendedData();
   SchemaDataPtr schemadata = kml_factory.CreateSchemaData();
   schemadata->set_schemaurl(old_schema_name + "_id");
-- 
2.43.0


From 32e919578b8f9e7e8ff7dd8f61cb544292c5f607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:33 +0000
Subject: [PATCH 23/65] fix: ParseAtom crashed on a root element it does not
 know

---
 src/kml/base/expat_handler_ns.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kml/base/expat_handler_ns.cc b/src/kml/base/expat_handler_ns.cc
index 3ad0b93..1cc2baf 100644
--- a/src/kml/base/expat_handler_ns.cc
+++ b/src/kml/base/expat_handler_ns.cc
@@ -59,6 +59,8 @@ const string ExpatHandlerNs::TranslatePrefixedName(
 
 void ExpatHandlerNs::StartElement(const string& prefixed_name,
                                   const kmlbase::StringVector& atts) {
+  // The handler stops the parser on a root element it does not know.
+  expat_handler_->set_parser(get_parser());
   expat_handler_->StartElement(TranslatePrefixedName(prefixed_name), atts);
 }
 
-- 
2.43.0


From 2e5bd9d33100099e71df3f3522474e002abbbfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:12 +0000
Subject: [PATCH 24/65] fix: KmlFile::SerializeToOstream reported success on a
 failed stream

---
 src/kml/engine/kml_file.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/kml_file.cc b/src/kml/engine/kml_file.cc
index d09141b..2ea7385 100644
--- a/src/kml/engine/kml_file.cc
+++ b/src/kml/engine/kml_file.cc
@@ -176,6 +176,10 @@ bool KmlFile::SerializeToOstream(std::ostream* xml_output) const {
   if (!xml_output || !get_root()) {
     return false;
   }
+  // The serializer writes from destructors, which may not throw.
+  const std::ios_base::iostate exceptions = xml_output->exceptions();
+  xml_output->exceptions(std::ios_base::goodbit);
+
   const string xml_header = CreateXmlHeader();
   xml_output->write(xml_header.data(), xml_header.size());
 
@@ -188,11 +192,12 @@ bool KmlFile::SerializeToOstream(std::ostream* xml_output) const {
   // Append the serialization to the XML header.
   kmldom::XmlSerializer<std::ostream>::Serialize(get_root(), "\n",
                                                          "  ", xml_output);
-  return true;
+  xml_output->exceptions(exceptions);  // Throws if the caller asked for it.
+  return xml_output->good();
 }
 
 bool KmlFile::SerializeToString(string* xml_output) const {
-  if (!xml_output) {
+  if (!xml_output || !get_root()) {
     return false;
   }
   const string xml_header = CreateXmlHeader();
-- 
2.43.0


From 70aa75ce2aca81b767873b55952962b5c2992ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:48 +0000
Subject: [PATCH 25/65] fix: KmlStream returned a partial document when reading
 failed

---
 src/kml/engine/kml_stream.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/kml/engine/kml_stream.cc b/src/kml/engine/kml_stream.cc
index b6bd25e..3e13597 100644
--- a/src/kml/engine/kml_stream.cc
+++ b/src/kml/engine/kml_stream.cc
@@ -51,6 +51,7 @@ KmlStream* KmlStream::ParseFromIstream(
   // Perform buffered parse
   kmlbase::ExpatParser parser(&kml_handler, false);
   const int kBufSize = 4096;
+  bool at_end = false;
   while (input->good()) {
     if (void* buf = parser.GetInternalBuffer(kBufSize)) {
       std::streamsize read_size =
@@ -61,6 +62,7 @@ KmlStream* KmlStream::ParseFromIstream(
                                       errors, input->eof())) {
         return NULL;  // Parse error
       }
+      at_end = input->eof() && !input->bad();
     } else {
       if (errors) {
         *errors = "memory error";
@@ -69,6 +71,15 @@ KmlStream* KmlStream::ParseFromIstream(
     }
   }
 
+  // The final buffer is parsed at the end of the input.  If there was none
+  // reading failed, and what was parsed is not the whole document.
+  if (!at_end) {
+    if (errors) {
+      *errors = "error reading input";
+    }
+    return NULL;
+  }
+
   // Parse succeeded.  Construct KmlStream.
   KmlStream* kml_stream = new KmlStream;
   kml_stream->set_root(kml_handler.PopRoot());
-- 
2.43.0


From e29b5317fabe63462a6b4873050a44feb194ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:02 +0000
Subject: [PATCH 26/65] fix: no error message when a handler stopped a streamed
 parse

---
 src/kml/base/expat_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index 27d2d97..b659c82 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -163,7 +163,9 @@ void ExpatParser::ReportError(XML_Parser parser, string* errors) {
     return;
   }
   std::stringstream strstream;
-  strstream << XML_ErrorString(XML_GetErrorCode(parser));
+  // There is no error, and no string for it, if a handler stopped the parser.
+  const XML_LChar* error = XML_ErrorString(XML_GetErrorCode(parser));
+  strstream << (error ? error : "parsing was stopped");
   strstream << " on line ";
   strstream << XML_GetCurrentLineNumber(parser);
   strstream << " at offset ";
-- 
2.43.0


From 7a7babb26530e31b740397722bbf3dfaced6d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:05 +0000
Subject: [PATCH 27/65] fix: NetCache cached nothing as an item and grew past a
 limit of zero

Content no item can be created from took a slot of the cache, evicting an
item, and a cache created with a limit of zero grew without bound.
---
 src/kml/base/net_cache.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kml/base/net_cache.h b/src/kml/base/net_cache.h
index 1d979b7..4c6f822 100644
--- a/src/kml/base/net_cache.h
+++ b/src/kml/base/net_cache.h
@@ -129,9 +129,8 @@ class NetCache {
     }
     // Fetch succeeded: create a CacheItem from the data.
     CacheItemPtr item = CacheItem::CreateFromString(data);
-    if (!Save(url, item)) {  // This is basically an internal error.
-      return NULL;
-    }
+    // Data no CacheItem could be created from is not cached: Save refuses it.
+    Save(url, item);
     return item;
   }
 
@@ -150,16 +149,17 @@ class NetCache {
   }
 
   // This stores the given CacheItem to the cache for the given url.
-  // This failes of a CacheItem for this url exists (use Delete first).
+  // This failes of a CacheItem for this url exists (use Delete first), if
+  // there is no CacheItem to store, or if the cache was created to hold none.
   // If the cache is at capacity this also first forces the removall
   // of the oldest item in the cache.  Application code should not typically
   // use this directly: use Fetch().
   bool Save(const string& url, const CacheItemPtr& cache_item) {
     const CacheItemPtr exists = LookUp(url);
-    if (exists) {
+    if (exists || !cache_item || max_size_ == 0) {
       return false;
     }
-    if (cache_map_.size() == max_size_) {
+    if (cache_map_.size() >= max_size_) {
       RemoveOldest();
     }
     // It is not expected cache_count_ ever roll over.  See net_cache_test.cc
-- 
2.43.0


From a2e13fcb2e2cccffeb1ea93ccfc724c5bc25c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:38 +0000
Subject: [PATCH 28/65] fix: fetching a missing file of a KMZ recursed without
 end

A target resolved against the KMZ that leads into a KMZ again was looked up
the same way over and over, and a document found in another KMZ beside it was
recorded under the URL of that KMZ instead of its own.
---
 src/kml/engine/kmz_cache.cc | 58 +++++++++++++++++++++++--------------
 src/kml/engine/kmz_cache.h  |  4 +++
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/src/kml/engine/kmz_cache.cc b/src/kml/engine/kmz_cache.cc
index ab85769..676940d 100644
--- a/src/kml/engine/kmz_cache.cc
+++ b/src/kml/engine/kmz_cache.cc
@@ -103,7 +103,7 @@ bool KmzCache::DoFetchAndReturnUrl(KmlUri* kml_uri, string* content,
   // The KMZ file is now in cache, proceed to try to read the file within the
   // KMZ.  This is expected to be a very lightweight operation especially if
   // the target does not exist in the KMZ file.
-  if (FetchFromCache(kml_uri, content)) {
+  if (ReadFromKmz(*kmz_file, kml_uri, content)) {
     if (fetched_url) {
       *fetched_url = kml_uri->get_url();
     }
@@ -119,10 +119,20 @@ bool KmzCache::DoFetchAndReturnUrl(KmlUri* kml_uri, string* content,
   if (!kmz_relative.get()) {
     return false;
   }
-  if (fetched_url) {
-    *fetched_url = kmz_relative->get_url();
+  if (kmz_relative->is_kmz()) {
+    // The target is in turn within a KMZ.  Look only there: resolving the same
+    // target once more can lead back to this very place.
+    const KmzFilePtr other_kmz_file = Fetch(kmz_relative->get_kmz_url());
+    if (!other_kmz_file ||
+        !ReadFromKmz(*other_kmz_file, kmz_relative.get(), content)) {
+      return false;
+    }
+    if (fetched_url) {
+      *fetched_url = kmz_relative->get_url();
+    }
+    return true;
   }
-  return DoFetch(kmz_relative.get(), content);
+  return DoFetchAndReturnUrl(kmz_relative.get(), content, fetched_url);
 }
 
 bool KmzCache::FetchFromCache(KmlUri* kml_uri, string* content) const {
@@ -133,24 +143,30 @@ bool KmzCache::FetchFromCache(KmlUri* kml_uri, string* content) const {
   // First see if the KMZ is already cached.
   if (const KmzFilePtr kmz_file = LookUp(kml_uri->get_kmz_url())) {
     // Yes, the KMZ is in the cache.  Now see if the desired file is in the KMZ.
-    if (!kml_uri->get_path_in_kmz().empty()) {
-      // An explicit path within the KMZ was specified.  Try to read the
-      // content.
-      return kmz_file->ReadFile(kml_uri->get_path_in_kmz().c_str(), content);
-    }
-    // No explicit path within the KMZ means "the KML file".
-    // NOTE: It is considered a best practice to always use "doc.kml" as the
-    // name of "the KML file" within a KMZ, but this is not guaranteed.
-    // See ReadKml() in kmz_file.h for a discussion on this subject.
-    string kml_path;
-    if (kmz_file->ReadKmlAndGetPath(content, &kml_path)) {
-      // A default KML file was found and its name was saved to kml_path.
-      kml_uri->set_path_in_kmz(kml_path);
-      return true;
-    }
+    return ReadFromKmz(*kmz_file, kml_uri, content);
+  }
+  // Fall through to here if this KMZ was not in the cache.
+  return false;
+}
+
+// static
+bool KmzCache::ReadFromKmz(const KmzFile& kmz_file, KmlUri* kml_uri,
+                           string* content) {
+  if (!kml_uri->get_path_in_kmz().empty()) {
+    // An explicit path within the KMZ was specified.  Try to read the
+    // content.
+    return kmz_file.ReadFile(kml_uri->get_path_in_kmz().c_str(), content);
+  }
+  // No explicit path within the KMZ means "the KML file".
+  // NOTE: It is considered a best practice to always use "doc.kml" as the
+  // name of "the KML file" within a KMZ, but this is not guaranteed.
+  // See ReadKml() in kmz_file.h for a discussion on this subject.
+  string kml_path;
+  if (kmz_file.ReadKmlAndGetPath(content, &kml_path)) {
+    // A default KML file was found and its name was saved to kml_path.
+    kml_uri->set_path_in_kmz(kml_path);
+    return true;
   }
-  // Fall through to here if this KMZ was not in the cache or if the desired
-  // file was not in the KMZ.
   return false;
 }
 
diff --git a/src/kml/engine/kmz_cache.h b/src/kml/engine/kmz_cache.h
index 804f52f..e39a715 100644
--- a/src/kml/engine/kmz_cache.h
+++ b/src/kml/engine/kmz_cache.h
@@ -75,6 +75,10 @@ class KmzCache : public kmlbase::NetCache<KmzFile> {
   bool FetchFromCache(KmlUri* kml_uri, string* content) const;
 
  private:
+  // This reads the file the KmlUri describes from the given KMZ.
+  static bool ReadFromKmz(const KmzFile& kmz_file, KmlUri* kml_uri,
+                          string* content);
+
   boost::scoped_ptr<MemoryFileCache> memory_file_cache_;
 };
 
-- 
2.43.0


From 47bfac4474b35adc198a3e9a36f962e020ca0ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:29 +0000
Subject: [PATCH 29/65] fix: a document reached through its archive was parsed
 again on every fetch

---
 src/kml/engine/kml_cache.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kml/engine/kml_cache.cc b/src/kml/engine/kml_cache.cc
index 9fb142b..16b3b4e 100644
--- a/src/kml/engine/kml_cache.cc
+++ b/src/kml/engine/kml_cache.cc
@@ -53,6 +53,10 @@ KmlFilePtr KmlCache::FetchKmlRelative(const string& base,
   // No KmlFile cached for this URL.  Fetch the KML through the KMZ cache.
   string content;
   if (kmz_file_cache_->DoFetchAndReturnUrl(kml_uri.get(), &content, &url)) {
+    // The URL this was found at may be that of a KmlFile already cached.
+    if (KmlFilePtr kml_file = kml_file_cache_->LookUp(url)) {
+      return kml_file;
+    }
     // The KML content was found within in a fetched and/or cached KMZ.
     // Parse it into a KmlFile for it and cache it.
     KmlFilePtr kml_file = KmlFile::CreateFromStringWithUrl(content, url, this);
-- 
2.43.0


From 1687335853014a7d9045f8b85b4ef669fe0ac2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:43 +0000
Subject: [PATCH 30/65] fix: references within a remote style were resolved
 against the wrong file

---
 src/kml/engine/style_merger.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/style_merger.cc b/src/kml/engine/style_merger.cc
index 8ea9bb5..b12422f 100644
--- a/src/kml/engine/style_merger.cc
+++ b/src/kml/engine/style_merger.cc
@@ -119,8 +119,14 @@ void StyleMerger::MergeStyleUrl(const string& styleurl) {
   }
   // TODO: resolve relative hrefs in substyles of this styleselector w.r.t.
   // fetchable_url
-  // Merge in this StyleSelector.
-  MergeStyleSelector(styleselector);
+  // Merge in this StyleSelector.  Any styleUrl within it is relative to the
+  // file it came from.
+  StyleMerger style_merger(kml_file->get_shared_style_map(), kml_cache_,
+                           kml_file->get_url(), style_state_);
+  style_merger.resolved_style_ = resolved_style_;
+  style_merger.nesting_depth_ = nesting_depth_;
+  style_merger.MergeStyleSelector(styleselector);
+  nesting_depth_ = style_merger.nesting_depth_;
 }
 
 // Both Feature and Pair have a styleUrl and/or StyleSelector.
-- 
2.43.0


From 536c07d491e0c240caf503d704f5ab6a551f103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:18 +0000
Subject: [PATCH 31/65] fix: HttpClient::Login accepted incomplete responses
 and lines after the token

---
 src/kml/convenience/http_client.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/kml/convenience/http_client.cc b/src/kml/convenience/http_client.cc
index f7fafa6..19f8775 100644
--- a/src/kml/convenience/http_client.cc
+++ b/src/kml/convenience/http_client.cc
@@ -95,9 +95,14 @@ bool HttpClient::Login(const string& service_name,
   if (auth_offset == string::npos) {
     return false;
   }
-  const string token = response.substr(auth_offset + kAuth.size());
-
-  auth_token_ = token.substr(0, token.size() - 1);  // remove trailing "\n"
+  // The token is the rest of the line.  A response without the end of that
+  // line, or without anything on it, is not a complete response.
+  const size_t token_offset = auth_offset + kAuth.size();
+  const size_t token_end = response.find('\n', token_offset);
+  if (token_end == string::npos || token_end == token_offset) {
+    return false;
+  }
+  auth_token_ = response.substr(token_offset, token_end - token_offset);
 
   // Attach Authorization header to every subsequent request
   PushHeader("Authorization", "GoogleLogin auth=" + auth_token_, &headers_);
-- 
2.43.0


From 0d1723103dc830ca63611ced55408641c8d9897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:18 +0000
Subject: [PATCH 32/65] fix: logging in again kept sending the previous
 authorization

---
 src/kml/convenience/http_client.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/http_client.cc b/src/kml/convenience/http_client.cc
index 19f8775..0dd9e95 100644
--- a/src/kml/convenience/http_client.cc
+++ b/src/kml/convenience/http_client.cc
@@ -104,7 +104,15 @@ bool HttpClient::Login(const string& service_name,
   }
   auth_token_ = response.substr(token_offset, token_end - token_offset);
 
-  // Attach Authorization header to every subsequent request
+  // Attach Authorization header to every subsequent request in place of that
+  // of any previous login.
+  for (size_t i = 0; i < headers_.size();) {
+    if (headers_[i].first == "Authorization") {
+      headers_.erase(headers_.begin() + i);
+    } else {
+      ++i;
+    }
+  }
   PushHeader("Authorization", "GoogleLogin auth=" + auth_token_, &headers_);
 
   return true;
-- 
2.43.0


From cee1039a45647549a384d16258ed18ebb1473925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:59 +0000
Subject: [PATCH 33/65] fix: AtomUtil::CloneEntryFeature did not clone the
 feature

---
 src/kml/convenience/atom_util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/atom_util.cc b/src/kml/convenience/atom_util.cc
index 4baa5a3..9f360e3 100644
--- a/src/kml/convenience/atom_util.cc
+++ b/src/kml/convenience/atom_util.cc
@@ -160,7 +160,8 @@ FeaturePtr AtomUtil::GetEntryFeature(const AtomEntryPtr& entry) {
 
 // static
 FeaturePtr AtomUtil::CloneEntryFeature(const AtomEntryPtr& entry) {
-  if (FeaturePtr feature = GetEntryFeature(entry)) {
+  if (FeaturePtr entry_feature = GetEntryFeature(entry)) {
+    FeaturePtr feature = kmldom::AsFeature(kmlengine::Clone(entry_feature));
     string href;
     if (FindRelUrl(*entry.get(), "self", &href)) {
       AtomLinkPtr link = KmlFactory::GetFactory()->CreateAtomLink();
-- 
2.43.0


From ad4eea33534bda494235004e44b195ee87269afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:55 +0000
Subject: [PATCH 34/65] fix: CreateDocumentOfMapFeatures followed a circle of
 pages without end

---
 src/kml/convenience/google_maps_data.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kml/convenience/google_maps_data.cc b/src/kml/convenience/google_maps_data.cc
index aaa5739..4cbb46f 100644
--- a/src/kml/convenience/google_maps_data.cc
+++ b/src/kml/convenience/google_maps_data.cc
@@ -27,6 +27,7 @@
 
 #include "kml/convenience/google_maps_data.h"
 
+#include <set>
 #include <vector>
 #include "kml/base/mimetypes.h"
 #include "kml/base/string_util.h"
@@ -178,8 +179,15 @@ kmldom::DocumentPtr GoogleMapsData::CreateDocumentOfMapFeatures(
   // TODO: set <atom:link>
 
   kmldom::AtomFeedPtr this_feed = feature_feed;
+  std::set<string> followed;
   do {
     GetMapKml(this_feed, document);
+    // Do not follow pages that link to each other in a circle.
+    string next;
+    if (AtomUtil::FindRelUrl(*this_feed, "next", &next) &&
+        !followed.insert(next).second) {
+      break;
+    }
   } while ((this_feed = AtomUtil::GetNextFeed(this_feed, *http_client_)));
 
   return document;
-- 
2.43.0


From f6d2ef77b0fd9a2da1f43fffde6e1ce604305399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:16 +0000
Subject: [PATCH 35/65] fix: posting a feature that uses an id twice crashed

---
 src/kml/convenience/google_maps_data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/google_maps_data.cc b/src/kml/convenience/google_maps_data.cc
index 4cbb46f..815001c 100644
--- a/src/kml/convenience/google_maps_data.cc
+++ b/src/kml/convenience/google_maps_data.cc
@@ -236,7 +236,7 @@ bool GoogleMapsData::AddFeature(const string& feature_feed_post_uri,
   // Get the Atom in XML form.  Use KmlFile's serializer to get proper xmlns
   // headers.
   kmlengine::KmlFilePtr kml_file =
-      kmlengine::KmlFile::CreateFromImport(entry);
+      kmlengine::KmlFile::CreateFromImportLax(entry);
   string post_data;
   kml_file->SerializeToString(&post_data);
 
-- 
2.43.0


From cd6b2c2a5aaf01b7475afea109ebecc03c6bdff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:02 +0000
Subject: [PATCH 36/65] fix: a reference mixing slashes and backslashes escaped
 the base directory

---
 src/kml/base/uri_parser.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/kml/base/uri_parser.cc b/src/kml/base/uri_parser.cc
index d897c03..200c2ef 100644
--- a/src/kml/base/uri_parser.cc
+++ b/src/kml/base/uri_parser.cc
@@ -187,9 +187,17 @@ bool UriParser::UriToWindowsFilename(const string& uri,
 
 bool UriParser::FilenameToUri(const string& filename,
                               string* output) {
- if (filename.find('\\') != string::npos)
-  return WindowsFilenameToUri(filename, output);
- else
+ if (filename.find('\\') != string::npos) {
+  // Either slash separates the parts of a Windows filename.  A '/' left to be
+  // escaped would hide a ".." from normalization.
+  string windows_filename(filename);
+  for (size_t i = 0; i < windows_filename.size(); ++i) {
+    if (windows_filename[i] == '/') {
+      windows_filename[i] = '\\';
+    }
+  }
+  return WindowsFilenameToUri(windows_filename, output);
+ } else
   return UnixFilenameToUri(filename, output);
 }
 
-- 
2.43.0


From ad6bea2de98c08df43f063187bd64dcb98e293a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:22 +0000
Subject: [PATCH 37/65] fix: KmzFile::AddFileList packed local files for remote
 references

---
 src/kml/engine/kmz_file.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kml/engine/kmz_file.cc b/src/kml/engine/kmz_file.cc
index ddd1cff..508b467 100644
--- a/src/kml/engine/kmz_file.cc
+++ b/src/kml/engine/kmz_file.cc
@@ -155,6 +155,12 @@ size_t KmzFile::AddFileList(const string& base_url,
       href.clear_fragment();
     }
 
+    // A href with a scheme or host is not that of a local file.
+    if (!href.IsRelativePath()) {
+      error_count++;
+      continue;
+    }
+
     // Normalize the href.
     string normalized_href;
     if (!NormalizeHref(href.get_path(), &normalized_href)) {
-- 
2.43.0


From 90acb9700ca62d9aa63b55f1896ed831e0655d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:43 +0000
Subject: [PATCH 38/65] fix: CsvFile imported a torn line when reading the file
 failed

---
 src/kml/convenience/csv_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/csv_file.cc b/src/kml/convenience/csv_file.cc
index 889bf33..528418d 100644
--- a/src/kml/convenience/csv_file.cc
+++ b/src/kml/convenience/csv_file.cc
@@ -72,7 +72,8 @@ void CsvFile::ParseCsvFile(const char* filename) {
   while (csv_file.good()) {
     string csv_line;
     getline(csv_file, csv_line);
-    if (csv_line.empty()) {
+    // A line is not complete if reading it failed.
+    if (csv_line.empty() || csv_file.bad()) {
       return;
     }
     ParseCsvLine(csv_line);
-- 
2.43.0


From c7c3ea5bd5f91b52ae1cb2015664b7956d760731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:06 +0000
Subject: [PATCH 39/65] fix: merging an element with text kept the target's old
 text

MergeElements(), and so Update/Change, ignored the character data of a
<Snippet>, <linkSnippet> or <SimpleData> already present in the target.
---
 src/kml/engine/merge.cc | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/merge.cc b/src/kml/engine/merge.cc
index ac9171a..44a1a41 100644
--- a/src/kml/engine/merge.cc
+++ b/src/kml/engine/merge.cc
@@ -49,7 +49,7 @@ class FieldMerger : public Serializer {
  public:
   // The target is expected to be a complex element.
   FieldMerger(ElementPtr target)
-      : target_(target) {}
+      : target_(target), serializing_unknown_(false) {}
 
   virtual ~FieldMerger() {}
 
@@ -86,6 +86,29 @@ class FieldMerger : public Serializer {
     }
   }
 
+  // Detects if the unknown elements array is being serialized.
+  virtual void BeginElementArray(int type_id, size_t element_count) {
+    if (type_id == kmldom::Type_Unknown) {
+      serializing_unknown_ = true;
+    }
+  }
+
+  virtual void EndElementArray(int type_id) {
+    if (type_id == kmldom::Type_Unknown) {
+      serializing_unknown_ = false;
+    }
+  }
+
+  // This replaces the character data of a complex element which has such,
+  // <Snippet> for example.  This is done just as in the ElementReplicator used
+  // by Clone(): the element is expected to parse itself.
+  virtual void SaveContent(const string& content, bool maybe_quote) {
+    if (!serializing_unknown_ && !content.empty()) {
+      target_->set_char_data(content);
+      target_->AddElement(target_);
+    }
+  }
+
   // This sets the given field in the target.
   virtual void SaveStringFieldById(int type_id, string value) {
     KmlDomType id = static_cast<KmlDomType>(type_id);
@@ -101,6 +124,7 @@ class FieldMerger : public Serializer {
 
  private:
   ElementPtr target_;
+  bool serializing_unknown_;
 };
 
 // This is the implementation of the public API function to merge the
-- 
2.43.0


From 40e0547a6dcf1d64398cebd0bcfe7e622e694296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:26 +0000
Subject: [PATCH 40/65] fix: Update/Delete removed another feature of the same
 id

The first feature in the container with the given id was removed, rather than
the feature the id refers to.  With an id used twice this left objects of the
file with a parent that no longer exists.
---
 src/kml/engine/update_processor.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kml/engine/update_processor.cc b/src/kml/engine/update_processor.cc
index 16c9a37..9c8f16c 100644
--- a/src/kml/engine/update_processor.cc
+++ b/src/kml/engine/update_processor.cc
@@ -118,7 +118,14 @@ void UpdateProcessor::ProcessUpdateDelete(const DeletePtr& deleet) {
 FeaturePtr UpdateProcessor::DeleteFeatureById(const string& id) {
   if (FeaturePtr feature = AsFeature(kml_file_.GetObjectById(id))) {
     if (ContainerPtr container = AsContainer(feature->GetParent())) {
-      return container->DeleteFeatureById(id);
+      // Delete this very feature: an id may appear more than once in the
+      // container, and the feature may have been deleted already.
+      for (size_t i = 0; i < container->get_feature_array_size(); ++i) {
+        if (container->get_feature_array_at(i) == feature) {
+          return container->DeleteFeatureAt(i);
+        }
+      }
+      return NULL;
     }
     if (KmlPtr kml = AsKml(feature->GetParent())) {
       kml->clear_feature();
-- 
2.43.0


From d2d5e38c85a419d5fd4af248b74c892a92e6af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:35 +0000
Subject: [PATCH 41/65] fix: creating a temporary file no longer changes the
 process's umask

---
 src/kml/base/file_posix.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/file_posix.cc b/src/kml/base/file_posix.cc
index b1f6ad5..e2a6546 100644
--- a/src/kml/base/file_posix.cc
+++ b/src/kml/base/file_posix.cc
@@ -63,13 +63,20 @@ bool File::CreateNewTempFile(string* path) {
   if (!path) {
     return false;
   }
-  mode_t temp_umask = umask(S_IXUSR | S_IRWXG | S_IRWXO);
+  // mkstemp() itself creates the file readable and writable by its owner only.
+  // The umask belongs to the whole process: changing it here, even for a
+  // moment, affects files other threads create meanwhile, and two threads
+  // doing so can leave it changed for good.
   char temp_path[] = "/tmp/libkmlXXXXXX";
   int fd = mkstemp(temp_path);
-  umask(temp_umask);
   if (fd == -1) {
     return false;
   }
+  if (fchmod(fd, S_IRUSR | S_IWUSR) != 0) {
+    close(fd);
+    unlink(temp_path);
+    return false;
+  }
   close(fd);
   path->assign(temp_path, strlen(temp_path));
   return true;
-- 
2.43.0


From a544d5cb40c1d93852cea7807624cf806d8913a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:38 +0000
Subject: [PATCH 42/65] fix: the element factory and schema are created once
 whichever threads come first

---
 src/kml/dom/kml_factory.cc | 10 ++++------
 src/kml/dom/kml_factory.h  |  1 -
 src/kml/dom/xsd.cc         | 10 ++++------
 src/kml/dom/xsd.h          |  1 -
 4 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/kml/dom/kml_factory.cc b/src/kml/dom/kml_factory.cc
index b7faa49..236400d 100644
--- a/src/kml/dom/kml_factory.cc
+++ b/src/kml/dom/kml_factory.cc
@@ -31,14 +31,12 @@
 
 namespace kmldom {
 
-KmlFactory* KmlFactory::factory_ = NULL;
-
 // static
 KmlFactory* KmlFactory::GetFactory() {
-  if (factory_ == NULL) {
-    factory_ = new KmlFactory();
-  }
-  return factory_;
+  // A function-local static is created once even if several threads arrive
+  // here first at the same time.
+  static KmlFactory* const factory = new KmlFactory();
+  return factory;
 }
 
 ElementPtr KmlFactory::CreateElementById(KmlDomType id) const {
diff --git a/src/kml/dom/kml_factory.h b/src/kml/dom/kml_factory.h
index 0157b33..601865b 100644
--- a/src/kml/dom/kml_factory.h
+++ b/src/kml/dom/kml_factory.h
@@ -140,7 +140,6 @@ class KmlFactory {
 
  private:
   KmlFactory() {};  // Singleton class, use GetFactory().
-  static KmlFactory* factory_;
   LIBKML_DISALLOW_EVIL_CONSTRUCTORS(KmlFactory);
 };
 
diff --git a/src/kml/dom/xsd.cc b/src/kml/dom/xsd.cc
index 628ddfc..6077d03 100644
--- a/src/kml/dom/xsd.cc
+++ b/src/kml/dom/xsd.cc
@@ -31,13 +31,11 @@
 
 namespace kmldom {
 
-Xsd* Xsd::schema_ = NULL;
-
 Xsd* Xsd::GetSchema() {
-  if (schema_ == NULL) {
-    schema_ = new Xsd;
-  }
-  return schema_;
+  // A function-local static is created once even if several threads arrive
+  // here first at the same time.
+  static Xsd* const schema = new Xsd;
+  return schema;
 }
 
 Xsd::Xsd() {
diff --git a/src/kml/dom/xsd.h b/src/kml/dom/xsd.h
index 1d98e6a..11c5bee 100644
--- a/src/kml/dom/xsd.h
+++ b/src/kml/dom/xsd.h
@@ -95,7 +95,6 @@ class Xsd {
 
  private:
   Xsd();
-  static Xsd* schema_;
 
   tag_id_map_t tag_to_id;
   std::map<int,XsdElement> id_to_string;
-- 
2.43.0


From 8ce830a7d7f9fb942a4203c62c83e65a663197b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:18 +0000
Subject: [PATCH 43/65] fix: regionating a feature list reports files that
 could not be written

---
 src/kml/regionator/feature_list_regionator.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/kml/regionator/feature_list_regionator.h b/src/kml/regionator/feature_list_regionator.h
index 8c54cd2..a702f10 100644
--- a/src/kml/regionator/feature_list_regionator.h
+++ b/src/kml/regionator/feature_list_regionator.h
@@ -93,14 +93,17 @@ class FeatureListRegionator : public RegionHandler {
   // simply write the file out into the file system into the current directory.
   virtual void SaveKml(const kmldom::KmlPtr& kml, const string& filename) {
     string kml_data(kmldom::SerializePretty(kml));
-    kmlbase::File::WriteStringToFile(kml_data, filename);
+    if (!kmlbase::File::WriteStringToFile(kml_data, filename)) {
+      save_failed_ = true;
+    }
   }
 
   // This static method permits a one line call to the regionator for the
   // data in the given FeatureList.  While a feature_list must always be
   // provided either or both of the ProgressMonitor or output_dir may be NULL.
-  // The return status is that of the overall regionation.  See
-  // Regionator::RegionateAligned for more information.
+  // The return status is that of the overall regionation: false is returned
+  // if any file could not be written.  See Regionator::RegionateAligned for
+  // more information.
   static bool Regionate(kmlconvenience::FeatureList* feature_list,
                         unsigned int max_per, ProgressMonitor* progress_monitor,
                         const char* output_dir) {
@@ -128,7 +131,8 @@ class FeatureListRegionator : public RegionHandler {
                                                             256, -1);
     feature_list->Sort();
     FeatureListRegionator flr(feature_list, max_per, progress_monitor);
-    return Regionator::RegionateAligned(flr, root, output_dir);
+    return Regionator::RegionateAligned(flr, root, output_dir) &&
+        !flr.save_failed_;
   }
 
  private:
@@ -139,7 +143,8 @@ class FeatureListRegionator : public RegionHandler {
    : feature_list_(*feature_list),
      feature_list_size_(feature_list->Size()),
      max_per_(max_per),
-     progress_monitor_(progress_monitor) {
+     progress_monitor_(progress_monitor),
+     save_failed_(false) {
   }
 
   kmlconvenience::FeatureList feature_list_;
@@ -147,6 +152,7 @@ class FeatureListRegionator : public RegionHandler {
   std::map<string, kmldom::FolderPtr> feature_map_;
   const unsigned int max_per_;
   ProgressMonitor* progress_monitor_;
+  bool save_failed_;
 };
 
 }  // end namespace kmlregionator
-- 
2.43.0


From 7237be0491c12e33c762c6a1248c3ad8eeda7ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:05 +0000
Subject: [PATCH 44/65] fix: saving a feature list keeps features that already
 have a parent

---
 src/kml/convenience/feature_list.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/feature_list.cc b/src/kml/convenience/feature_list.cc
index ba06608..8cbd329 100644
--- a/src/kml/convenience/feature_list.cc
+++ b/src/kml/convenience/feature_list.cc
@@ -73,7 +73,15 @@ size_t FeatureList::Save(ContainerPtr container) const {
   feature_list_t::const_iterator iter;
   for (iter = feature_list_.begin(); iter != feature_list_.end(); ++iter) {
     ++count;
-    container->add_feature(*iter);
+    FeaturePtr feature = *iter;
+    // An Element has at most one parent.  A feature which already has one, for
+    // example from the document it was parsed in or from an earlier Save(), is
+    // copied, as otherwise it would silently be left out.
+    if (feature->kmlbase::XmlElement::GetParent() ||
+        !feature->InSameXmlFile(container)) {
+      feature = kmldom::AsFeature(kmlengine::Clone(feature));
+    }
+    container->add_feature(feature);
   }
   return count;
 }
-- 
2.43.0


From 8f933c2f592f47bbc3ba265b0bafa8576e6472cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:09 +0000
Subject: [PATCH 45/65] fix: regionating stops for good when the progress
 monitor asks to

---
 src/kml/regionator/feature_list_regionator.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/kml/regionator/feature_list_regionator.h b/src/kml/regionator/feature_list_regionator.h
index a702f10..dbff630 100644
--- a/src/kml/regionator/feature_list_regionator.h
+++ b/src/kml/regionator/feature_list_regionator.h
@@ -66,6 +66,9 @@ class FeatureListRegionator : public RegionHandler {
   // Here we split out the first kMaxPer Features within this region into
   // a new FeatureList saved to a map based on the Region's id.
   virtual bool HasData(const kmldom::RegionPtr& region) {
+    if (stopped_) {
+      return false;  // The ProgressMonitor asked to stop.
+    }
     kmlconvenience::FeatureList this_region;
     if (feature_list_.RegionSplit(region, max_per_, &this_region) > 0) {
       kmldom::FolderPtr folder =
@@ -73,10 +76,10 @@ class FeatureListRegionator : public RegionHandler {
       this_region.Save(folder);
       feature_map_[region->get_id()] = folder;
       if (progress_monitor_) {
-        return progress_monitor_->RegionatorProgress(
+        stopped_ = !progress_monitor_->RegionatorProgress(
             feature_list_size_ - feature_list_.Size(), feature_list_size_);
       }
-      return true;
+      return !stopped_;
     }
     return false;
   }
@@ -144,7 +147,8 @@ class FeatureListRegionator : public RegionHandler {
      feature_list_size_(feature_list->Size()),
      max_per_(max_per),
      progress_monitor_(progress_monitor),
-     save_failed_(false) {
+     save_failed_(false),
+     stopped_(false) {
   }
 
   kmlconvenience::FeatureList feature_list_;
@@ -153,6 +157,7 @@ class FeatureListRegionator : public RegionHandler {
   const unsigned int max_per_;
   ProgressMonitor* progress_monitor_;
   bool save_failed_;
+  bool stopped_;
 };
 
 }  // end namespace kmlregionator
-- 
2.43.0


From fdde3567ea4769d4c01b9f2de0682a9461d282e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:07 +0000
Subject: [PATCH 46/65] fix: features on the edge of a region are not lost when
 regionating

---
 src/kml/regionator/regionator_util.cc | 30 +++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/kml/regionator/regionator_util.cc b/src/kml/regionator/regionator_util.cc
index 48bb0c0..95ef2a1 100644
--- a/src/kml/regionator/regionator_util.cc
+++ b/src/kml/regionator/regionator_util.cc
@@ -49,9 +49,31 @@ using kmldom::PointPtr;
 using kmldom::RegionPtr;
 using kmlengine::Bbox;
 
+// Cloning passes numbers through text and hence drops digits.  A feature on the
+// very edge of a region must stay within it so the edges are copied exactly.
+static void CopyEdges(const LatLonAltBoxPtr& orig, LatLonAltBoxPtr clone) {
+  if (!orig || !clone) {
+    return;
+  }
+  if (orig->has_north()) {
+    clone->set_north(orig->get_north());
+  }
+  if (orig->has_south()) {
+    clone->set_south(orig->get_south());
+  }
+  if (orig->has_east()) {
+    clone->set_east(orig->get_east());
+  }
+  if (orig->has_west()) {
+    clone->set_west(orig->get_west());
+  }
+}
+
 // This creates a new LatLonAltBox setting all fields set in the original.
 LatLonAltBoxPtr CloneLatLonAltBox(const LatLonAltBoxPtr& orig) {
-  return AsLatLonAltBox(kmlengine::Clone(orig));
+  LatLonAltBoxPtr clone = AsLatLonAltBox(kmlengine::Clone(orig));
+  CopyEdges(orig, clone);
+  return clone;
 }
 
 // This creates a new Lod setting all fields set in the original.
@@ -62,7 +84,11 @@ LodPtr CloneLod(const LodPtr& orig) {
 // This creates a new Region based on the LatLonAltBox and/or Lod found in the
 // original Region.
 RegionPtr CloneRegion(const RegionPtr& orig) {
-  return AsRegion(kmlengine::Clone(orig));
+  RegionPtr clone = AsRegion(kmlengine::Clone(orig));
+  if (orig && clone) {
+    CopyEdges(orig->get_latlonaltbox(), clone->get_latlonaltbox());
+  }
+  return clone;
 }
 
 bool CreateAlignedAbstractLatLonBox(const AbstractLatLonBoxPtr& llb,
-- 
2.43.0


From 9dd693a70e04affa1c06b5f26b9f0fd2f7b9460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:57 +0000
Subject: [PATCH 47/65] fix: release an XSD element that is neither global nor
 in a complex type

---
 src/kml/xsd/xsd_handler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kml/xsd/xsd_handler.cc b/src/kml/xsd/xsd_handler.cc
index 98dc545..4fc1eca 100644
--- a/src/kml/xsd/xsd_handler.cc
+++ b/src/kml/xsd/xsd_handler.cc
@@ -95,7 +95,8 @@ void XsdHandler::StartEnumeration(const Attributes& attributes) {
 // <xs:element name="..." type="..." default=".."/>
 // <xs:element ref="..." minOccurs="..." maxOccurs="..."/>
 void XsdHandler::StartXsElement(const Attributes& attributes) {
-  XsdElement* element = XsdElement::Create(attributes);
+  // The smart pointer releases an element that finds no place in the file.
+  XsdElementPtr element = XsdElement::Create(attributes);
   if (!element) {
     return;
   }
-- 
2.43.0


From af718bafd924acdb25aef09c8a94d3619f66c7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:57 +0000
Subject: [PATCH 48/65] fix: XSD parser crashes on an anonymous type and on a
 root element

---
 src/kml/xsd/xsd_handler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kml/xsd/xsd_handler.cc b/src/kml/xsd/xsd_handler.cc
index 4fc1eca..af37140 100644
--- a/src/kml/xsd/xsd_handler.cc
+++ b/src/kml/xsd/xsd_handler.cc
@@ -48,6 +48,9 @@ void XsdHandler::StartComplexType(const Attributes& attributes) {
 // </xs:complexType">
 // </xs:simpleType">
 void XsdHandler::EndType() {
+  if (!current_type_) {  // An anonymous type.
+    return;
+  }
   xsd_file_->add_type(current_type_);
   current_type_ = NULL;
 }
@@ -102,7 +105,7 @@ void XsdHandler::StartXsElement(const Attributes& attributes) {
   }
 
   // Is this a global element?
-  if (parse_.top() == kSchema) {
+  if (!parse_.empty() && parse_.top() == kSchema) {
     xsd_file_->add_element(element);
   } else if (XsdComplexTypePtr complex_type =
                  XsdComplexType::AsComplexType(current_type_)) {
-- 
2.43.0


From 54199560f484140eaa2be4cfff5230fba33bf6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:57 +0000
Subject: [PATCH 49/65] fix: XSD file without a target namespace is read
 through a null pointer

---
 src/kml/xsd/xsd_file.cc | 3 ++-
 src/kml/xsd/xsd_file.h  | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/kml/xsd/xsd_file.cc b/src/kml/xsd/xsd_file.cc
index ac8d184..50f5a64 100644
--- a/src/kml/xsd/xsd_file.cc
+++ b/src/kml/xsd/xsd_file.cc
@@ -146,7 +146,8 @@ const XsdElementPtr XsdFile::ResolveRef(const string& element_ref) const {
 XsdComplexTypePtr XsdFile::GetBaseType(
     const XsdComplexTypePtr& complex_type) const {
   string type_name;
-  if (!xsd_schema_->SplitNsName(complex_type->get_extension_base(),
+  if (!xsd_schema_ ||
+      !xsd_schema_->SplitNsName(complex_type->get_extension_base(),
                                 &type_name)) {
     return NULL;  // XSD is incomplete.
   }
diff --git a/src/kml/xsd/xsd_file.h b/src/kml/xsd/xsd_file.h
index 99e9e5f..bf4178e 100644
--- a/src/kml/xsd/xsd_file.h
+++ b/src/kml/xsd/xsd_file.h
@@ -80,11 +80,12 @@ class XsdFile {
     type_map_[xsd_type->get_name()] = xsd_type;
   }
 
-  const string& get_target_namespace() const {
-    return xsd_schema_->get_target_namespace();
+  // These are empty if there is no <xs:schema> with a target namespace.
+  const string get_target_namespace() const {
+    return xsd_schema_ ? xsd_schema_->get_target_namespace() : string();
   }
-  const string& get_target_namespace_prefix() const {
-    return xsd_schema_->get_target_namespace_prefix();
+  const string get_target_namespace_prefix() const {
+    return xsd_schema_ ? xsd_schema_->get_target_namespace_prefix() : string();
   }
 
   // Create an alias.  For example, "AbstractFeatureGroup" == "Feature".
-- 
2.43.0


From 6a9f68bbd5007d8ad8614b32b8cbf71189444e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:57 +0000
Subject: [PATCH 50/65] fix: circular XSD type hierarchies are followed forever

---
 src/kml/xsd/xsd_file.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/kml/xsd/xsd_file.cc b/src/kml/xsd/xsd_file.cc
index 50f5a64..2a9c630 100644
--- a/src/kml/xsd/xsd_file.cc
+++ b/src/kml/xsd/xsd_file.cc
@@ -160,7 +160,12 @@ bool XsdFile::GetTypeHierarchy(const XsdComplexTypePtr& complex_type,
     return false;
   }
   XsdComplexTypePtr current = complex_type;
+  // No hierarchy is deeper than the number of types unless it is circular.
+  size_t depth = 0;
   while (current->has_extension_base()) {
+    if (++depth > type_map_.size()) {
+      return false;
+    }
     if (XsdComplexTypePtr base = GetBaseType(current)) {
       if (type_hier) {
         type_hier->push_back(base);
@@ -237,11 +242,13 @@ bool XsdFile::SearchTypeHierarchy(const XsdComplexTypePtr& complex_type,
   if (!xsd_schema_) {  // Not much we can do w/o a <xs:schema ... >!
     return false;
   }
-  if (find_type == complex_type) {
-    return true;
-  }
-  if (XsdComplexTypePtr base_type = GetBaseType(complex_type)) {
-    return SearchTypeHierarchy(base_type, find_type);
+  XsdComplexTypePtr current = complex_type;
+  // No hierarchy is deeper than the number of types unless it is circular.
+  for (size_t depth = 0; current && depth <= type_map_.size(); ++depth) {
+    if (find_type == current) {
+      return true;
+    }
+    current = GetBaseType(current);
   }
   return false;
 }
-- 
2.43.0


From 8a8669ce3798c5a8c96e3e9abdb409b421e62b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:39 +0000
Subject: [PATCH 51/65] fix: a temporary file is deleted even if its status
 cannot be read

---
 src/kml/base/tempfile.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/kml/base/tempfile.h b/src/kml/base/tempfile.h
index 026d7e6..7478f90 100644
--- a/src/kml/base/tempfile.h
+++ b/src/kml/base/tempfile.h
@@ -52,9 +52,7 @@ class TempFile : public Referent {
     return new TempFile(tempfile);
   }
   ~TempFile() {
-    if (File::Exists(name_)) {
-      File::Delete(name_);
-    }
+    File::Delete(name_);
   }
   const string& name() {
     return name_;
-- 
2.43.0


From 18e48bfd002c0c23f7df7b658b32d2ae6ac66b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:25 +0000
Subject: [PATCH 52/65] fix: line numbers in parse errors follow the C++ global
 locale

---
 src/kml/base/expat_parser.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index b659c82..0ad1ee4 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -163,6 +163,7 @@ void ExpatParser::ReportError(XML_Parser parser, string* errors) {
     return;
   }
   std::stringstream strstream;
+  strstream.imbue(std::locale::classic());
   // There is no error, and no string for it, if a handler stopped the parser.
   const XML_LChar* error = XML_ErrorString(XML_GetErrorCode(parser));
   strstream << (error ? error : "parsing was stopped");
-- 
2.43.0


From e41a9989cbb1f5fe2c44477c8d828264d066b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:25 +0000
Subject: [PATCH 53/65] fix: names of regionated files and region ids follow
 the C++ global locale

---
 src/kml/regionator/regionator.cc    | 1 +
 src/kml/regionator/regionator_qid.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/kml/regionator/regionator.cc b/src/kml/regionator/regionator.cc
index 82d1b5a..aa88f7a 100644
--- a/src/kml/regionator/regionator.cc
+++ b/src/kml/regionator/regionator.cc
@@ -70,6 +70,7 @@ string Regionator::RegionFilename(const RegionPtr& region) {
     return root_filename_;
   }
   std::stringstream str;
+  str.imbue(std::locale::classic());
   str << qid_map_[qid.str()];
   return str.str() + ".kml";
 }
diff --git a/src/kml/regionator/regionator_qid.h b/src/kml/regionator/regionator_qid.h
index 7c461d5..bdb98f6 100644
--- a/src/kml/regionator/regionator_qid.h
+++ b/src/kml/regionator/regionator_qid.h
@@ -54,6 +54,7 @@ public:
   }
   Qid CreateChild(quadrant_t quadrant) const {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     ss << quadrant;
     return Qid(qid_ + ss.str());
   }
-- 
2.43.0


From 3072e4562ad1f662cf4e55ca158058e6c2b7ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:25 +0000
Subject: [PATCH 54/65] fix: case-insensitive comparison depends on the
 process's locale

---
 src/kml/base/string_util.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/kml/base/string_util.cc b/src/kml/base/string_util.cc
index a865922..874a2b4 100644
--- a/src/kml/base/string_util.cc
+++ b/src/kml/base/string_util.cc
@@ -152,11 +152,21 @@ bool StringEndsWith(const string& str, const string& end) {
   return end.size() < str.size() && str.substr(str.size() - end.size()) == end;
 }
 
+// Unlike tolower() this does not depend on the process's locale.
+static char ToLowerAscii(char c) {
+  return c >= 'A' && c <= 'Z' ? c - 'A' + 'a' : c;
+}
+
 bool StringCaseEqual(const string& a, const string& b) {
-#if defined(WIN32) && !defined(strncasecmp)
-# define strncasecmp(s1, s2, n) _strnicmp (s1, s2, n)
-#endif
-  return a.size() == b.size() && strncasecmp(a.data(), b.data(), a.size()) == 0;
+  if (a.size() != b.size()) {
+    return false;
+  }
+  for (size_t i = 0; i < a.size(); ++i) {
+    if (ToLowerAscii(a[i]) != ToLowerAscii(b[i])) {
+      return false;
+    }
+  }
+  return true;
 }
 
 bool StringToDouble(const char* number, double* output) {
-- 
2.43.0


From 81bacf3a127b33b64b8ea6a41506ca331c34b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:18 +0000
Subject: [PATCH 55/65] fix: the archive reader does not notice that it is out
 of memory

---
 src/kml/base/contrib/minizip/iomem_simple.c | 2 ++
 src/kml/base/contrib/minizip/unzip.c        | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/kml/base/contrib/minizip/iomem_simple.c b/src/kml/base/contrib/minizip/iomem_simple.c
index 9260a73..0848ec4 100644
--- a/src/kml/base/contrib/minizip/iomem_simple.c
+++ b/src/kml/base/contrib/minizip/iomem_simple.c
@@ -222,6 +222,8 @@ int ZCALLBACK mem_error (opaque, stream)
 ZEXTERN void* ZEXPORT mem_simple_create_file(zlib_filefunc_def* api, void* buffer, size_t buf_len)
 {
     MEMFILE* handle = malloc(sizeof(*handle));
+    if (handle == NULL)
+        return NULL;
     api->zopen_file  = NULL;
     api->zread_file  = mem_read;
     api->zwrite_file = mem_write;
diff --git a/src/kml/base/contrib/minizip/unzip.c b/src/kml/base/contrib/minizip/unzip.c
index df33f79..dacf107 100644
--- a/src/kml/base/contrib/minizip/unzip.c
+++ b/src/kml/base/contrib/minizip/unzip.c
@@ -525,6 +525,11 @@ extern unzFile ZEXPORT libkml_unzOpen2 (path, pzlib_filefunc_def)
     us.encrypted = 0;
 
     s=(unz_s*)ALLOC(sizeof(unz_s));
+    if (s==NULL)
+    {
+        ZCLOSE(us.z_filefunc, us.filestream);
+        return NULL;
+    }
     *s=us;
     libkml_unzGoToFirstFile((unzFile)s);
     return (unzFile)s;
@@ -1759,6 +1764,8 @@ extern unzFile ZEXPORT libkml_unzAttach (stream, pzlib_filefunc_def)
     us.encrypted = 0;
 
     s=(unz_s*)ALLOC(sizeof(unz_s));
+    if (s==NULL)
+        return NULL;
 
     *s=us;
     libkml_unzGoToFirstFile((unzFile)s);
-- 
2.43.0


From b93bd0f12a210f32073c5c2cb3da56d07c3cf836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:18 +0000
Subject: [PATCH 56/65] fix: an XML parser that cannot be allocated is used all
 the same

---
 src/kml/base/expat_parser.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kml/base/expat_parser.cc b/src/kml/base/expat_parser.cc
index 0ad1ee4..455b252 100644
--- a/src/kml/base/expat_parser.cc
+++ b/src/kml/base/expat_parser.cc
@@ -82,6 +82,10 @@ ExpatParser::ExpatParser(ExpatHandler* handler, bool namespace_aware)
     namespace_aware ? XML_ParserCreateNS(NULL, kExpatNsSeparator)
                     : XML_ParserCreate(NULL);
   expat_handler_->set_parser(parser);
+  parser_ = parser;
+  if (!parser) {  // Out of memory: parsing reports it.
+    return;
+  }
   XML_SetUserData(parser, expat_handler_);
   XML_SetElementHandler(parser, startElement, endElement);
   XML_SetCharacterDataHandler(parser, charData);
@@ -89,7 +93,6 @@ ExpatParser::ExpatParser(ExpatHandler* handler, bool namespace_aware)
   if (namespace_aware) {
     XML_SetNamespaceDeclHandler(parser, startNamespace, endNamespace);
   }
-  parser_ = parser;
 }
 
 ExpatParser::~ExpatParser() {
-- 
2.43.0


From b0c32f4873870524f7e8a075673d1a0a61e21239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:18 +0000
Subject: [PATCH 57/65] fix: release the buffer of an archive entry whose
 decompression cannot start

---
 src/kml/base/contrib/minizip/unzip.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kml/base/contrib/minizip/unzip.c b/src/kml/base/contrib/minizip/unzip.c
index dacf107..b35ee17 100644
--- a/src/kml/base/contrib/minizip/unzip.c
+++ b/src/kml/base/contrib/minizip/unzip.c
@@ -1188,6 +1188,7 @@ extern int ZEXPORT libkml_unzOpenCurrentFile3 (file, method, level, raw, passwor
         pfile_in_zip_read_info->stream_initialised=1;
       else
       {
+        TRYFREE(pfile_in_zip_read_info->read_buffer);
         TRYFREE(pfile_in_zip_read_info);
         return err;
       }
-- 
2.43.0


From 35f5ad443699055e90938f39694e2df45faa5fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:18 +0000
Subject: [PATCH 58/65] fix: opening an archive whose contents cannot be read
 reports failure

---
 src/kml/base/zip_file.cc | 15 ++++++++++++---
 src/kml/base/zip_file.h  |  1 +
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/kml/base/zip_file.cc b/src/kml/base/zip_file.cc
index 30b737e..207566b 100644
--- a/src/kml/base/zip_file.cc
+++ b/src/kml/base/zip_file.cc
@@ -75,7 +75,15 @@ class MinizipFile {
 
 // Static.
 ZipFile* ZipFile::OpenFromString(const string& zip_data) {
-  return IsZipData(zip_data) ? new ZipFile(zip_data) : NULL;
+  if (!IsZipData(zip_data)) {
+    return NULL;
+  }
+  ZipFile* zip_file = new ZipFile(zip_data);
+  if (zip_file->readable_) {
+    return zip_file;
+  }
+  delete zip_file;
+  return NULL;
 }
 
 // Static.
@@ -108,7 +116,7 @@ ZipFile* ZipFile::Create(const char* file_path) {
 
 // Private. Class constructed with static methods.
 ZipFile::ZipFile(const string& data)
-  : minizip_file_(NULL), data_(data),
+  : minizip_file_(NULL), data_(data), readable_(false),
     max_uncompressed_file_size_(kMaxUncompressedZipSize) {
   // Fill the table of contents for this zipfile.
   zlib_filefunc_def api;
@@ -117,6 +125,7 @@ ZipFile::ZipFile(const string& data)
       data.size())) {
     unzFile zfile = libkml_unzAttach(mem_stream, &api);
     if (zfile) {
+      readable_ = true;
       unz_file_info finfo;
       do {
         // A name that fills the buffer is not terminated by unzip.
@@ -137,7 +146,7 @@ ZipFile::ZipFile(const string& data)
 
 // Private. Class constructed with static methods.
 ZipFile::ZipFile(MinizipFile* minizip_file)
-  : minizip_file_(minizip_file),
+  : minizip_file_(minizip_file), readable_(false),
     max_uncompressed_file_size_(kMaxUncompressedZipSize) {}
 
 ZipFile::~ZipFile() {
diff --git a/src/kml/base/zip_file.h b/src/kml/base/zip_file.h
index 5a7980f..452e26e 100644
--- a/src/kml/base/zip_file.h
+++ b/src/kml/base/zip_file.h
@@ -118,6 +118,7 @@ class ZipFile {
   ZipFile(MinizipFile* minizip_file);
   boost::scoped_ptr<MinizipFile> minizip_file_;
   string data_;
+  bool readable_;  // The table of contents of data_ could be read.
   StringVector zipfile_toc_;
   unsigned long max_uncompressed_file_size_;
   LIBKML_DISALLOW_EVIL_CONSTRUCTORS(ZipFile);
-- 
2.43.0


From bea051f85c1347ff0660bba73393d10fdaba9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:53 +0000
Subject: [PATCH 59/65] fix: collecting the features of a document took those
 of updates too, and left one-letter style references alone

---
 src/kml/convenience/kml_feature_list_saver.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/kml/convenience/kml_feature_list_saver.h b/src/kml/convenience/kml_feature_list_saver.h
index ca85d14..4309c47 100644
--- a/src/kml/convenience/kml_feature_list_saver.h
+++ b/src/kml/convenience/kml_feature_list_saver.h
@@ -60,6 +60,11 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
     }
   }
 
+  // ParserObserver::NewElement()
+  virtual bool NewElement(const kmldom::ElementPtr& element) {
+    return StartElement(element);
+  }
+
   virtual bool StartElement(const kmldom::ElementPtr& element) {
     if (element->Type() == kmldom::Type_Update) {
       in_update_ = true;
@@ -81,7 +86,7 @@ class KmlFeatureListSaver : public kmldom::ParserObserver {
       kmldom::FeaturePtr feature = kmldom::AsFeature(child);
       if (!style_base_.empty() && feature->has_styleurl()) {
         const string& styleurl = feature->get_styleurl();
-        if (styleurl.size() > 2 && styleurl[0] == '#') {
+        if (styleurl.size() > 1 && styleurl[0] == '#') {
           feature->set_styleurl(style_base_ + styleurl);
         }
       }
-- 
2.43.0


From e33a270c21cfd6fe790f18750c0a2596ad00de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:53 +0000
Subject: [PATCH 60/65] fix: splitting styles gave wrong ids to styles with an
 id, reused ids and touched updates

---
 src/kml/engine/style_splitter.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/kml/engine/style_splitter.cc b/src/kml/engine/style_splitter.cc
index 6fefcdc..8d8e719 100644
--- a/src/kml/engine/style_splitter.cc
+++ b/src/kml/engine/style_splitter.cc
@@ -39,7 +39,7 @@ namespace kmlengine {
 
 bool StyleSplitter::NewElement(const kmldom::ElementPtr& element) {
   // Use the first <Document> found as the home of all shared styles.
-  if (!document_ && element->IsA(kmldom::Type_Document)) {
+  if (!document_ && !in_update_ && element->IsA(kmldom::Type_Document)) {
     document_ = AsDocument(element);
   }
   // Don't touch anything inside an <Update>.
@@ -74,6 +74,14 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
                         const kmldom::ElementPtr& child) {
   // If we're not in <Update> and the child is a StyleSelector...
   if (!in_update_ && document_ && child->IsA(kmldom::Type_StyleSelector)) {
+    // ...and the parent is a <Document> this is a shared style: no other style
+    // may be given its id.
+    if (parent->IsA(kmldom::Type_Document)) {
+      kmldom::StyleSelectorPtr shared = kmldom::AsStyleSelector(child);
+      if (shared->has_id()) {
+        (*shared_style_map_)[shared->get_id()] = shared;
+      }
+    }
     // ...and the parent is a Feature, but not a <Document>...
     if (kmldom::FeaturePtr feature = AsNonDocumentFeature(parent)) {
       // ...and the feature does _not_ have a <styleUrl>...
@@ -86,9 +94,10 @@ bool StyleSplitter::EndElement(const kmldom::ElementPtr& parent,
           // Create an empty StyleSelector of the child's type and set the id.
           kmldom::StyleSelectorPtr shared =
               CreateStyleSelector(child->Type());
-          shared->set_id(style_id);
           // Merge the children from child into the new StyleSelector.
           kmlengine::MergeElements(child, shared);
+          // The child may have had an id of its own: the new id comes last.
+          shared->set_id(style_id);
           // Add the StyleSelector to the Document and the shared style map.
           document_->add_styleselector(shared);
           (*shared_style_map_)[shared->get_id()] = shared;
-- 
2.43.0


From 811f23b8d9a0ac57fe14b06e47b4cd960b4af85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:53 +0000
Subject: [PATCH 61/65] fix: inlining a shared style lost it when the feature
 also has an inline style

---
 src/kml/engine/style_inliner.cc         | 12 ++++++++++++
 src/kml/engine/style_inliner_internal.h |  3 +++
 src/kml/engine/style_resolver.cc        | 15 +++++++++++----
 src/kml/engine/style_resolver.h         |  5 +++++
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/kml/engine/style_inliner.cc b/src/kml/engine/style_inliner.cc
index 1b32818..8b5149c 100644
--- a/src/kml/engine/style_inliner.cc
+++ b/src/kml/engine/style_inliner.cc
@@ -77,6 +77,16 @@ bool StyleInliner::EndElement(const kmldom::ElementPtr& parent,
   }
   // Do a "mini-resolve" of each Feature's styleUrl.
   if (kmldom::FeaturePtr feature = AsNonDocumentFeature(parent)) {
+    // An inline style selector does not replace the shared style just inlined:
+    // it is merged over it.
+    if (feature == inlined_feature_ &&
+        child->IsA(kmldom::Type_StyleSelector)) {
+      feature->set_styleselector(
+          kmlengine::StyleResolver::CreateResolvedStyleSelector(
+              inlined_styleurl_, kmldom::AsStyleSelector(child),
+              shared_styles_));
+      return false;
+    }
     if (child->Type() == kmldom::Type_styleUrl) {
       // If it's a local reference and we've captured this shared style
       // give a copy of that to the Feature instead of this styleUrl.
@@ -89,6 +99,8 @@ bool StyleInliner::EndElement(const kmldom::ElementPtr& parent,
           feature->set_styleselector(
               kmlengine::StyleResolver::CreateResolvedStyleSelector(
                   child->get_char_data(), shared_styles_));
+          inlined_feature_ = feature;
+          inlined_styleurl_ = child->get_char_data();
           return false;  // Don't add the <styleUrl> to the feature.
         }
       }
diff --git a/src/kml/engine/style_inliner_internal.h b/src/kml/engine/style_inliner_internal.h
index eab7495..c0b22b1 100644
--- a/src/kml/engine/style_inliner_internal.h
+++ b/src/kml/engine/style_inliner_internal.h
@@ -76,6 +76,9 @@ class StyleInliner : public kmldom::ParserObserver {
  private:
   kmlengine::SharedStyleMap shared_styles_;
   kmldom::DocumentPtr document_;
+  // The feature whose styleUrl was replaced last, and that styleUrl.
+  kmldom::FeaturePtr inlined_feature_;
+  string inlined_styleurl_;
   bool in_update_;
 };
 
diff --git a/src/kml/engine/style_resolver.cc b/src/kml/engine/style_resolver.cc
index 57c4df9..4b93a7a 100644
--- a/src/kml/engine/style_resolver.cc
+++ b/src/kml/engine/style_resolver.cc
@@ -72,18 +72,25 @@ StylePtr StyleResolver::CreateResolvedStyle(
 // static
 kmldom::StyleSelectorPtr StyleResolver::CreateResolvedStyleSelector(
     const string& styleurl, const SharedStyleMap& shared_style_map) {
+  return CreateResolvedStyleSelector(styleurl, NULL, shared_style_map);
+}
+
+// static
+kmldom::StyleSelectorPtr StyleResolver::CreateResolvedStyleSelector(
+    const string& styleurl, const StyleSelectorPtr& styleselector,
+    const SharedStyleMap& shared_style_map) {
   const string empty;
   StyleMapPtr stylemap = KmlFactory::GetFactory()->CreateStyleMap();
   PairPtr normal = KmlFactory::GetFactory()->CreatePair();
   normal->set_key(kmldom::STYLESTATE_NORMAL);
-  StylePtr style = CreateResolvedStyle(styleurl, NULL, shared_style_map, empty,
-                                       NULL, kmldom::STYLESTATE_NORMAL);
+  StylePtr style = CreateResolvedStyle(styleurl, styleselector, shared_style_map,
+                                       empty, NULL, kmldom::STYLESTATE_NORMAL);
   normal->set_styleselector(AsStyleSelector(ClearIds(style)));
   stylemap->add_pair(normal);
   PairPtr highlight = KmlFactory::GetFactory()->CreatePair();
   highlight->set_key(kmldom::STYLESTATE_HIGHLIGHT);
-  style = CreateResolvedStyle(styleurl, NULL, shared_style_map, empty,
-                              NULL, kmldom::STYLESTATE_HIGHLIGHT);
+  style = CreateResolvedStyle(styleurl, styleselector, shared_style_map,
+                              empty, NULL, kmldom::STYLESTATE_HIGHLIGHT);
   highlight->set_styleselector(AsStyleSelector(ClearIds(style)));
   stylemap->add_pair(highlight);
   return stylemap;
diff --git a/src/kml/engine/style_resolver.h b/src/kml/engine/style_resolver.h
index 3a5dae9..79e0cc9 100644
--- a/src/kml/engine/style_resolver.h
+++ b/src/kml/engine/style_resolver.h
@@ -64,6 +64,11 @@ class StyleResolver {
   // StyleSelector has all id= attributes cleared.
   static kmldom::StyleSelectorPtr CreateResolvedStyleSelector(
       const string& styleurl, const SharedStyleMap& shared_style_map);
+
+  // As above with an inline StyleSelector merged over the shared one.
+  static kmldom::StyleSelectorPtr CreateResolvedStyleSelector(
+      const string& styleurl, const kmldom::StyleSelectorPtr& styleselector,
+      const SharedStyleMap& shared_style_map);
 };
 
 }  // end namespace kmlengine
-- 
2.43.0


From 9cbf38d8e551a223e961307d87e329a4087f5ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:17 +0000
Subject: [PATCH 62/65] fix: a short colour after white space is read past its
 end

---
 src/kml/base/color32.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kml/base/color32.h b/src/kml/base/color32.h
index dcdf8d7..9de6c9e 100644
--- a/src/kml/base/color32.h
+++ b/src/kml/base/color32.h
@@ -137,8 +137,9 @@ class Color32 {
     if (color_abgr.size() > 0 && color_abgr[offset] == '#') {
       offset ++;
     }
-    size_t length = color_abgr.size() >= 8 + offset ? 8 : color_abgr.size();
-    for(size_t i = offset; i < length + offset; ++i) {
+    size_t end = color_abgr.size() >= 8 + offset ? 8 + offset
+                                                 : color_abgr.size();
+    for(size_t i = offset; i < end; ++i) {
       out = out * 16;
       if (color_abgr[i] >= '0' && color_abgr[i] <= '9') {
         out += color_abgr[i] - '0';
-- 
2.43.0


From 73ff44e45c75895db8d8c9c2f6a5bcc3736bf1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:50 +0000
Subject: [PATCH 63/65] fix: checking a KMZ file's links takes a mere fragment
 for a missing file

---
 src/kml/convenience/kmz_check_links.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/convenience/kmz_check_links.cc b/src/kml/convenience/kmz_check_links.cc
index 015fbc3..f34dc1e 100644
--- a/src/kml/convenience/kmz_check_links.cc
+++ b/src/kml/convenience/kmz_check_links.cc
@@ -51,7 +51,7 @@ bool KmzCheckLinks(const KmzFile& kmzfile, vector<string>* missing_links) {
   bool ret = true;  // Innocent until proven guilty.
   for (size_t i = 0; i < href_vector.size(); ++i) {
     Href href(href_vector[i]);
-    if (href.IsRelative()) {
+    if (href.IsRelativePath()) {  // A mere fragment names no file.
       string content;
       if (!kmzfile.ReadFile(href.get_path().c_str(), &content)) {
         if (missing_links) {
-- 
2.43.0


From bb219a26d5b953d32150164eb5d92d2d2d6f955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:13 +0000
Subject: [PATCH 64/65] fix: a tour primitive added to a playlist is not made
 its child

---
 src/kml/dom/gx_tour.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kml/dom/gx_tour.cc b/src/kml/dom/gx_tour.cc
index 0322aa5..e1c9cf4 100644
--- a/src/kml/dom/gx_tour.cc
+++ b/src/kml/dom/gx_tour.cc
@@ -83,7 +83,7 @@ GxPlaylist::~GxPlaylist() {}
 
 void GxPlaylist::add_gx_tourprimitive(
     const GxTourPrimitivePtr& gx_tourprimitive) {
-  gx_tourprimitive_array_.push_back(gx_tourprimitive);
+  AddComplexChild(gx_tourprimitive, &gx_tourprimitive_array_);
 }
 
 size_t GxPlaylist::get_gx_tourprimitive_array_size() const {
-- 
2.43.0


From 64c5decdbff8e34b45552dd3e4f2367ec89d289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:44 +0000
Subject: [PATCH 65/65] fix: a SimpleField is taken for a gx:SimpleArrayField

AsGxSimpleArrayField used the type of SimpleField, which GxSimpleArrayField
inherits, and so cast any SimpleField to the derived class.
---
 src/kml/dom/schema.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kml/dom/schema.h b/src/kml/dom/schema.h
index 4d26b00..7af17ec 100644
--- a/src/kml/dom/schema.h
+++ b/src/kml/dom/schema.h
@@ -106,6 +106,8 @@ class SimpleField : public BasicElement<Type_SimpleField> {
 class GxSimpleArrayField : public SimpleField {
  public:
   virtual ~GxSimpleArrayField();
+  // Hides that of SimpleField, which ElementCast would otherwise use.
+  static KmlDomType ElementType() { return Type_GxSimpleArrayField; }
   virtual KmlDomType Type() const { return Type_GxSimpleArrayField; }
   virtual bool IsA(KmlDomType type) const {
     return type == Type_GxSimpleArrayField || SimpleField::IsA(type);
-- 
2.43.0


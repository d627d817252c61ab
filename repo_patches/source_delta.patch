From 8af91dcb9ddf47bc3435a21ce7707a191f85a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 01/28] fix: do not touch the file system if the version check
 was opted out of

Constructing the version_checker creates ~/.config/seqan and probes it for
writing. Skip this if the developer, the environment or the user said no.
---
 include/sharg/parser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 7f996ae..f4254de 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -1113,6 +1113,11 @@ private:
      */
     inline void run_version_check()
     {
+        // Constructing the version_checker already accesses the file system: Do nothing if any party opted out.
+        if (version_check_dev_decision == update_notifications::off || std::getenv("SHARG_NO_VERSION_CHECK") != nullptr
+            || version_check_user_decision == std::optional{false})
+            return;
+
         detail::version_checker app_version{info.app_name, info.version, info.url};
 
         if (app_version.decide_if_check_is_performed(version_check_dev_decision, version_check_user_decision))
-- 
2.43.0


From ebac5f097cc76a453ab54fc9a0b3067e756d6837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 02/28] fix: parsing threw std::logic_error if HOME is not set

An empty HOME made the version check use a relative directory.
---
 include/sharg/detail/version_check.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index b57c93d..3dbf41f 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -225,13 +225,20 @@ public:
         using namespace std::filesystem;
 
         path tmp_path;
+        std::error_code err;
 
-        tmp_path = std::string{getenv(home_env_name)};
-        tmp_path /= ".config";
+        if (char const * const home = getenv(home_env_name); home != nullptr && *home != '\0')
+        {
+            tmp_path = std::string{home};
+            tmp_path /= ".config";
 
-        // First, create .config if it does not already exist.
-        std::error_code err;
-        create_directory(tmp_path, err);
+            // First, create .config if it does not already exist.
+            create_directory(tmp_path, err);
+        }
+        else
+        {
+            err = std::make_error_code(std::errc::no_such_file_or_directory);
+        }
 
         // If this did not fail we, create the seqan subdirectory.
         if (!err)
-- 
2.43.0


From 52d4e86bb162a29e8ce09a4c3c5deb0820b7fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 03/28] fix: parsing threw std::filesystem::filesystem_error if
 there is no temporary directory

---
 include/sharg/detail/version_check.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 3dbf41f..feb07ec 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -249,7 +249,12 @@ public:
 
         // .config/seqan cannot be created, try tmp directory.
         if (err)
-            tmp_path = temp_directory_path(); // choose temp dir instead
+        {
+            tmp_path = temp_directory_path(err); // choose temp dir instead
+
+            if (err)
+                return path{};
+        }
 
         // check if files can be written inside dir
         path dummy = tmp_path / "dummy.txt";
-- 
2.43.0


From ce7a4594928bba0c8550a77062d4c81cc3900421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 04/28] fix: the version check destroyed files called dummy.txt

Probing the configuration or temporary directory truncated and removed an
existing dummy.txt, even recursively if it was a directory, and aborted debug
builds if the removal failed.
---
 .../sharg/detail/safe_filesystem_entry.hpp    | 28 +++++++++++++++++++
 include/sharg/detail/version_check.hpp        | 12 ++------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/include/sharg/detail/safe_filesystem_entry.hpp b/include/sharg/detail/safe_filesystem_entry.hpp
index 2c7104f..fe1b945 100644
--- a/include/sharg/detail/safe_filesystem_entry.hpp
+++ b/include/sharg/detail/safe_filesystem_entry.hpp
@@ -10,7 +10,10 @@
 #pragma once
 
 #include <cassert>
+#include <cerrno>
+#include <cstdio>
 #include <filesystem>
+#include <string>
 #include <system_error>
 
 #include <sharg/platform.hpp>
@@ -18,6 +21,31 @@
 namespace sharg::detail
 {
 
+/*!\brief Creates a new and empty file in a directory, never touching any existing entry.
+ * \ingroup misc
+ * \param[in] dir  The directory.
+ * \param[in] name The preferred file name; a number is appended if the name is already taken.
+ * \returns The path of the created file, or an empty path if no file can be created.
+ */
+inline std::filesystem::path create_unique_file(std::filesystem::path const & dir, std::string const & name)
+{
+    for (unsigned i = 0; i < 10'000u; ++i)
+    {
+        std::filesystem::path candidate = dir / (i == 0u ? name : name + '.' + std::to_string(i));
+
+        if (std::FILE * file = std::fopen(candidate.string().c_str(), "wx"); file != nullptr)
+        {
+            std::fclose(file);
+            return candidate;
+        }
+
+        if (errno != EEXIST)
+            break;
+    }
+
+    return {};
+}
+
 /*!\brief A safe guard to manage a filesystem entry, e.g. a file or a directory.
  * \ingroup misc
  *
diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index feb07ec..befc1d7 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -257,16 +257,10 @@ public:
         }
 
         // check if files can be written inside dir
-        path dummy = tmp_path / "dummy.txt";
-        std::ofstream file{dummy};
-        sharg::detail::safe_filesystem_entry file_guard{dummy};
+        path const dummy = create_unique_file(tmp_path, ".sharg_write_test");
+        remove(dummy, err);
 
-        bool is_open = file.is_open();
-        bool is_good = file.good();
-        file.close();
-        file_guard.remove_no_throw();
-
-        if (!is_good || !is_open) // no write permissions
+        if (dummy.empty()) // no write permissions
         {
             tmp_path.clear(); // empty path signals no available directory to write to, version check will not be done
         }
-- 
2.43.0


From 3614e33a3d6ff9ba6f03c7ee3d798697ff092709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 05/28] fix: without a writable directory the version check
 used the working directory

An empty cookie path signals that no check is to be done, but nothing acted on
that: cookie, version file and download went to the current directory.
---
 include/sharg/detail/version_check.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index befc1d7..fee6566 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -301,6 +301,9 @@ public:
         if (std::getenv("SHARG_NO_VERSION_CHECK") != nullptr) // environment variable was set
             return false;
 
+        if (cookie_path.empty()) // no available directory to write to, see get_path()
+            return false;
+
         if (user_approval.has_value())
             return user_approval.value();
 
-- 
2.43.0


From bc03530ad37bdc8974f907862e5b7860f8bf0bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 06/28] fix: a version file with one line was read as if it had
 two

Reading the second line fails without changing the string, so the version of
the application was taken for the version of Sharg.
---
 include/sharg/detail/version_check.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index fee6566..03fb7a3 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -143,6 +143,7 @@ public:
                 std::cerr << message_unregistered_app;
 #endif // !defined(NDEBUG)
 
+            line.clear(); // remains empty if there is no second line
             std::getline(version_file, line); // get second line which should only contain the version number of sharg
             srv_sharg_version = get_numbers_from_version_string(line);
 
-- 
2.43.0


From ea9f152c48a9cd0ba01a850386de43aa1157e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 07/28] fix: version strings with numbers out of range or of
 excessive length

Out-of-range numbers were read as smaller versions, and matching the content of
a damaged version file against a regular expression could exhaust the stack.
---
 include/sharg/detail/version_check.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 03fb7a3..371a49a 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -487,12 +487,19 @@ private:
     {
         std::array<int, 3> result{};
 
-        if (!std::regex_match(str, version_regex))
+        // Matching a very long string could exhaust the stack.
+        if (str.size() > 255u || !std::regex_match(str, version_regex))
             return result;
 
         auto res = std::from_chars(str.data(), str.data() + str.size(), result[0]); // stops and sets res.ptr at '.'
+        bool valid = res.ec == std::errc{};
         res = std::from_chars(res.ptr + 1, str.data() + str.size(), result[1]);
+        valid = valid && res.ec == std::errc{};
         res = std::from_chars(res.ptr + 1, str.data() + str.size(), result[2]);
+        valid = valid && res.ec == std::errc{};
+
+        if (!valid) // a number is out of range
+            result.fill(0);
 
         return result;
     }
-- 
2.43.0


From 987d6424e1bd9e5cb399347c311651c8efd21c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 08/28] fix: quote the path of the version file in the download
 command

A home or temporary directory with spaces or shell characters in its name made
the download write to other files or run other commands.
---
 include/sharg/detail/version_check.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 371a49a..3c1c966 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -185,10 +185,17 @@ public:
 
         // 'cookie_path' is no user input and `name` is escaped on construction of the parser.
         std::filesystem::path out_file = cookie_path / (name + ".version");
+        std::string out_file_argument = out_file.string();
+#if !defined(_WIN32)
+        // But `cookie_path` depends on the environment: Protect all characters from the shell.
+        for (size_t pos = 0u; (pos = out_file_argument.find('\'', pos)) != std::string::npos; pos += 4u)
+            out_file_argument.replace(pos, 1u, "'\\''");
+        out_file_argument = '\'' + out_file_argument + '\'';
+#endif
 
         // build up command for server call
         std::string command = program + // no user defined input
-                              " " + out_file.string() + " "
+                              " " + out_file_argument + " "
                             + std::string{"https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_"} +
 #ifdef __linux
                               "Linux" +
-- 
2.43.0


From 9c98d77febf4e2eab65720c0f2f2fadc6e9e21ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 09/28] fix: parsing threw std::system_error if no thread can
 be started

---
 include/sharg/detail/version_check.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 3c1c966..16063b9 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -224,7 +224,14 @@ public:
 #endif
 
         // launch a separate thread to not defer runtime.
-        std::thread(call_server, command, std::move(prom)).detach();
+        try
+        {
+            std::thread(call_server, command, std::move(prom)).detach();
+        }
+        catch (std::system_error const &)
+        {
+            // There are no resources for another thread, the check is not done.
+        }
     }
 
     //!\brief Returns a writable path to store timestamp and version files or an empty path if none exists.
-- 
2.43.0


From 15ce926166272372a54e4fa17961d9b085e482bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 10/28] fix: replace the cookie of the version check atomically

The cookie was truncated and rewritten in place. A crash or a full disk in
between lost the stored decision and timestamp.
---
 include/sharg/detail/version_check.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 16063b9..1d79596 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -529,13 +529,23 @@ private:
         namespace co = std::chrono;
         auto curr = co::duration_cast<co::seconds>(co::system_clock::now().time_since_epoch()).count();
 
-        std::ofstream timestamp_file{timestamp_filename};
+        // The cookie is replaced as a whole: a failure or a crash in between leaves the previous cookie.
+        std::filesystem::path const new_file =
+            create_unique_file(cookie_path, timestamp_filename.filename().string() + ".new");
 
-        if (timestamp_file.is_open())
-        {
-            timestamp_file << curr << '\n' << msg;
-            timestamp_file.close();
-        }
+        if (new_file.empty())
+            return;
+
+        std::ofstream timestamp_file{new_file};
+        timestamp_file << curr << '\n' << msg;
+        timestamp_file.close();
+
+        std::error_code err{};
+        if (timestamp_file.good())
+            std::filesystem::rename(new_file, timestamp_filename, err);
+
+        if (!timestamp_file.good() || err)
+            std::filesystem::remove(new_file, err);
     }
 };
 
-- 
2.43.0


From 4b42a608d7a6b109cd93aa93837ce1c594ceae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 11/28] fix: a cookie that cannot be read was replaced, losing
 the decision of the user

Also, failing to look for the directory threw std::filesystem::filesystem_error.
---
 include/sharg/detail/version_check.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 1d79596..6eec03e 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -323,9 +323,13 @@ public:
             return user_approval.value();
 
         // version check was not explicitly handled so let's check the cookie
-        if (std::filesystem::exists(cookie_path))
+        if (std::error_code err{}; std::filesystem::exists(cookie_path, err) || err)
         {
             std::ifstream timestamp_file{timestamp_filename};
+
+            // A cookie that cannot be read may hold a decision that must not be overwritten.
+            if (!timestamp_file.is_open() && (std::filesystem::exists(timestamp_filename, err) || err))
+                return false;
             std::string cookie_line{};
 
             if (timestamp_file.is_open())
@@ -349,6 +353,9 @@ public:
                 }
                 // else we do not return but continue to ask the user
 
+                if (timestamp_file.bad())
+                    return false;
+
                 timestamp_file.close();
             }
         }
-- 
2.43.0


From 1eca0db4569d68b26a835ea1329319c59ad0ad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 12/28] fix: the decision ALWAYS checked on every run instead
 of once a day

The timestamp was never renewed, so from the second day on every run of the
program sent a request.
---
 include/sharg/detail/version_check.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 6eec03e..2343c64 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -341,6 +341,7 @@ public:
                     return false;
                 }
 
+                bool const has_timestamp = !cookie_line.empty() && cookie_line != "NEVER" && cookie_line != "ALWAYS";
                 std::getline(timestamp_file, cookie_line); // second line contains the last user decision
 
                 if (cookie_line == "NEVER")
@@ -349,6 +350,9 @@ public:
                 }
                 else if (cookie_line == "ALWAYS")
                 {
+                    if (has_timestamp) // renew it, the next check is due in a day
+                        write_cookie("ALWAYS");
+
                     return true;
                 }
                 // else we do not return but continue to ask the user
-- 
2.43.0


From 1ddc8621b149ed30b501e2c3ccaf96a486fbd031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 13/28] fix: checking the write permission destroyed files even
 if the check failed

A file that cannot be opened, a writable file in a directory that is not, the
target of a symbolic link, devices and FIFOs were truncated, removed or made
debug builds abort.
---
 include/sharg/validators.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index f448d51..33f8edc 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -445,8 +445,13 @@ protected:
             throw validation_error{"\"" + path.string() + "\" is a directory. Cannot validate writeability."};
         // LCOV_EXCL_STOP
 
-        std::ofstream file{path};
-        sharg::detail::safe_filesystem_entry file_guard{path};
+        // A dangling symbolic link would create its target.
+        std::filesystem::path target{path};
+        bool const exists = std::filesystem::exists(target);
+        while (!exists && std::filesystem::is_symlink(std::filesystem::symlink_status(target)))
+            target = target.parent_path() / std::filesystem::read_symlink(target);
+
+        std::ofstream file{target, std::ios::app}; // does not change the content of an existing file
 
         bool is_open = file.is_open();
         bool is_good = file.good();
@@ -455,7 +460,10 @@ protected:
         if (!is_good || !is_open)
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
 
-        file_guard.remove();
+        // Remove what was created and regular files which are to be overwritten, but no links, devices, etc.
+        std::error_code ec;
+        if (!exists || std::filesystem::is_regular_file(std::filesystem::symlink_status(target)))
+            std::filesystem::remove(target, ec);
     }
 
     //!\brief Returns the information of valid file extensions.
-- 
2.43.0


From 40c526d0495e928cf56655b3c9597ce63b7f4c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 14/28] fix: output_file_validator removed files it rejected
 because of their extension

---
 include/sharg/validators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 33f8edc..1dcf8b5 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -736,10 +736,10 @@ public:
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
+            validate_filename(file);
+
             // Check if file has any write permissions.
             validate_writeability(file);
-
-            validate_filename(file);
         }
         // LCOV_EXCL_START
         catch (std::filesystem::filesystem_error & ex)
-- 
2.43.0


From 7d859c0de45a0f68ed33aa36380a430196171824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 15/28] fix: output_file_validator threw
 std::filesystem::filesystem_error

All failures are to be reported as sharg::validation_error.
---
 include/sharg/validators.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 1dcf8b5..d3869b4 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -728,11 +728,11 @@ public:
      */
     virtual void operator()(std::filesystem::path const & file) const override
     {
-        if (std::filesystem::is_directory(file))
-            throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
-
         try
         {
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
-- 
2.43.0


From b7eea8611b47e3a0ffcf1ceec2e32abdf966979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 16/28] fix: output_directory_validator removed entries it had
 not created

It destroyed an existing dummy.txt, or rejected the directory if that is a
directory, and recursively removed a directory it had created although other
processes may already have put files there. Failures surfaced as
std::filesystem::filesystem_error instead of sharg::validation_error.
---
 include/sharg/validators.hpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index d3869b4..fd38351 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -915,26 +915,25 @@ public:
      */
     virtual void operator()(std::filesystem::path const & dir) const override
     {
-        bool dir_exists = std::filesystem::exists(dir);
-        // Make sure the created dir is deleted after we are done.
-        std::error_code ec;
-        std::filesystem::create_directory(dir, ec); // does nothing and is not treated as error if path already exists.
-        // if error code was set or if dummy.txt could not be created within the output dir, throw an error.
-        if (static_cast<bool>(ec))
-            throw validation_error{"Cannot create directory: \"" + dir.string() + "\"!"};
-
         try
         {
-            if (!dir_exists)
-            {
-                sharg::detail::safe_filesystem_entry dir_guard{dir};
-                validate_writeability(dir / "dummy.txt");
-                dir_guard.remove_all();
-            }
-            else
-            {
-                validate_writeability(dir / "dummy.txt");
-            }
+            // Make sure the created dir is deleted after we are done.
+            std::error_code ec;
+            // returns false and is not treated as error if path already exists.
+            bool const dir_created = std::filesystem::create_directory(dir, ec);
+            // if error code was set or if no file could be created within the output dir, throw an error.
+            if (static_cast<bool>(ec))
+                throw validation_error{"Cannot create directory: \"" + dir.string() + "\"!"};
+
+            std::filesystem::path const dummy = detail::create_unique_file(dir, ".sharg_write_test");
+            std::filesystem::remove(dummy, ec);
+
+            // Does nothing if the directory has been filled by someone else in the meantime.
+            if (dir_created)
+                std::filesystem::remove(dir, ec);
+
+            if (dummy.empty())
+                throw validation_error{"Cannot write files in the directory \"" + dir.string() + "\"!"};
         }
         // LCOV_EXCL_START
         catch (std::filesystem::filesystem_error & ex)
-- 
2.43.0


From 6bd7286db0353fbe91b0c1e0010e212557d45fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 17/28] fix: input_file_validator accepted directories

It is documented to accept existing regular files only.
---
 include/sharg/validators.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index fd38351..1af24c3 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -575,6 +575,9 @@ public:
             if (!std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" does not exist!"};
 
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             // Check if file is regular and can be opened for reading.
             validate_readability(file);
 
-- 
2.43.0


From bc2a5d67425db70ac836753e7fc9ae4a30cb379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 18/28] fix: numbers out of range were silently dropped from
 list options

Debug builds ran into an assertion, release builds ignored the argument.
---
 include/sharg/detail/format_parse.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index b2b0feb..10902ed 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -467,6 +467,10 @@ private:
                                        + std::to_string(std::numeric_limits<option_type>::max()) + "]."};
             }
         }
+        else if constexpr (detail::is_container_option<option_type>) // an element was out of range
+        {
+            throw_on_input_error<typename option_type::value_type>(res, option_name, input_value);
+        }
 
         assert(res == option_parse_result::success); // if nothing was thrown, the result must have been a success
     }
-- 
2.43.0


From 456ffc0015d20f96defcd834691cac2d0ad2effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 19/28] fix: help pages read beyond the end of texts ending in
 a backslash

Words of a description may end in a backslash, e.g., Windows paths.
---
 include/sharg/detail/format_help.hpp | 16 ++++++++++++----
 include/sharg/detail/format_html.hpp | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 7f6d80c..4f2f93d 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -226,16 +226,24 @@ protected:
             if (*it == '\\')
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
-                ++it;
-                assert(it != str.end());
+                if (++it == str.end())
+                {
+                    result.push_back('\\');
+                    break;
+                }
+
                 if (*it == '-')
                 {
                     result.push_back(*it);
                 }
                 else if (*it == 'f')
                 {
-                    ++it;
-                    assert(it != str.end());
+                    if (++it == str.end())
+                    {
+                        result.append("\\f");
+                        break;
+                    }
+
                     if (*it == 'I')
                     {
                         if (stdout_is_terminal())
diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index cfa93e4..bc3dddb 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -181,16 +181,24 @@ private:
             if (*it == '\\')
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
-                ++it;
-                assert(!(it == input.end()));
+                if (++it == input.end())
+                {
+                    result.push_back('\\');
+                    break;
+                }
+
                 if (*it == '-')
                 {
                     result.push_back(*it);
                 }
                 else if (*it == 'f')
                 {
-                    ++it;
-                    assert(!(it == input.end()));
+                    if (++it == input.end())
+                    {
+                        result.append("\\f");
+                        break;
+                    }
+
                     if (*it == 'I')
                     {
                         open_tags.push_back("em");
-- 
2.43.0


From a22cc2bd8e6bed402cffba10412ade114a663053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:08 +0000
Subject: [PATCH 20/28] fix: options of type std::filesystem::path rejected
 paths with spaces

---
 include/sharg/detail/format_parse.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 10902ed..5851f07 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -352,6 +352,16 @@ private:
         value = in;
         return option_parse_result::success;
     }
+
+    // The stream operator of std::filesystem::path stops at a space.
+    option_parse_result parse_option_value(std::filesystem::path & value, std::string const & in)
+    {
+        if (in.empty())
+            return option_parse_result::error;
+
+        value = in;
+        return option_parse_result::success;
+    }
     //!\endcond
 
     /*!\brief Parses the given option value and appends it to the target container.
-- 
2.43.0


From 7d7e207bb7067538b4581e17860cc59e414f0dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:56 +0000
Subject: [PATCH 21/28] fix: timestamps were written with the digit grouping of
 the global locale

They could not be read back, such that notifications were requested too often.
---
 include/sharg/detail/version_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 2343c64..b84b596 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -548,7 +548,7 @@ private:
             return;
 
         std::ofstream timestamp_file{new_file};
-        timestamp_file << curr << '\n' << msg;
+        timestamp_file << std::to_string(curr) << '\n' << msg;
         timestamp_file.close();
 
         std::error_code err{};
-- 
2.43.0


From 482dd4b0438f52cca6b3968d6f02d8f7f785490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:53 +0000
Subject: [PATCH 22/28] fix: file validators accepted file names that merely
 end in the letters of a valid extension

---
 include/sharg/validators.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 1af24c3..b6bc429 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -392,7 +392,9 @@ protected:
         // Compares the extensions in lower case.
         auto case_insensitive_ends_with = [&](std::string const & ext)
         {
-            return case_insensitive_string_ends_with(file_path, ext);
+            // The extension of "file.nofa" is "nofa", not "fa".
+            bool const needs_dot = !ext.empty() && ext.front() != '.';
+            return case_insensitive_string_ends_with(file_path, needs_dot ? '.' + ext : ext);
         };
 
         // Check if requested extension is present.
-- 
2.43.0


From 7409aad7674780b103af7e4314d57ad9690fee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:51 +0000
Subject: [PATCH 23/28] fix: parsers that were moved before parsing used the
 object they were moved from

---
 include/sharg/parser.hpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index f4254de..487d235 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -243,14 +243,14 @@ public:
         check_parse_not_called("add_option");
         verify_option_config(config);
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_option(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -279,14 +279,14 @@ public:
         if (value)
             throw design_error("A flag's default value must be false.");
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_flag(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -330,14 +330,14 @@ public:
         if constexpr (detail::is_container_option<option_type>)
             has_positional_list_option = true; // keep track of a list option because there must be only one!
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](parser & self)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
                 f.add_positional_option(value, config);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -426,7 +426,7 @@ public:
 
         // Apply all defered operations to the parser, e.g., `add_option`, `add_flag`, `add_positional_option`.
         for (auto & operation : operations)
-            operation();
+            operation(*this);
 
         // The version check, which might exit the program, must be called before calling parse on the format.
         run_version_check();
@@ -533,14 +533,14 @@ public:
     {
         check_parse_not_called("add_section");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](parser & self)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
                 f.add_section(title, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -560,14 +560,14 @@ public:
     {
         check_parse_not_called("add_subsection");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](parser & self)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
                 f.add_subsection(title, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -588,14 +588,14 @@ public:
     {
         check_parse_not_called("add_line");
 
-        auto operation = [this, text, is_paragraph, advanced_only]()
+        auto operation = [text, is_paragraph, advanced_only](parser & self)
         {
             auto visit_fn = [&text, is_paragraph, advanced_only](auto & f)
             {
                 f.add_line(text, is_paragraph, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -625,14 +625,14 @@ public:
     {
         check_parse_not_called("add_list_item");
 
-        auto operation = [this, key, desc, advanced_only]()
+        auto operation = [key, desc, advanced_only](parser & self)
         {
             auto visit_fn = [&key, &desc, advanced_only](auto & f)
             {
                 f.add_list_item(key, desc, advanced_only);
             };
 
-            std::visit(std::move(visit_fn), format);
+            std::visit(std::move(visit_fn), self.format);
         };
 
         operations.push_back(std::move(operation));
@@ -775,8 +775,8 @@ private:
     //!\brief Set of option identifiers (including -/--) that have been added via `add_option`.
     std::unordered_set<std::string> options{};
 
-    //!\brief Vector of functions that stores all calls.
-    std::vector<std::function<void()>> operations;
+    //!\brief Vector of functions that stores all calls. They get the parser as argument because it may have been moved.
+    std::vector<std::function<void(parser &)>> operations;
 
     /*!\brief Handles format and subcommand detection.
      * \throws sharg::too_few_arguments if option --export-help was specified without a value
-- 
2.43.0


From cbb724974665f02b118223aa2766980e566ec8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 24/28] fix: do not swallow allocation failures and print
 incomplete pages and messages

---
 include/sharg/detail/format_base.hpp | 1 +
 include/sharg/detail/format_help.hpp | 1 +
 include/sharg/detail/to_string.hpp   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/sharg/detail/format_base.hpp b/include/sharg/detail/format_base.hpp
index 8689b44..4ca0158 100644
--- a/include/sharg/detail/format_base.hpp
+++ b/include/sharg/detail/format_base.hpp
@@ -199,6 +199,7 @@ protected:
         static_assert(std::same_as<option_type, default_type> || std::same_as<default_type, std::string>);
 
         std::stringstream message{};
+        message.exceptions(std::ios::badbit); // Do not swallow exceptions and truncate the message.
         message << " Default: ";
 
         if constexpr (detail::is_container_option<option_type>)
diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 4f2f93d..c5bfe04 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -339,6 +339,7 @@ protected:
 
         // Tokenize the text.
         std::istringstream iss(text.c_str());
+        iss.exceptions(std::ios::badbit); // Do not swallow exceptions, e.g., std::bad_alloc, and truncate the text.
         std::vector<std::string> tokens{std::istream_iterator<std::string>(iss), std::istream_iterator<std::string>()};
 
         // Print the text.
diff --git a/include/sharg/detail/to_string.hpp b/include/sharg/detail/to_string.hpp
index a8e90a6..1b93dce 100644
--- a/include/sharg/detail/to_string.hpp
+++ b/include/sharg/detail/to_string.hpp
@@ -40,6 +40,7 @@ template <typename... value_types>
 std::string to_string(value_types &&... values)
 {
     std::stringstream stream;
+    stream.exceptions(std::ios::badbit); // Do not swallow exceptions, e.g., std::bad_alloc, and truncate the string.
 
     auto print = [&stream](auto && val)
     {
-- 
2.43.0


From a898a3b8327e25d8fe2092ced4c6128c2caea97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 25/28] fix: ignore lines of the version file that could not be
 read completely

---
 include/sharg/detail/version_check.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index b84b596..a20be87 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -135,6 +135,8 @@ public:
         {
             std::string line{};
             std::getline(version_file, line); // get first line which should only contain the version number of the app
+            if (version_file.bad()) // a read failed, the line may be incomplete
+                line.clear();
 
             if (line != unregistered_app)
                 srv_app_version = get_numbers_from_version_string(line);
@@ -145,6 +147,9 @@ public:
 
             line.clear(); // remains empty if there is no second line
             std::getline(version_file, line); // get second line which should only contain the version number of sharg
+            if (version_file.bad())
+                line.clear();
+
             srv_sharg_version = get_numbers_from_version_string(line);
 
             version_file.close();
-- 
2.43.0


From 5fd616f7df13cfbcd1633f0982c4524410d7d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:26 +0000
Subject: [PATCH 26/28] fix: numbers in messages and pages depended on the
 global locale

---
 include/sharg/detail/format_parse.hpp | 3 +++
 include/sharg/detail/to_string.hpp    | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 5851f07..4c6d105 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -9,6 +9,8 @@
 
 #pragma once
 
+#include <locale>
+
 #include <sharg/std/charconv>
 
 #include <sharg/concept.hpp>
@@ -290,6 +292,7 @@ private:
     option_parse_result parse_option_value(option_t & value, std::string const & in)
     {
         std::istringstream stream{in};
+        stream.imbue(std::locale::classic()); // The command line does not depend on the global locale.
         stream >> value;
 
         if (stream.fail() || !stream.eof())
diff --git a/include/sharg/detail/to_string.hpp b/include/sharg/detail/to_string.hpp
index 1b93dce..7c3ff4c 100644
--- a/include/sharg/detail/to_string.hpp
+++ b/include/sharg/detail/to_string.hpp
@@ -9,6 +9,7 @@
 
 #pragma once
 
+#include <locale>
 #include <sstream>
 
 #include <sharg/concept.hpp>
@@ -40,6 +41,7 @@ template <typename... value_types>
 std::string to_string(value_types &&... values)
 {
     std::stringstream stream;
+    stream.imbue(std::locale::classic()); // Values are written such that they can be parsed again.
     stream.exceptions(std::ios::badbit); // Do not swallow exceptions, e.g., std::bad_alloc, and truncate the string.
 
     auto print = [&stream](auto && val)
-- 
2.43.0


From 2769dc1aaec771eea32323674df9730dfb2f90f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:26 +0000
Subject: [PATCH 27/28] fix: exit status 0 although a page could not be written

---
 include/sharg/parser.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 487d235..491bc93 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -9,6 +9,9 @@
 
 #pragma once
 
+#include <cstdio>
+#include <cstdlib>
+#include <iostream>
 #include <unordered_set>
 #include <variant>
 
@@ -434,9 +437,12 @@ public:
         // Parse the command line arguments.
         parse_format();
 
-        // Exit after parsing any special format.
+        // Exit after parsing any special format. It is a failure if the page could not be written completely.
         if (!std::holds_alternative<detail::format_parse>(format))
-            std::exit(EXIT_SUCCESS);
+        {
+            std::cout.flush();
+            std::exit(std::cout && !std::ferror(stdout) ? EXIT_SUCCESS : EXIT_FAILURE);
+        }
     }
 
     /*!\brief Returns a reference to the sub-parser instance if
-- 
2.43.0


From 26e80b672947410d330f2d68cc83b8401e900346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:43 +0000
Subject: [PATCH 28/28] fix: probes of validators were left behind if an
 allocation failed

---
 include/sharg/validators.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index b6bc429..94086c0 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -12,8 +12,10 @@
 #include <algorithm>
 #include <any>
 #include <concepts>
+#include <cstdio>
 #include <exception>
 #include <fstream>
+#include <memory>
 #include <ranges>
 #include <regex>
 
@@ -453,15 +455,14 @@ protected:
         while (!exists && std::filesystem::is_symlink(std::filesystem::symlink_status(target)))
             target = target.parent_path() / std::filesystem::read_symlink(target);
 
-        std::ofstream file{target, std::ios::app}; // does not change the content of an existing file
+        // Does not change the content of an existing file and does not throw if it created one.
+        std::FILE * const file = std::fopen(target.string().c_str(), "a");
 
-        bool is_open = file.is_open();
-        bool is_good = file.good();
-        file.close();
-
-        if (!is_good || !is_open)
+        if (file == nullptr)
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
 
+        std::fclose(file);
+
         // Remove what was created and regular files which are to be overwritten, but no links, devices, etc.
         std::error_code ec;
         if (!exists || std::filesystem::is_regular_file(std::filesystem::symlink_status(target)))
@@ -930,13 +931,18 @@ public:
             if (static_cast<bool>(ec))
                 throw validation_error{"Cannot create directory: \"" + dir.string() + "\"!"};
 
+            // Does nothing if the directory has been filled by someone else in the meantime.
+            auto remove_dir = [&dir](bool const * const created)
+            {
+                std::error_code ec;
+                if (*created)
+                    std::filesystem::remove(dir, ec);
+            };
+            std::unique_ptr<bool const, decltype(remove_dir)> const dir_guard{&dir_created, remove_dir};
+
             std::filesystem::path const dummy = detail::create_unique_file(dir, ".sharg_write_test");
             std::filesystem::remove(dummy, ec);
 
-            // Does nothing if the directory has been filled by someone else in the meantime.
-            if (dir_created)
-                std::filesystem::remove(dir, ec);
-
             if (dummy.empty())
                 throw validation_error{"Cannot write files in the directory \"" + dir.string() + "\"!"};
         }
-- 
2.43.0


From cf37b29a967e7b94af6469f47f4cd17f742a529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 01/19] fix: addArgument must reject any flag of the list that
 is already used

Only the first flag of the list was looked up, so a later flag that belonged
to another argument was accepted and then silently never reached the new one.
---
 single_include/blet/args.h | 4 ++--
 src/args.cpp               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 64b1326..047b5a0 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2793,8 +2793,8 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
diff --git a/src/args.cpp b/src/args.cpp
index 3d2399b..0fd6936 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -239,8 +239,8 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
-- 
2.43.0


From e8f681ab3905fce59f3aae334fefbe9f3c370e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 02/19] fix: keep the defaults of an argument when it is copied
 by dest()

The copy constructor dropped defaults_, so getDefaults() was empty after dest()
and a later nargs() or action() no longer checked or rebuilt the defaults.
---
 single_include/blet/args.h | 2 +-
 src/argument.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 047b5a0..6920516 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3354,7 +3354,7 @@ inline Argument::Argument(const Argument& rhs) :
     validDeletable_(rhs.validDeletable_),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 inline Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
diff --git a/src/argument.cpp b/src/argument.cpp
index e5607e7..cac5c95 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -135,7 +135,7 @@ Argument::Argument(const Argument& rhs) :
     validDeletable_(rhs.validDeletable_),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
-- 
2.43.0


From 6287d43ae97b6894da7f945cc3803b509d5a6c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 03/19] fix: dest() on the help or version option left a
 dangling pointer

dest() replaces the argument object by a new one and deletes the old one, but
helpOption_ and versionOption_ still pointed to the deleted object.
---
 include/blet/args/argument.h | 11 +++++------
 single_include/blet/args.h   | 23 +++++++++++++++++------
 src/argument.cpp             | 12 ++++++++++++
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index a2cd6ad..bb68735 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -662,6 +662,8 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    void replace_(Argument* argument);
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -692,8 +694,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentType() {}
 
@@ -727,8 +728,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentVectorType() {}
 
@@ -799,8 +799,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentVectorVectorType() {}
 
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 6920516..629e8c1 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1213,6 +1213,8 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    void replace_(Argument* argument);
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -1243,8 +1245,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentType() {}
 
@@ -1278,8 +1279,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentVectorType() {}
 
@@ -1350,8 +1350,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentVectorVectorType() {}
 
@@ -3786,6 +3785,18 @@ inline void Argument::defaultsConstructor_() {
     }
 }
 
+inline void Argument::replace_(Argument* argument) {
+    // the new object takes the place of argument
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    delete argument;
+    *this_ = this;
+}
+
 inline void Argument::clear_() {
     argument_ = default_;
     isNumber_ = false;
diff --git a/src/argument.cpp b/src/argument.cpp
index cac5c95..ab91e92 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -567,6 +567,18 @@ void Argument::defaultsConstructor_() {
     }
 }
 
+void Argument::replace_(Argument* argument) {
+    // the new object takes the place of argument
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    delete argument;
+    *this_ = this;
+}
+
 void Argument::clear_() {
     argument_ = default_;
     isNumber_ = false;
-- 
2.43.0


From 8f229a6f1aaf69aa8d7d51a2c0982bfc57c35aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 04/19] fix: values of a positional list argument must replace
 its defaults

The parsed values were appended to the default values.
---
 single_include/blet/args.h | 3 +++
 src/args.cpp               | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 629e8c1..51f5994 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3156,12 +3156,14 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
+            argument.clear();
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
                 argument.push_back(argv[i]);
             }
             *index += argument.nargs_ - 1;
         }
         else if (argument.type_ == Argument::INFINITE_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; ++i) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
@@ -3173,6 +3175,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             *index += countArg - 1;
         }
         else if (argument.type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; i += argument.nargs_) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
diff --git a/src/args.cpp b/src/args.cpp
index 0fd6936..8f6cade 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -603,12 +603,14 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
+            argument.clear();
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
                 argument.push_back(argv[i]);
             }
             *index += argument.nargs_ - 1;
         }
         else if (argument.type_ == Argument::INFINITE_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; ++i) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
@@ -620,6 +622,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             *index += countArg - 1;
         }
         else if (argument.type_ == Argument::INFINITE_NUMBER_POSITIONAL_ARGUMENT) {
+            argument.clear();
             std::size_t countArg = 0;
             for (int i = *index; i < argc; i += argument.nargs_) {
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
-- 
2.43.0


From 4346fe2073eb9f102653984b07c3ae832faed6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 05/19] fix: "-oVALUE" counted the option twice and kept the
 defaults of a list

The attached form marked the option as present before parseArgument_() did.
---
 single_include/blet/args.h | 2 --
 src/args.cpp               | 2 --
 2 files changed, 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 51f5994..c31f444 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2920,8 +2920,6 @@ inline void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
diff --git a/src/args.cpp b/src/args.cpp
index 8f6cade..fd63617 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -367,8 +367,6 @@ void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
-- 
2.43.0


From 1b99aa973b985f3e4de7828eb7fbe1cf1ad10864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 06/19] fix: use after free in removeArguments() when a name is
 given twice

---
 single_include/blet/args.h | 4 +++-
 src/args.cpp               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index c31f444..33c721d 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2826,7 +2826,9 @@ inline void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
diff --git a/src/args.cpp b/src/args.cpp
index fd63617..5cf1459 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -273,7 +273,9 @@ void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
-- 
2.43.0


From 2d400d788cf54feb3c29e3fd692cc3d9f96c76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 07/19] fix: ValidNumber accepted the empty string

---
 single_include/blet/args.h | 2 +-
 src/valid.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 33c721d..1c5be13 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -4336,7 +4336,7 @@ inline bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || (endPtr != NULL && endPtr[0] != '\0')) {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
diff --git a/src/valid.cpp b/src/valid.cpp
index 28c6553..8f92457 100644
--- a/src/valid.cpp
+++ b/src/valid.cpp
@@ -49,7 +49,7 @@ bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || (endPtr != NULL && endPtr[0] != '\0')) {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
-- 
2.43.0


From 792c5dcd9d6e8919d5e72e3ead9909b227b83fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 08/19] fix: count() of a positional argument present in argv
 was 0

---
 single_include/blet/args.h | 1 +
 src/args.cpp               | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 1c5be13..0b48dd7 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3194,6 +3194,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             *index += countArg - 1;
         }
         argument.isExist_ = true;
+        ++argument.count_;
     }
     else {
         if (isStrict_) {
diff --git a/src/args.cpp b/src/args.cpp
index 5cf1459..0288fe9 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -641,6 +641,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             *index += countArg - 1;
         }
         argument.isExist_ = true;
+        ++argument.count_;
     }
     else {
         if (isStrict_) {
-- 
2.43.0


From 8ba3b9ad62ffc3298f7c32a913010efa30567d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 09/19] fix: STORE_FALSE, HELP and VERSION were ignored once
 nargs was 0

nargs_ == 0 was tested first, so updating a STORE_TRUE option (or one already
set to the same action) to STORE_FALSE, HELP or VERSION gave a STORE_TRUE
option, and the help or version option was lost.
---
 single_include/blet/args.h | 8 ++++----
 src/argument.cpp           | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 0b48dd7..c4bf8a1 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3663,10 +3663,6 @@ inline void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
-        nargs_ = 0;
-        type_ = Argument::BOOLEAN_OPTION;
-    }
     else if (action_ == Action::STORE_FALSE) {
         nargs_ = 0;
         type_ = Argument::REVERSE_BOOLEAN_OPTION;
@@ -3691,6 +3687,10 @@ inline void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+        nargs_ = 0;
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
diff --git a/src/argument.cpp b/src/argument.cpp
index ab91e92..c935f39 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -441,10 +441,6 @@ void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
-        nargs_ = 0;
-        type_ = Argument::BOOLEAN_OPTION;
-    }
     else if (action_ == Action::STORE_FALSE) {
         nargs_ = 0;
         type_ = Argument::REVERSE_BOOLEAN_OPTION;
@@ -469,6 +465,10 @@ void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+        nargs_ = 0;
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
-- 
2.43.0


From dbbd2c88cb38fec119e5894efd07dca53ca5b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 10/19] fix: stale default value after a change of defaults,
 nargs or action

The default text of groups was appended again at each call ("(0, 1)(0, 1)") and
the elements of previous defaults survived empty defaults or a boolean action.
---
 single_include/blet/args.h | 4 +++-
 src/argument.cpp           | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index c4bf8a1..29c3fb5 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3725,8 +3725,10 @@ inline void Argument::typeConstructor_() {
 
 inline void Argument::defaultsConstructor_() {
     // default arguments
+    clear();
+    argument_ = "";
+    default_ = "";
     if (nargs_ > 0 && defaults_.size() > 0) {
-        clear();
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
diff --git a/src/argument.cpp b/src/argument.cpp
index c935f39..c7bd732 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -503,8 +503,10 @@ void Argument::typeConstructor_() {
 
 void Argument::defaultsConstructor_() {
     // default arguments
+    clear();
+    argument_ = "";
+    default_ = "";
     if (nargs_ > 0 && defaults_.size() > 0) {
-        clear();
         if (type_ == Argument::POSITIONAL_ARGUMENT || type_ == Argument::SIMPLE_OPTION) {
             if (defaults_.size() != nargs_) {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
-- 
2.43.0


From 86cf8588b65fb9ab2b1c76eda7f9dd9626dab3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 11/19] fix: a second parseArguments() kept values of the first
 one

The elements of list arguments were emptied but not removed nor restored to the
defaults, and the additional arguments were accumulated.
---
 single_include/blet/args.h | 13 ++-----------
 src/args.cpp               |  1 +
 src/argument.cpp           | 12 +-----------
 3 files changed, 4 insertions(+), 22 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 29c3fb5..e0e29c7 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2618,6 +2618,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
@@ -3804,21 +3805,11 @@ inline void Argument::replace_(Argument* argument) {
 }
 
 inline void Argument::clear_() {
-    argument_ = default_;
     isNumber_ = false;
     number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
+    defaultsConstructor_();
 }
 
 } // namespace args
diff --git a/src/args.cpp b/src/args.cpp
index 0288fe9..0793f64 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -65,6 +65,7 @@ void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
diff --git a/src/argument.cpp b/src/argument.cpp
index c7bd732..9757069 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -582,21 +582,11 @@ void Argument::replace_(Argument* argument) {
 }
 
 void Argument::clear_() {
-    argument_ = default_;
     isNumber_ = false;
     number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
+    defaultsConstructor_();
 }
 
 } // namespace args
-- 
2.43.0


From 68ef8268450a67244642d6d8f1f6ecce3a625786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 12/19] fix: a rejected action(), nargs() or defaults() must
 have no effect

The arguments kept the refused action, nargs or defaults, half applied: a refused
HELP action followed by another action() even unregistered the real help option.
---
 include/blet/args/argument.h |  9 +++---
 single_include/blet/args.h   | 58 ++++++++++++++++++++++++++----------
 src/argument.cpp             | 49 +++++++++++++++++++++++-------
 3 files changed, 84 insertions(+), 32 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index bb68735..b0cd892 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -512,9 +512,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     Argument& nargs(std::size_t nargs__) {
-        nargs_ = nargs__;
-        typeConstructor_();
-        defaultsConstructor_();
+        define_(action_, nargs__, defaults_);
         return *this;
     }
 
@@ -527,8 +525,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     Argument& defaults(const Vector& defaults__) {
-        defaults_ = defaults__;
-        defaultsConstructor_();
+        define_(action_, nargs_, defaults__);
         return *this;
     }
 
@@ -654,6 +651,8 @@ class Argument : public ArgumentElement {
 
     std::string metavarDefault_();
 
+    void define_(enum Action::eAction action__, std::size_t nargs__, const std::vector<std::string>& defaults__);
+
     void typeConstructor_();
 
     void defaultsConstructor_();
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index e0e29c7..34941ac 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1063,9 +1063,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     inline Argument& nargs(std::size_t nargs__) {
-        nargs_ = nargs__;
-        typeConstructor_();
-        defaultsConstructor_();
+        define_(action_, nargs__, defaults_);
         return *this;
     }
 
@@ -1078,8 +1076,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     inline Argument& defaults(const Vector& defaults__) {
-        defaults_ = defaults__;
-        defaultsConstructor_();
+        define_(action_, nargs_, defaults__);
         return *this;
     }
 
@@ -1205,6 +1202,8 @@ class Argument : public ArgumentElement {
 
     std::string metavarDefault_();
 
+    void define_(enum Action::eAction action__, std::size_t nargs__, const std::vector<std::string>& defaults__);
+
     void typeConstructor_();
 
     void defaultsConstructor_();
@@ -3473,17 +3472,7 @@ inline Argument& Argument::flag(const char* flag__) {
 }
 
 inline Argument& Argument::action(enum Action::eAction action__) {
-    // reset help option
-    if (action_ == Action::HELP) {
-        args_.helpOption_ = NULL;
-    }
-    // reset version option
-    if (action_ == Action::VERSION) {
-        args_.versionOption_ = NULL;
-    }
-    action_ = action__;
-    typeConstructor_();
-    defaultsConstructor_();
+    define_(action__, nargs_, defaults_);
     return *this;
 }
 
@@ -3643,6 +3632,43 @@ inline std::string Argument::metavarDefault_() {
     }
 }
 
+inline void Argument::define_(enum Action::eAction action__, std::size_t nargs__,
+                              const std::vector<std::string>& defaults__) {
+    // save the current definition
+    const enum Action::eAction saveAction = action_;
+    const std::size_t saveNargs = nargs_;
+    const enum Type saveType = type_;
+    const std::vector<std::string> saveDefaults = defaults_;
+    Argument* const saveHelpOption = args_.helpOption_;
+    Argument* const saveVersionOption = args_.versionOption_;
+    try {
+        // reset help option
+        if (action_ == Action::HELP) {
+            args_.helpOption_ = NULL;
+        }
+        // reset version option
+        if (action_ == Action::VERSION) {
+            args_.versionOption_ = NULL;
+        }
+        defaults_ = std::vector<std::string>(defaults__);
+        nargs_ = nargs__;
+        action_ = action__;
+        typeConstructor_();
+        defaultsConstructor_();
+    }
+    catch (const ArgumentException&) {
+        // a rejected definition has no effect
+        action_ = saveAction;
+        nargs_ = saveNargs;
+        type_ = saveType;
+        defaults_ = saveDefaults;
+        args_.helpOption_ = saveHelpOption;
+        args_.versionOption_ = saveVersionOption;
+        defaultsConstructor_();
+        throw;
+    }
+}
+
 inline void Argument::typeConstructor_() {
     if (isPositionnalArgument_()) {
         if (nargs_ == 1 && action_ == Action::NONE) {
diff --git a/src/argument.cpp b/src/argument.cpp
index 9757069..c263805 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -250,17 +250,7 @@ Argument& Argument::flag(const char* flag__) {
 }
 
 Argument& Argument::action(enum Action::eAction action__) {
-    // reset help option
-    if (action_ == Action::HELP) {
-        args_.helpOption_ = NULL;
-    }
-    // reset version option
-    if (action_ == Action::VERSION) {
-        args_.versionOption_ = NULL;
-    }
-    action_ = action__;
-    typeConstructor_();
-    defaultsConstructor_();
+    define_(action__, nargs_, defaults_);
     return *this;
 }
 
@@ -420,6 +410,43 @@ std::string Argument::metavarDefault_() {
     }
 }
 
+void Argument::define_(enum Action::eAction action__, std::size_t nargs__,
+                       const std::vector<std::string>& defaults__) {
+    // save the current definition
+    const enum Action::eAction saveAction = action_;
+    const std::size_t saveNargs = nargs_;
+    const enum Type saveType = type_;
+    const std::vector<std::string> saveDefaults = defaults_;
+    Argument* const saveHelpOption = args_.helpOption_;
+    Argument* const saveVersionOption = args_.versionOption_;
+    try {
+        // reset help option
+        if (action_ == Action::HELP) {
+            args_.helpOption_ = NULL;
+        }
+        // reset version option
+        if (action_ == Action::VERSION) {
+            args_.versionOption_ = NULL;
+        }
+        defaults_ = std::vector<std::string>(defaults__);
+        nargs_ = nargs__;
+        action_ = action__;
+        typeConstructor_();
+        defaultsConstructor_();
+    }
+    catch (const ArgumentException&) {
+        // a rejected definition has no effect
+        action_ = saveAction;
+        nargs_ = saveNargs;
+        type_ = saveType;
+        defaults_ = saveDefaults;
+        args_.helpOption_ = saveHelpOption;
+        args_.versionOption_ = saveVersionOption;
+        defaultsConstructor_();
+        throw;
+    }
+}
+
 void Argument::typeConstructor_() {
     if (isPositionnalArgument_()) {
         if (nargs_ == 1 && action_ == Action::NONE) {
-- 
2.43.0


From 4438a631931a85fbf90c70b908155a7777d1c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 13/19] fix: a list argument without value gave one bogus
 element to its vector dest

---
 include/blet/args/argument.h | 25 +++++++++++++++++++++----
 single_include/blet/args.h   | 25 +++++++++++++++++++++----
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index b0cd892..ab54d2d 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -643,6 +643,23 @@ class Argument : public ArgumentElement {
         }
     }
 
+    bool isList_() const {
+        switch (type_) {
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+                return true;
+            default:
+                return false;
+        }
+    }
+
     virtual void toDest_() {
         /* do nothing */
     }
@@ -747,7 +764,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isList_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
@@ -769,7 +786,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isList_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -820,7 +837,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (!isList_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -846,7 +863,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (!isList_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 34941ac..88224f1 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1194,6 +1194,23 @@ class Argument : public ArgumentElement {
         }
     }
 
+    inline bool isList_() const {
+        switch (type_) {
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+                return true;
+            default:
+                return false;
+        }
+    }
+
     inline virtual void toDest_() {
         /* do nothing */
     }
@@ -1298,7 +1315,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isList_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
@@ -1320,7 +1337,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isList_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -1371,7 +1388,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (!isList_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -1397,7 +1414,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (!isList_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
-- 
2.43.0


From 147f1b2c833323b7f4a20bef33bad1e8034eab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 14/19] fix: dangling pointers in a vector<const char*> dest

getString() of an element returned a temporary copy whose c_str() was stored.
---
 include/blet/args/argument.h | 4 ++--
 single_include/blet/args.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index ab54d2d..96705c6 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -253,9 +253,9 @@ class ArgumentElement : public std::vector<ArgumentElement> {
     /**
      * @brief Get the string argument
      *
-     * @return std::string
+     * @return const std::string&
      */
-    std::string getString() const {
+    const std::string& getString() const {
         return argument_;
     }
 
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 88224f1..20a5daa 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -804,9 +804,9 @@ class ArgumentElement : public std::vector<ArgumentElement> {
     /**
      * @brief Get the string argument
      *
-     * @return std::string
+     * @return const std::string&
      */
-    inline std::string getString() const {
+    inline const std::string& getString() const {
         return argument_;
     }
 
-- 
2.43.0


From 58c4bc9610c5d305b31564023a71a8f37840f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 15/19] fix: a copy of an Argument deleted the validator of the
 original

---
 single_include/blet/args.h | 2 +-
 src/argument.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 20a5daa..a3589ce 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3371,7 +3371,7 @@ inline Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false),
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
diff --git a/src/argument.cpp b/src/argument.cpp
index c263805..1dd7fd7 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -132,7 +132,7 @@ Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false),
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
-- 
2.43.0


From 50a8ddf4d48bad24c68d5bee924a74e3cf0401b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 16/19] fix: a program name "--" was taken for the end of
 options

---
 include/blet/args/utils.h  | 2 +-
 single_include/blet/args.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blet/args/utils.h b/include/blet/args/utils.h
index ff4fda2..3d57969 100644
--- a/include/blet/args/utils.h
+++ b/include/blet/args/utils.h
@@ -89,7 +89,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index a3589ce..603915e 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2554,7 +2554,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
-- 
2.43.0


From bb9cad0ac96f8860614cdfb56af935b0f23796cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 17/19] fix: a rejected definition call must also keep the
 parsed values

---
 single_include/blet/args.h | 17 ++++++++---------
 src/argument.cpp           | 17 ++++++++---------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 603915e..b39c93e 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3652,10 +3652,7 @@ inline std::string Argument::metavarDefault_() {
 inline void Argument::define_(enum Action::eAction action__, std::size_t nargs__,
                               const std::vector<std::string>& defaults__) {
     // save the current definition
-    const enum Action::eAction saveAction = action_;
-    const std::size_t saveNargs = nargs_;
-    const enum Type saveType = type_;
-    const std::vector<std::string> saveDefaults = defaults_;
+    Argument save(*this);
     Argument* const saveHelpOption = args_.helpOption_;
     Argument* const saveVersionOption = args_.versionOption_;
     try {
@@ -3675,13 +3672,15 @@ inline void Argument::define_(enum Action::eAction action__, std::size_t nargs__
     }
     catch (const ArgumentException&) {
         // a rejected definition has no effect
-        action_ = saveAction;
-        nargs_ = saveNargs;
-        type_ = saveType;
-        defaults_ = saveDefaults;
+        swap(save);
+        argument_ = save.argument_;
+        default_ = save.default_;
+        action_ = save.action_;
+        nargs_ = save.nargs_;
+        type_ = save.type_;
+        defaults_ = save.defaults_;
         args_.helpOption_ = saveHelpOption;
         args_.versionOption_ = saveVersionOption;
-        defaultsConstructor_();
         throw;
     }
 }
diff --git a/src/argument.cpp b/src/argument.cpp
index 1dd7fd7..32d956a 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -413,10 +413,7 @@ std::string Argument::metavarDefault_() {
 void Argument::define_(enum Action::eAction action__, std::size_t nargs__,
                        const std::vector<std::string>& defaults__) {
     // save the current definition
-    const enum Action::eAction saveAction = action_;
-    const std::size_t saveNargs = nargs_;
-    const enum Type saveType = type_;
-    const std::vector<std::string> saveDefaults = defaults_;
+    Argument save(*this);
     Argument* const saveHelpOption = args_.helpOption_;
     Argument* const saveVersionOption = args_.versionOption_;
     try {
@@ -436,13 +433,15 @@ void Argument::define_(enum Action::eAction action__, std::size_t nargs__,
     }
     catch (const ArgumentException&) {
         // a rejected definition has no effect
-        action_ = saveAction;
-        nargs_ = saveNargs;
-        type_ = saveType;
-        defaults_ = saveDefaults;
+        swap(save);
+        argument_ = save.argument_;
+        default_ = save.default_;
+        action_ = save.action_;
+        nargs_ = save.nargs_;
+        type_ = save.type_;
+        defaults_ = save.defaults_;
         args_.helpOption_ = saveHelpOption;
         args_.versionOption_ = saveVersionOption;
-        defaultsConstructor_();
         throw;
     }
 }
-- 
2.43.0


From b0349c6b748767a8ae931a41cd20c0fda65239e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:58 +0000
Subject: [PATCH 18/19] fix: a number of values near the limit of size_t must
 not wrap around

"-n" with nargs(-1) was accepted without values and the same token was
parsed again for ever: compare with what is left instead of adding.
---
 single_include/blet/args.h | 10 +++++-----
 src/args.cpp               | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index b39c93e..156a54a 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3015,7 +3015,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 break;
             case Argument::NUMBER_OPTION:
                 argument->clear();
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 for (unsigned int i = *index + 1; i <= (*index + argument->nargs_); ++i) {
@@ -3066,7 +3066,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 if (argument->isExist_ == false) {
                     argument->clear();
                 }
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
@@ -3086,7 +3086,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                     if (endOfInfiniteArgument_(argv[i])) {
                         break;
                     }
-                    if (i + argument->nargs_ > static_cast<unsigned int>(maxIndex)) {
+                    if (argument->nargs_ > static_cast<std::size_t>(maxIndex - i)) {
                         throw ParseArgumentException(option, "bad number of argument");
                     }
                     ArgumentElement newNumberArgument;
@@ -3170,7 +3170,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             argument.argument_ = argv[*index];
         }
         else if (argument.type_ == Argument::NUMBER_POSITIONAL_ARGUMENT) {
-            if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
+            if (argument.nargs_ > static_cast<std::size_t>(argc - *index)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
             argument.clear();
@@ -3198,7 +3198,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
                     break;
                 }
-                if (i + argument.nargs_ > static_cast<unsigned int>(argc)) {
+                if (argument.nargs_ > static_cast<std::size_t>(argc - i)) {
                     throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
diff --git a/src/args.cpp b/src/args.cpp
index 0793f64..11b294c 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -446,7 +446,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 break;
             case Argument::NUMBER_OPTION:
                 argument->clear();
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 for (unsigned int i = *index + 1; i <= (*index + argument->nargs_); ++i) {
@@ -497,7 +497,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 if (argument->isExist_ == false) {
                     argument->clear();
                 }
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
@@ -517,7 +517,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                     if (endOfInfiniteArgument_(argv[i])) {
                         break;
                     }
-                    if (i + argument->nargs_ > static_cast<unsigned int>(maxIndex)) {
+                    if (argument->nargs_ > static_cast<std::size_t>(maxIndex - i)) {
                         throw ParseArgumentException(option, "bad number of argument");
                     }
                     ArgumentElement newNumberArgument;
@@ -601,7 +601,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             argument.argument_ = argv[*index];
         }
         else if (argument.type_ == Argument::NUMBER_POSITIONAL_ARGUMENT) {
-            if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
+            if (argument.nargs_ > static_cast<std::size_t>(argc - *index)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
             argument.clear();
@@ -629,7 +629,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
                     break;
                 }
-                if (i + argument.nargs_ > static_cast<unsigned int>(argc)) {
+                if (argument.nargs_ > static_cast<std::size_t>(argc - i)) {
                     throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
-- 
2.43.0


From 29a4dfd431bb0216d5fbb9a7a0b1fcd61cd1733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:14 +0000
Subject: [PATCH 19/19] fix: handing an argument its own validator again must
 not destroy it

valid(v) followed by valid(v) deleted v, kept using it and deleted it a
second time.
---
 include/blet/args/argument.h | 2 +-
 single_include/blet/args.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 96705c6..7ea1023 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -537,7 +537,7 @@ class Argument : public ArgumentElement {
      * @return this reference
      */
     Argument& valid(IValid* pValid, bool isDeletable = true) {
-        if (valid_ != NULL && validDeletable_) {
+        if (valid_ != NULL && valid_ != pValid && validDeletable_) {
             delete valid_;
         }
         valid_ = pValid;
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 156a54a..028f825 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1088,7 +1088,7 @@ class Argument : public ArgumentElement {
      * @return this reference
      */
     inline Argument& valid(IValid* pValid, bool isDeletable = true) {
-        if (valid_ != NULL && validDeletable_) {
+        if (valid_ != NULL && valid_ != pValid && validDeletable_) {
             delete valid_;
         }
         valid_ = pValid;
-- 
2.43.0


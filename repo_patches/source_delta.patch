From 2b2f470563be407cb69ff404bc918d88bbb96163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:42 +0000
Subject: [PATCH 001/127] fix: do not enter !else after a true !ifdef/!ifndef
 branch

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index c4a8a48..a5529d6 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -441,14 +441,16 @@ class BaseParser(object):
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] != self._MacroNotDefinedValue))
+            result = tokens[1] != self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!ifndef":
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] == self._MacroNotDefinedValue))
+            result = tokens[1] == self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!else":
-- 
2.43.0


From a55777317dd0577db8322a35a6b30e8d699479e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:14 +0000
Subject: [PATCH 002/127] fix: relational and 'not in' operators bind tighter
 than AND/OR in conditionals

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index a5529d6..66b1112 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -717,9 +717,11 @@ class BaseParser(object):
             return 100
         if token == "NOT":  # not is the lowest
             return -2
-        if token == "IN" or token == "==" or token == "!=":
-            return 1
-        return 0
+        if token.startswith("!+"):  # a collapsed "NOT <operator>" binds like the operator itself
+            token = token[2:]
+        if token == "OR" or token == "AND":
+            return 0
+        return 1  # IN, equality and relational operators bind tighter than the logical ones
 
     def InActiveCode(self) -> bool:
         """Determines what the state of the conditional you are currently in.
-- 
2.43.0


From ae72a7469bc980abe5b6097c5cbe440a7814c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:23 +0000
Subject: [PATCH 003/127] fix: accept NOT after another operator and repeated
 NOT in conditionals

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 66b1112..76af1d8 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -640,6 +640,8 @@ class BaseParser(object):
         found_not = False
         for token in tokens:
             if str(token).upper() == "NOT":
+                if found_not:  # keep every NOT of a repeated NOT
+                    collapsed_tokens.append("NOT")
                 found_not = True
                 continue
             if not found_not:
@@ -673,6 +675,9 @@ class BaseParser(object):
             # If this isn't a operator ignore it
             elif not cls._IsOperator(token):
                 expression.append(token)
+            # NOT is a prefix operator: the operators on the stack are still waiting for their right operand.
+            elif token == "NOT":
+                stack.append(token)
             # If the stack is empty or contains a left parenthesis on top, push the incoming operator onto the stack.
             elif len(stack) == 0 or stack[-1] == "(":
                 stack.append(token)
-- 
2.43.0


From 48dfa51473875e8718868cba6e585e4c665265e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:34 +0000
Subject: [PATCH 004/127] fix: accept tabs as whitespace in conditional
 expressions

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 76af1d8..01d9786 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -480,9 +480,9 @@ class BaseParser(object):
     def EvaluateConditional(self, text: str) -> bool:
         """Uses a pushdown resolver."""
         text = str(text).strip()
-        if text.lower().startswith("!if "):
+        if text.lower().startswith(("!if ", "!if\t")):
             text = text[3:].strip()
-        elif text.lower().startswith("!elseif "):
+        elif text.lower().startswith(("!elseif ", "!elseif\t")):
             text = text[7:].strip()
         else:
             raise RuntimeError(f"Invalid conditional cannot be validated: {text}")
@@ -587,7 +587,7 @@ class BaseParser(object):
                     tokens.append(token)
                     token = ""
                 tokens.append(character)
-            elif character == " " and (mode == TEXT_MODE or mode == MACRO_MODE):
+            elif character in " \t" and (mode == TEXT_MODE or mode == MACRO_MODE):
                 if len(token) > 0:
                     tokens.append(token)
                     token = ""
@@ -603,7 +603,7 @@ class BaseParser(object):
             elif character not in CONDITION_CHARACTERS and mode == CONDITION_MODE:
                 if len(token) > 0:
                     tokens.append(token)
-                token = character if character != " " else ""
+                token = character if character not in " \t" else ""
                 mode = TEXT_MODE
             elif character in CONDITION_CHARACTERS and mode == TEXT_MODE:
                 if len(token) > 0:
-- 
2.43.0


From c03852f3469cf8cf190655dba2ed803fca637bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 005/127] fix: recognise a quoted string directly after a
 comparison operator

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 01d9786..b9b7477 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -603,8 +603,8 @@ class BaseParser(object):
             elif character not in CONDITION_CHARACTERS and mode == CONDITION_MODE:
                 if len(token) > 0:
                     tokens.append(token)
-                token = character if character not in " \t" else ""
-                mode = TEXT_MODE
+                token = character if character not in ' \t"' else ""
+                mode = QUOTE_MODE if character == '"' else TEXT_MODE
             elif character in CONDITION_CHARACTERS and mode == TEXT_MODE:
                 if len(token) > 0:
                     tokens.append(token)
-- 
2.43.0


From 75837fa344e9bb7395c19c60c3a2a7d19638f5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:25 +0000
Subject: [PATCH 006/127] fix: relational comparison with a computed right
 operand

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index b9b7477..d78d356 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -245,7 +245,7 @@ class BaseParser(object):
 
         # check to make sure we only have digits from here on out
         if (isinstance(value, str) and value.upper() in ["TRUE", "FALSE"]) or (
-            isinstance(value, str) and value2.upper() in ["TRUE", "FALSE"]
+            isinstance(value2, str) and value2.upper() in ["TRUE", "FALSE"]
         ):
             self.Logger.error(f"Invalid comparison: {value} {cond} {value2}")
             self.Logger.debug(f"Invalid comparison: {value} {cond} {value2}")
-- 
2.43.0


From f3c67ede7b49d57f6759c5c5e01e2dc8a7b19c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 007/127] fix: expand macro references in one pass over the
 line

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 33 +++++++++-----------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index d78d356..93575b2 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -9,6 +9,7 @@
 
 import logging
 import os
+import re
 from typing import Optional, Union
 from warnings import warn
 
@@ -381,27 +382,21 @@ class BaseParser(object):
             return " ".join(tokens)
 
         replace = len(tokens) > 1 and tokens[0].lower() in ["!if", "!elseif"]
-        # use line to avoid change by handling above
-        rep = line.count("$")
-        index = 0
-        while rep > 0:
-            start = line.find("$(", index)
-            end = line.find(")", start)
-
-            token = line[start + 2 : end]
-            replacement_token = line[start : end + 1]
+
+        # One pass over the line: a stray "$" is plain text, and a value that itself contains a reference
+        # does not take the place of a reference that follows it.
+        def expand(match: re.Match) -> str:
+            token = match.group(1)
             self.Logger.debug("Token is %s" % token)
             v = self._FindReplacementForToken(token, replace)
-            if v is not None:
-                # prevent circular variable replacement
-                if f"$({token})" in v:
-                    v = ""
-                result = result.replace(replacement_token, v, 1)
-
-            index = end + 1
-            rep = rep - 1
-
-        return result
+            if v is None:
+                return match.group(0)
+            # prevent circular variable replacement
+            if f"$({token})" in v:
+                return ""
+            return v
+
+        return re.sub(r"\$\(([^)]*)\)", expand, line)
 
     def ProcessConditional(self, text: str) -> bool:
         """Processes a conditional.
-- 
2.43.0


From 80d4cb706281f2790e7edbb545f8a7aedae030ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:50 +0000
Subject: [PATCH 008/127] fix: keep 'DEFINE' inside macro names and values of
 FDF and INF files

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 5 +++--
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 90075fa..15da2c6 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -8,6 +8,7 @@
 """Code to help parse EDK2 Fdf files."""
 
 import os
+import re
 
 from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser
 
@@ -129,14 +130,14 @@ class FdfParser(HashFileParser):
 
             if InDefinesSection:
                 if sline.count("=") == 1:
-                    tokens = sline.replace("DEFINE", "").split("=", 1)
+                    tokens = re.sub(r"^DEFINE\s+", "", sline.strip()).split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
                     self.Logger.info("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
                     continue
 
             # defining a local variable that is removed when entering a new section
             elif sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+                tokens = sline.strip().removeprefix("DEFINE").split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 6adf8e7..3f38334 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -121,7 +121,7 @@ class InfParser(HashFileParser):
             sline = self.ReplaceVariables(sline)
 
             if sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+                tokens = sline.strip().removeprefix("DEFINE").split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
@@ -255,7 +255,7 @@ class InfParser(HashFileParser):
                 continue
 
             if line.strip().startswith("DEFINE"):
-                tokens = line.strip().replace("DEFINE", "").split("=", 1)
+                tokens = line.strip().removeprefix("DEFINE").split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
-- 
2.43.0


From a28359e735b0119a8a3a63d413a21a1e359085dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:58 +0000
Subject: [PATCH 009/127] fix: FDF macros can be used in the rest of the
 [Defines] section

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 15da2c6..b135b41 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -132,6 +132,8 @@ class FdfParser(HashFileParser):
                 if sline.count("=") == 1:
                     tokens = re.sub(r"^DEFINE\s+", "", sline.strip()).split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
+                    # later lines of the section can already use the macro
+                    self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                     self.Logger.info("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
                     continue
 
-- 
2.43.0


From 64d701483cf1682f08da0e382ad635993500d84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:08 +0000
Subject: [PATCH 010/127] fix: resolve macros in INF DEFINE values for the
 scoped dictionaries too

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 3f38334..5b33f7c 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -254,14 +254,14 @@ class InfParser(HashFileParser):
             if line.strip().startswith("#"):
                 continue
 
+            line = self.ReplaceVariables(line)
+
             if line.strip().startswith("DEFINE"):
                 tokens = line.strip().removeprefix("DEFINE").split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
 
-            line = self.ReplaceVariables(line)
-
             match = self.SECTION_LIBRARY.findall(line)
             if match:
                 current_section = "LibraryClasses"
-- 
2.43.0


From 4ae31eaf09cf7897f9ece0024bdeecaf67ec4232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:17 +0000
Subject: [PATCH 011/127] fix: parse FDF files with long runs of comments or
 inactive lines

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 32 ++++++++++-----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index b135b41..b5c1367 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -45,27 +45,27 @@ class FdfParser(HashFileParser):
         Performs manipulation on the line like replacing variables,
         processing conditionals, etc.
         """
-        if len(self.Lines) == 0:
-            return None
+        while len(self.Lines) > 0:
+            line = self.Lines.pop()
+            self.CurrentLine += 1
+            sline = self.StripComment(line)
 
-        line = self.Lines.pop()
-        self.CurrentLine += 1
-        sline = self.StripComment(line)
+            if sline is None or len(sline) < 1:
+                continue
 
-        if sline is None or len(sline) < 1:
-            return self.GetNextLine()
+            sline = self.ReplaceVariables(sline)
+            if self.ProcessConditional(sline):
+                # was a conditional so skip
+                continue
+            if not self.InActiveCode():
+                continue
 
-        sline = self.ReplaceVariables(sline)
-        if self.ProcessConditional(sline):
-            # was a conditional so skip
-            return self.GetNextLine()
-        if not self.InActiveCode():
-            return self.GetNextLine()
+            self._BracketCount += sline.count("{")
+            self._BracketCount -= sline.count("}")
 
-        self._BracketCount += sline.count("{")
-        self._BracketCount -= sline.count("}")
+            return sline
 
-        return sline
+        return None
 
     def InsertLinesFromFile(self, file_path: str) -> None:
         """Adds additional lines to the Lines Attribute from the provided file."""
-- 
2.43.0


From 439ee23e984fb51bf8cea45fb96e98aaf058564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:27 +0000
Subject: [PATCH 012/127] fix: list an FDF [FD.] section that shares its name
 with an FV

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index b5c1367..bd3aefa 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -146,7 +146,7 @@ class FdfParser(HashFileParser):
 
             elif InFdSection:
                 for section in self.CurrentSection:
-                    if section not in self.FVs:
+                    if section not in self.FDs:
                         self.FDs[section] = {"Dict": {}}
                         # TODO finish the FD section
                 continue
@@ -223,7 +223,7 @@ class FdfParser(HashFileParser):
             elif sline.strip().lower().startswith("[capsule."):
                 InCapsuleSection = True
 
-            elif sline.strip().lower().startswith("[fmpPayload."):
+            elif sline.strip().lower().startswith("[fmppayload."):
                 InFmpPayloadSection = True
 
             elif sline.strip().lower().startswith("[rule."):
-- 
2.43.0


From 744c9bfee80745bc9cb761fc438840bae0c20826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 013/127] fix: keep the other library instances of a scope when
 one is listed again

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index ff6102d..c21aaaa 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -354,10 +354,9 @@ class DscParser(HashFileParser):
                 value = instance.strip()
                 if os.path.isabs(value):
                     value = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(value)
-                if key in self.ScopedLibraryDict and value not in self.ScopedLibraryDict[key]:
-                    self.ScopedLibraryDict[key].insert(0, value)
-                else:
-                    self.ScopedLibraryDict[key] = [value]
+                # The last definition comes first, but the other instances stay available
+                others = [other for other in self.ScopedLibraryDict.get(key, []) if other != value]
+                self.ScopedLibraryDict[key] = [value] + others
 
         return
 
-- 
2.43.0


From 6f3954d11c1732c97ab7f7a5e5477013cbd4d41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 014/127] fix: do not register PCDs found on inactive DSC lines

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index c21aaaa..f5d4a7f 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -197,7 +197,8 @@ class DscParser(HashFileParser):
             return ("", [])
 
         # this line needs to be here to resolve any symbols inside the !include lines, if any
-        self.RegisterPcds(line_stripped)
+        if self.InActiveCode():
+            self.RegisterPcds(line_stripped)
         line_stripped = self.ReplacePcds(line_stripped)
         line_resolved = self.ReplaceVariables(line_stripped)
         if self.ProcessConditional(line_resolved):
@@ -484,6 +485,7 @@ class DscParser(HashFileParser):
         file_lines = f.readlines()
         self.__ProcessDefines(file_lines)
         self.PcdValueDict = {}
+        self.Pcds = []
         # reset the parser state before processing more
         self.ResetParserState()
         self._PushTargetFile(sp)
-- 
2.43.0


From 0e92d11ff85ed364b7ce5994952de93e7511b94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 015/127] fix: replace whole PCD names by their value in !if
 and !elseif

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index f5d4a7f..9e15664 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -63,10 +63,16 @@ class DscParser(HashFileParser):
 
     def ReplacePcds(self, line: str) -> str:
         """Attempts to replace a token if it is a PCD token."""
-        if line.startswith("!if"):
-            for token in re.split(r"[^\w\.]", line):
-                if token in self.PcdValueDict:
-                    line = line.replace(token, self.PcdValueDict[token])
+        if line.lower().startswith(("!if", "!elseif")):
+
+            def value(match: re.Match) -> str:
+                token = match.group(0)
+                if token not in self.PcdValueDict:
+                    return token
+                # the value can be followed by the datum type and the maximum size
+                return self.PcdValueDict[token].split("|")[0].strip()
+
+            line = re.sub(r"[\w\.]+", value, line)
         return line
 
     def __ParseLine(self, Line: str, file_name: Optional[str] = None, lineno: int = None) -> tuple:
-- 
2.43.0


From 06f1929d8caaaa017829c30564d84730c0934721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 016/127] fix: resolve DSC includes that follow an !include
 against the including file

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 9e15664..cb1068a 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -290,6 +290,7 @@ class DscParser(HashFileParser):
             return
         for index in range(len(lines)):
             # we try here so that we can catch exceptions from individual lines
+            target_file = self.TargetFilePath
             try:
                 raw_line = lines[index]
                 (line, add, new_file) = self.__ParseLine(raw_line, file_name=file_name, lineno=index + 1)
@@ -304,6 +305,9 @@ class DscParser(HashFileParser):
                     # otherwise, let the user know that we failed in the DSC
                     self.Logger.warning(f"DSC Parser (No-Fail Mode): {raw_line}")
                     self.Logger.warning(e)
+            finally:
+                # lines after an !include belong to the including file again
+                self.TargetFilePath = target_file
 
     def __ProcessDefines(self, lines: list) -> None:
         """Goes through a file once to look for [Define] sections.
@@ -318,6 +322,7 @@ class DscParser(HashFileParser):
         for raw_line in lines:
             # we want to catch exceptions here since we are doing includes as we potentially might blow up
             # we want to catch on a line by line basis
+            target_file = self.TargetFilePath
             try:
                 (line, add) = self.__ParseDefineLine(raw_line)
                 self.__ProcessDefines(add)
@@ -326,6 +331,9 @@ class DscParser(HashFileParser):
                 # otherwise, raise the exception and act normally
                 if not self._no_fail_mode:
                     raise
+            finally:
+                # lines after an !include belong to the including file again
+                self.TargetFilePath = target_file
 
     def _parse_libraries(self) -> None:
         """Builds a lookup table of all possible library instances depending on scope.
-- 
2.43.0


From 6bbc3ff7a165b4f6bcd59cae95560b8652dcf63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:02 +0000
Subject: [PATCH 017/127] fix: cut the '|' fields off scoped INF sources and
 libraries

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 5b33f7c..3fa16a2 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -283,16 +283,17 @@ class InfParser(HashFileParser):
             if current_section == "LibraryClasses":
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.lower()
+                    lib = line.partition("|")[0].split()[0].strip()
                     if arch in self.ScopedLibraryDict:
-                        self.ScopedLibraryDict[arch].append(line.split()[0].strip())
+                        self.ScopedLibraryDict[arch].append(lib)
                     else:
-                        self.ScopedLibraryDict[arch] = [line.split()[0].strip()]
+                        self.ScopedLibraryDict[arch] = [lib]
 
             # Handle lines when we are in a source section
             if current_section == "Sources":
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.lower()
-                    src = line.split()[0].strip().rstrip("|")
+                    src = line.partition("|")[0].split()[0].strip()
                     if arch in self.ScopedSourceDict:
                         self.ScopedSourceDict[arch].append(src)
                     else:
-- 
2.43.0


From 77339728f775f9a830f9b4316fbb27073857acaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 018/127] fix: refuse GUID texts with trailing characters

---
 edk2toollib/uefi/edk2/parsers/guid_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/guid_parser.py b/edk2toollib/uefi/edk2/parsers/guid_parser.py
index 6e05729..898df68 100644
--- a/edk2toollib/uefi/edk2/parsers/guid_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/guid_parser.py
@@ -54,8 +54,9 @@ class GuidParser:
           (bool): True if in C format. Otherwise False
 
         """
-        guidstring = guidstring.strip()
-        return cls.GuidCFormatRegEx.match(guidstring)
+        # a C initializer may be followed by its ';'
+        guidstring = guidstring.strip().rstrip("; ")
+        return cls.GuidCFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def is_guid_in_reg_format(cls: "GuidParser", guidstring: str) -> bool:
@@ -68,7 +69,7 @@ class GuidParser:
           (bool): True if in Registry format. Otherwise False
         """
         guidstring = guidstring.strip().strip("} {")
-        return cls.GuidRegFormatRegEx.match(guidstring)
+        return cls.GuidRegFormatRegEx.fullmatch(guidstring)
 
     @classmethod
     def reg_guid_from_c_format(cls: "GuidParser", guidstring: str) -> str:
-- 
2.43.0


From b537ae530e02351333362b27596c512c63532ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 019/127] fix: keep exactly the outermost roots when looking
 for containing modules

---
 edk2toollib/uefi/edk2/path_utilities.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index c31c385..b536c53 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -344,16 +344,11 @@ class Edk2Path(object):
         all_root_paths = self._package_path_list + [self._workspace_path]
 
         # For each root path, find the maximum allowed root in its hierarchy.
-        maximum_root_paths = all_root_paths
-        for root_path in maximum_root_paths:
-            for other_root_path in maximum_root_paths[:]:
-                if root_path == other_root_path:
-                    continue
-                if root_path.is_relative_to(other_root_path):
-                    if len(root_path.parts) > len(other_root_path.parts):
-                        maximum_root_paths.remove(root_path)
-                    else:
-                        maximum_root_paths.remove(other_root_path)
+        maximum_root_paths = [
+            root_path
+            for root_path in all_root_paths
+            if not any(root_path != other and root_path.is_relative_to(other) for other in all_root_paths)
+        ]
 
         # Verify the file path is within a valid workspace or package path
         # directory.
-- 
2.43.0


From 9570cdc3e38a366d7f2b42a7c4ef79ea96ed99f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 020/127] fix: gitignore patterns '**', '!' and '//' raised
 IndexError

---
 edk2toollib/gitignore_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 513e407..85a0ffa 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -110,10 +110,13 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     pattern = re.sub(r"([^/])\*{2,}", r"\1*", pattern)
     pattern = re.sub(r"\*{2,}([^/])", r"*\1", pattern)
 
-    # Special-casing '/', which doesn't match any files or directories
-    if pattern.rstrip() == "/":
+    # Special-casing '/' (and a lone '!'), which doesn't match any files or directories
+    if pattern.rstrip().strip("/") == "":
         return
 
+    # A pattern that is only a double asterisk is the same as a single one
+    pattern = re.sub(r"^(/?)\*\*(/?)\s*$", r"\1*\2", pattern)
+
     directory_only = pattern[-1] == "/"
     # A slash is a sign that we're tied to the base_path of our rule
     # set.
-- 
2.43.0


From 9cd540a1ac49621d162e1946642b36efe7b9f72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 021/127] fix: RunCmd without capture blocked on commands with
 much output

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 6d72ca0..9c87de9 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -195,7 +195,7 @@ def RunCmd(
     logging.log(logging_level, "------------------------------------------------")
     c = subprocess.Popen(
         cmd,
-        stdout=subprocess.PIPE,
+        stdout=subprocess.PIPE if capture else subprocess.DEVNULL,  # nobody would empty an uncaptured pipe
         stderr=subprocess.STDOUT,
         cwd=workingdir,
         shell=True,
-- 
2.43.0


From 0339414119fb4df5bdc7f3cfb24e184229cc2f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 022/127] fix: RunCmd hung when output could not be decoded and
 more output followed

---
 edk2toollib/utility_functions.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 9c87de9..d3a29a2 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -70,20 +70,23 @@ def reader(filepath, outstream, stream, logging_level=logging.INFO, encodingErro
     if filepath:
         f = open(filepath, "w")
 
-    while True:
-        s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
-        if not s:
-            break
+    try:
+        while True:
+            s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
+            if not s:
+                break
+            if f is not None:
+                # write to file if caller provided file
+                f.write(s)
+            if outstream is not None:
+                # write to stream object if caller provided object
+                outstream.write(s)
+            logging.log(logging_level, s.rstrip())
+    finally:
+        # also on an error, as the command would wait forever for somebody to read the rest of its output
+        stream.close()
         if f is not None:
-            # write to file if caller provided file
-            f.write(s)
-        if outstream is not None:
-            # write to stream object if caller provided object
-            outstream.write(s)
-        logging.log(logging_level, s.rstrip())
-    stream.close()
-    if f is not None:
-        f.close()
+            f.close()
 
 
 def GetHostInfo() -> namedtuple:
-- 
2.43.0


From 9aaec775b1d1d8f1a848bc54b9157696ee6a5e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 023/127] fix: RunPythonScript with quoted names and
 directories with spaces

---
 edk2toollib/utility_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index d3a29a2..ef380c3 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -259,10 +259,8 @@ def RunPythonScript(
         (int): returncode of called cmd
     """
     # locate python file on path
-    pythonfile.strip("\"'")
-    if " " in pythonfile:
-        pythonfile = '"' + pythonfile + '"'
-    params.strip()
+    pythonfile = pythonfile.strip("\"'")
+    params = params.strip()
     logging.debug("RunPythonScript: {0} {1}".format(pythonfile, params))
     if os.path.isabs(pythonfile):
         logging.debug("Python Script was given as absolute path: %s" % pythonfile)
@@ -277,6 +275,8 @@ def RunPythonScript(
                 pythonfile = os.path.join(a, pythonfile)
                 logging.debug("Python Script was found on the path: %s" % pythonfile)
                 break
+    if " " in pythonfile:
+        pythonfile = '"' + pythonfile + '"'
     params = pythonfile + " " + params
     return RunCmd(
         sys.executable,
-- 
2.43.0


From b0b691306a0b0d94efea9439f0777a16c4dc0d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:52 +0000
Subject: [PATCH 024/127] fix: keep the ASCII column of hexdump aligned without
 offset or separator

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index ef380c3..39c1c67 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -546,7 +546,7 @@ def hexdump(byte_list: bytearray, offset_start: int = 0, outfs: BytesIO = sys.st
             while index % 16 != 15:
                 outfs.write("     ")
                 if index % 16 == 7:  # account for the - symbol in the hex dump
-                    if include_offset:
+                    if include_hex_sep:
                         outfs.write("  ")
                 index += 1
             # print the ascii partial line
-- 
2.43.0


From 42d0a6559752b08e2b64756004e0e9531f5e478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 025/127] fix: RemoveTree raised TypeError when a directory
 could not be opened

---
 edk2toollib/utility_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 39c1c67..f73748b 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -454,6 +454,9 @@ def RemoveTree(dir_path: str, ignore_errors: bool = False) -> None:
 
     def _remove_readonly(func: Callable, path: str, _: any) -> None:
         """Private function to attempt to change permissions on file/folder being deleted."""
+        # Only removals can be repeated with the path alone; other failures (e.g. to open a directory) are retried below.
+        if func not in (os.unlink, os.remove, os.rmdir):
+            raise
         os.chmod(path, stat.S_IWRITE)
         func(path)
 
-- 
2.43.0


From db8933fb9422828aeb1b338b0a05eae9cbf91c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 026/127] fix: RemoveTree changed the mode of the target of a
 link it failed to remove

---
 edk2toollib/utility_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index f73748b..ff281a3 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -457,7 +457,9 @@ def RemoveTree(dir_path: str, ignore_errors: bool = False) -> None:
         # Only removals can be repeated with the path alone; other failures (e.g. to open a directory) are retried below.
         if func not in (os.unlink, os.remove, os.rmdir):
             raise
-        os.chmod(path, stat.S_IWRITE)
+        # chmod would change the target of a link, which is not part of the tree
+        if not os.path.islink(path):
+            os.chmod(path, stat.S_IWRITE)
         func(path)
 
     for _ in range(3):  # retry up to 3 times
-- 
2.43.0


From 0002c37ced857ce6502e53e744a2c0e545962f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 027/127] fix: FindToolInWinSdk passed its product as
 architecture and the reverse

---
 edk2toollib/windows/locate_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index 0e05159..e570a08 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -384,7 +384,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
     variables = ["WindowsSdkDir", "WindowsSDKVersion"]
     # get the value with QueryVcVariables
     try:
-        results = QueryVcVariables(variables, product, arch)
+        results = QueryVcVariables(variables, arch=arch, product=product)
         # Get the variables we care about
         sdk_dir = results["WindowsSdkDir"]
         sdk_ver = results["WindowsSDKVersion"]
-- 
2.43.0


From b2071af9bfedcb685b77c8311aeda349991ac717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 028/127] fix: FindToolInWinSdk result depended on the order in
 which candidates were found

---
 edk2toollib/windows/locate_tools.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index e570a08..7b3b0dc 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -390,7 +390,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
         sdk_ver = results["WindowsSDKVersion"]
     except ValueError:
         sdk_dir = os.path.join(os.getenv("ProgramFiles(x86)"), "Windows Kits", "10", "bin")
-        sdk_ver = "0.0.0.0"
+        sdk_ver = None
     sdk_dir = os.path.realpath(sdk_dir)
     search_pattern = os.path.join(sdk_dir, "**", tool)
 
@@ -399,6 +399,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
     windows_ver_regex = re.compile(r"\d+\.\d+\.\d+\.\d+")
     top_version_so_far = -1
     top_match = None
+    top_is_current = False
     # Look at in match in the tree
     for match in glob.iglob(search_pattern, recursive=True):
         match_file = match[match_offset:]  # strip off the root
@@ -413,10 +414,15 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
             is_current_sdk_version = _CompareWindowVersions(version, sdk_ver) == 0
             if _CompareWindowVersions(version, top_ver_match) > 0 or is_current_sdk_version:
                 top_ver_match = version
-        # if we have a highest version or one that matches our current from environment variables?
+            if is_current_sdk_version:
+                break
+        # a match of our current version from environment variables beats any other, whatever order they are found in
         is_current_sdk_version = _CompareWindowVersions(top_ver_match, sdk_ver) == 0
+        if top_is_current and not is_current_sdk_version:
+            continue
         if _CompareWindowVersions(top_ver_match, top_version_so_far) > 0 or is_current_sdk_version:
             top_version_so_far = top_ver_match
+            top_is_current = is_current_sdk_version
             top_match = match
     if top_match is None:
         logging.critical("We weren't able to find {}".format(tool))
-- 
2.43.0


From db4c5e2ab98131fae9697ba1cda111e0b2db4bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 029/127] fix: keep target.txt lines whose value contains '='

---
 edk2toollib/uefi/edk2/parsers/targettxt_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
index 607496d..46091a8 100644
--- a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
@@ -48,7 +48,7 @@ class TargetTxtParser(HashFileParser):
             if sline is None or len(sline) < 1:
                 continue
 
-            if sline.count("=") == 1:
+            if "=" in sline:
                 tokens = sline.split("=", 1)
                 self.Dict[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.debug("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
-- 
2.43.0


From 0ce390e9c0f1772a01ae074e4ada585a9abe3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:40 +0000
Subject: [PATCH 030/127] fix: refuse override lines without ':' and keep paths
 with one

---
 edk2toollib/uefi/edk2/parsers/override_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/override_parser.py b/edk2toollib/uefi/edk2/parsers/override_parser.py
index 3202b71..e24d073 100644
--- a/edk2toollib/uefi/edk2/parsers/override_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/override_parser.py
@@ -138,8 +138,8 @@ class OverrideParser(object):
         # Split the override string into pieces.
         # First the #OVERRIDE, which is separated by a :.
         # Then everything else by |.
-        line_parts = line_contents.split(":")
-        line_parts = [part.strip() for part in line_parts[1].split("|")]
+        line_parts = line_contents.partition(":")
+        line_parts = [part.strip() for part in line_parts[2].split("|")]
 
         # Step 1: Check version and number of blocks in this entry
         try:
-- 
2.43.0


From 2eff5eedb68fba555465f47732fb33bd783b11ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 031/127] fix: read build report PCDs whose value contains ':'
 or '='

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index f138bd3..41fd0a4 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -138,7 +138,7 @@ class ModuleSummary(object):
                             tokenspace = line
 
                         # this is the main line of the PCD value
-                        elif line.count("=") == 1 and line.count(":") == 1:
+                        elif "=" in line and line.partition("=")[0].count(":") == 1:
                             while (line.count('"') % 2) != 0:
                                 i += 1
                                 line += " " + self._RawContent[i].rstrip()
@@ -154,7 +154,7 @@ class ModuleSummary(object):
                             self.PCDs[tokenspace + "." + token2] = token.strip()
 
                         # this is the secondary lines of PCD values showing Defaults
-                        elif line.count(":") == 0 and line.count("=") == 1:
+                        elif "=" in line and ":" not in line.partition("=")[0]:
                             while (line.count('"') % 2) != 0:
                                 i += 1
                                 line += self._RawContent[i].rstrip()
-- 
2.43.0


From b31993137c8c837de8f86b3909a71aeeeaffd908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:12 +0000
Subject: [PATCH 032/127] fix: read the last line of each build report region

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index 41fd0a4..68cddc0 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -400,7 +400,7 @@ class BuildReport(object):
                 self._ReportContents[lineNumber]
                 == "<======================================================================================================================>"
             ):  # noqa: E501
-                return lineNumber - 1
+                return lineNumber
             lineNumber += 1
 
         logging.debug("Failed to find a End Region after lineNumber: %d" % number)
-- 
2.43.0


From 5d0cd51f44a19296dfcaf5e2e096548a0ebcc66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 033/127] fix: look up components of a build report with a
 module outside of all paths

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index 68cddc0..f5a9860 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -328,7 +328,7 @@ class BuildReport(object):
         """
         for k, v in self.Modules.items():
             if os.path.isabs(v.InfPath):
-                v.InfPath = self.PathConverter.GetEdk2RelativePathFromAbsolutePath(v.InfPath)
+                v.InfPath = self.PathConverter.GetEdk2RelativePathFromAbsolutePath(v.InfPath) or v.InfPath
             if v.InfPath.lower() == InfPath.lower():
                 logging.debug("Found Module by InfPath: %s" % InfPath)
                 return v
-- 
2.43.0


From 391e292c5b6cc4151ac5a8144b8b5d528d88bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:48 +0000
Subject: [PATCH 034/127] fix: find architecture-specific libraries for
 components of the common section

---
 edk2toollib/database/tables/instanced_inf_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 4e0a81b..1ce5953 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -162,6 +162,9 @@ class InstancedInfTable(TableGenerator):
                 logging.debug(f"DSC section header unnecessarily contains MODULE_TYPE: [Components.{scope.upper()}]")
                 scope = scope.split(".")[0]
 
+            # Library scopes are lower case, but a common component has its arch as written in SUPPORTED_ARCHITECTURES
+            scope = scope.lower()
+
             # Ignore components built with an architecture that is not in TARGET_ARCH
             arch = scope.upper()
             if arch not in self.arch:
-- 
2.43.0


From 6931d29db3fedc9217a8bea69f78a0249a3e5bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:27 +0000
Subject: [PATCH 035/127] fix: link a library instance that is used for several
 library classes

---
 edk2toollib/database/tables/instanced_inf_table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 1ce5953..f2408b3 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -137,13 +137,14 @@ class InstancedInfTable(TableGenerator):
         session.add_all(rows)
         session.commit()
 
+        # An INF has one row per component, even if it is used for several library classes
         all_libraries = {
-            (library.path, library.arch, library.cls, library.component): library
+            (library.path, library.arch, library.component): library
             for library in session.query(InstancedInf).filter_by(env=env_id).all()
         }
         # Link all instanced INF rows to their used libraries
         for row, inf in zip(rows, filtered_inf_entries):
-            libraries = [all_libraries.get((path, row.arch, lib, row.component)) for lib, path in inf["LIBRARIES_USED"]]
+            libraries = [all_libraries.get((path, row.arch, row.component)) for _, path in inf["LIBRARIES_USED"]]
             row.libraries.extend([lib for lib in libraries if lib is not None])
 
         session.commit()
-- 
2.43.0


From 6dabeb54af85539a30c205148d073c62ae256279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 036/127] fix: keep variable store reads and writes inside the
 store

---
 .../uefi/edk2/variablestore_manulipulations.py       | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index 82aaab4..522a752 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -60,10 +60,12 @@ class VariableStore(object):
             raise Exception("VarStore is invalid or cannot be processed with this helper!")
 
         # Now we're finally ready to read some variables.
+        # The size of the store includes its header.
         self.variables = []
+        store_end = self.rom_file.tell() + self.var_store_header.Size
         self.rom_file.seek(self.var_store_header.StructSize, os.SEEK_CUR)
         try:
-            while True:
+            while self.rom_file.tell() + self.get_new_var_class().StructSize <= store_end:
                 new_var = self.get_new_var_class().load_from_file(self.rom_file)
 
                 # Seek past the current variable in the store.
@@ -108,10 +110,10 @@ class VariableStore(object):
         # Add the terminating var header.
         dummy_var = self.get_new_var_class()
         var_size += dummy_var.StructSize
-        if var_size > self.var_store_header.Size:
-            raise Exception(
-                "Total variable size %d is too large to fit in VarStore %d!" % (var_size, self.var_store_header.Size)
-            )
+        # The size of the store includes its header.
+        store_space = self.var_store_header.Size - self.var_store_header.StructSize
+        if var_size > store_space:
+            raise Exception("Total variable size %d is too large to fit in VarStore %d!" % (var_size, store_space))
 
         # Now, we just have to serialize each variable in turn and write them to the mmap buffer.
         var_offset = self.store_base + self.fv_header.HeaderLength + self.var_store_header.StructSize
-- 
2.43.0


From 53f99b1f36dcd264a62950cba1da670a44b379fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 037/127] fix: keep a byte order mark character at the start of
 a variable name

---
 edk2toollib/uefi/edk2/variable_format.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 1b4ecb7..e3e365d 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -31,6 +31,9 @@ VAR_DELETED = 0xFD  # Variable is obsolete.
 VAR_HEADER_VALID_ONLY = 0x7F  # Variable header has been valid.
 VAR_ADDED = 0x3F  # Variable has been completely added.
 
+# Names have no byte order mark, so a first character that looks like one is part of the name.
+NAME_ENCODING = "utf-16-be" if sys.byteorder == "big" else "utf-16-le"
+
 
 class VariableStoreHeader(object):
     """Object representing the VARIABLE_STORE_HEADER struct.
@@ -151,7 +154,7 @@ class VariableHeader(object):
 
         # Finally, load the data.
         data_offset = self.StructSize
-        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16")
+        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode(NAME_ENCODING)
         self.Name = self.Name[:-1]  # Strip the terminating char.
         data_offset += self.NameSize
         self.Data = in_bytes[data_offset : (data_offset + self.DataSize)]
@@ -180,7 +183,7 @@ class VariableHeader(object):
             raise EOFError("No variable data!")
 
         # Finally, load the data.
-        self.Name = file.read(self.NameSize).decode("utf-16")[:-1]  # Strip the terminating char.
+        self.Name = file.read(self.NameSize).decode(NAME_ENCODING)[:-1]  # Strip the terminating char.
         self.Data = file.read(self.DataSize)
 
         file.seek(orig_seek)
@@ -206,11 +209,7 @@ class VariableHeader(object):
         """Get the name attribute."""
         # Make sure to replace the terminating char.
         # name_bytes = b"\x00".join([char for char in (self.Name + b'\x00')])
-        name_bytes = self.Name.encode("utf-16")
-
-        # Python encode will leave an "0xFFFE" on the front
-        # to declare the encoding type. UEFI does not use this.
-        name_bytes = name_bytes[2:]
+        name_bytes = self.Name.encode(NAME_ENCODING)
 
         # Python encode skips the terminating character, so let's add that.
         name_bytes += b"\x00\x00"
-- 
2.43.0


From 00bc1f460ae16aac031bdae45dc9cda6d0dc73d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:10 +0000
Subject: [PATCH 038/127] fix: read back the string of variable attributes
 without any bit

---
 edk2toollib/uefi/uefi_multi_phase.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/uefi_multi_phase.py b/edk2toollib/uefi/uefi_multi_phase.py
index 9d613ff..f092474 100644
--- a/edk2toollib/uefi/uefi_multi_phase.py
+++ b/edk2toollib/uefi/uefi_multi_phase.py
@@ -108,6 +108,10 @@ class EfiVariableAttributes(object):
         # Handle spaces
         attributes_str = attributes_str.replace(" ", "")
 
+        # No attributes are written as an empty string
+        if not attributes_str:
+            return attributes
+
         # Loop over all the attributes
         for attr in attributes_str.split(","):
             attr = attr.upper()  # convert to upper for consistency
-- 
2.43.0


From 51c3f95d41e9e2fb4ee373e1e8909272a6581447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 039/127] fix: decode variable policy entries independently of
 earlier content

---
 edk2toollib/uefi/edk2/variable_policy.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 5843a93..187164a 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -55,7 +55,7 @@ class VariableLockOnVarStatePolicy(object):
             raise ValueError("Buffer too short!")
 
         string_end = None
-        for i in range(0, len(buffer), 2):
+        for i in range(0, len(buffer) - 1, 2):
             if buffer[i] == 0 and buffer[i + 1] == 0:
                 string_end = i + 2
                 break
@@ -63,7 +63,7 @@ class VariableLockOnVarStatePolicy(object):
         if string_end is None:
             raise ValueError("String end not detected!")
 
-        self.Name = buffer[:string_end].decode("utf-16").strip("\x00")
+        self.Name = buffer[:string_end].decode("utf-16-le").strip("\x00")
 
         return buffer[string_end:]
 
@@ -227,9 +227,11 @@ class VariablePolicyEntry(object):
 
         self.Namespace = uuid.UUID(bytes_le=_namespace)
 
+        self.Name = None
         if self.OffsetToName != self.Size:
-            self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16").strip("\x00")
+            self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16-le").strip("\x00")
 
+        self.LockPolicy = None
         if self.LockPolicyType == VariablePolicyEntry.TYPE_LOCK_ON_VAR_STATE:
             self.LockPolicy = VariableLockOnVarStatePolicy()
             self.LockPolicy.decode(buffer[self._HdrStructSize : self.OffsetToName])
-- 
2.43.0


From 7752cc2e9771efc453668181499acd6817972286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 040/127] fix: decode RelativeOffset of an FTW write record as
 signed

---
 edk2toollib/uefi/edk2/ftw_working_block_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/ftw_working_block_format.py b/edk2toollib/uefi/edk2/ftw_working_block_format.py
index 0c5655d..0113015 100644
--- a/edk2toollib/uefi/edk2/ftw_working_block_format.py
+++ b/edk2toollib/uefi/edk2/ftw_working_block_format.py
@@ -201,7 +201,7 @@ class EfiFtwWriteRecord(object):
 
     def __init__(self) -> "EfiFtwWriteRecord":
         """Initializes an empty object."""
-        self.StructString = "=BBBBLQQQQ"  # spell-checker: disable-line
+        self.StructString = "=BBBBLQQQq"  # spell-checker: disable-line
         self.StatusBits = None
         self.ReservedByte1 = None
         self.ReservedByte2 = None
-- 
2.43.0


From 8bcc43ba83f871305452f24e01ae015977e2a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:14 +0000
Subject: [PATCH 041/127] fix: check the signature size when decoding signature
 lists

---
 .../uefi/authenticated_variables_structure_support.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 43a5cc0..9473f66 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -183,7 +183,7 @@ class EfiSignatureDataEfiCertX509(CommonUefiStructure):
         if fs is None:
             raise ValueError("Invalid File Steam")
 
-        if decodesize == 0:
+        if decodesize < EfiSignatureDataEfiCertX509.STATIC_STRUCT_SIZE:
             raise ValueError("Invalid Decode Size")
 
         # only populate from file stream those parts that are complete in the file stream
@@ -659,7 +659,9 @@ class EfiSignatureList(CommonUefiStructure):
         if self.signature_header_size > 0:
             self.signature_header = EfiSignatureHeader(fs, self.signature_header_size)
 
-        if ((self.signature_list_size - (fs.tell() - start)) % self.signature_size) != 0:
+        # An empty list has no signature size
+        data_size = self.signature_list_size - (fs.tell() - start)
+        if data_size != 0 and (self.signature_size == 0 or data_size % self.signature_size != 0):
             raise Exception("Invalid Sig List.  Signature Data Array is not a valid size")
 
         self.signature_data_list = []
-- 
2.43.0


From 1df059f8fbc0e5e84df036cc5a24f582feee99ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:26 +0000
Subject: [PATCH 042/127] fix: set the signature size when merging into an
 empty signature list

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 9473f66..f826606 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -835,7 +835,7 @@ class EfiSignatureList(CommonUefiStructure):
         if not FixedSizeData:
             raise Exception("Can only merge EfiSignatureLists with fixed-size data elements")
 
-        if self.signature_data_list is None:
+        if not self.signature_data_list:
             self.signature_data_list = []
             self.signature_size = esl.signature_size
 
-- 
2.43.0


From 42486630eb48499b282e4fed870cbcdf3ec80e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:36 +0000
Subject: [PATCH 043/127] fix: compute canonical signature databases without
 changing the source and find duplicate certificates

---
 ...thenticated_variables_structure_support.py | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index f826606..588290e 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1011,13 +1011,13 @@ class EfiSignatureDatabase(CommonUefiStructure):
         x509eslList = None
 
         for Esl in self.esl_list:
-            if Esl.signature_data_list is None:  # discard empty EfiSignatureLists
+            if not Esl.signature_data_list:  # discard empty EfiSignatureLists
                 continue
             if Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_SHA256_GUID:
                 if sha256esl is None:
-                    sha256esl = Esl  # initialize it
-                else:
-                    sha256esl.MergeSignatureList(Esl)
+                    # initialize it with a new list, self is not changed
+                    sha256esl = EfiSignatureList(typeguid=Esl.signature_type)
+                sha256esl.MergeSignatureList(Esl)
             elif Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_X509_GUID:
                 if x509eslList is None:
                     x509eslList = [Esl]  # initialize it
@@ -1040,14 +1040,18 @@ class EfiSignatureDatabase(CommonUefiStructure):
             duplicatesDb.esl_list.append(dupes)
 
         if x509eslList is not None:
-            x509eslList.sort(key=attrgetter("signature_data_list"))
+
+            def x509_data(esl: EfiSignatureList) -> List[bytes]:
+                return [signature.signature_data for signature in esl.signature_data_list]
+
+            x509eslList.sort(key=x509_data)
+            last = None
             for esl in x509eslList:
-                if not canonicalDb.esl_list:
-                    canonicalDb.esl_list.append(esl)
-                elif esl == canonicalDb.esl_list[-1]:
+                if last is not None and x509_data(esl) == x509_data(last):
                     duplicatesDb.esl_list.append(esl)
                 else:
                     canonicalDb.esl_list.append(esl)
+                    last = esl
 
         return (canonicalDb, duplicatesDb)
 
-- 
2.43.0


From 32654f46662d678f1351cc4d1ac1ee0d4bbffb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:21 +0000
Subject: [PATCH 044/127] fix: forget the previous payload of an authenticated
 variable

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 588290e..fc1ca1d 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1408,6 +1408,8 @@ class EfiVariableAuthentication2(CommonUefiStructure):
         end = fs.tell()
         fs.seek(start)
         self.payload_size = end - start
+        self.payload = None
+        self.sig_list_payload = None
         if self.payload_size == 0:
             logging.debug("No Payload for this EfiVariableAuthenticated2 Object")
             return
@@ -1498,7 +1500,7 @@ class EfiVariableAuthentication2Builder(object):
         # if provided with a payload, the serialized payload must be added to the Digest to be signed
         if not payload:
             logging.info("Empty payload")
-            return
+            payload = b""
 
         # convert the payload to a file stream for SetPayload
         if not hasattr(payload, "seek"):
-- 
2.43.0


From 7b21073aa82568f205b147c823c42d2ae6802fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 045/127] fix: check the length of WIN_CERTIFICATE structures
 and print PKCS1 ones

---
 edk2toollib/uefi/wincert.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 791275e..a1c5a3e 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -158,6 +158,9 @@ class WinCertPkcs1(object):
         self.hash_algorithm = uuid.UUID(bytes_le=fs.read(16))
         self.cert_data = None
 
+        if self.Hdr_dwLength < WinCertPkcs1.STATIC_STRUCT_SIZE:
+            raise ValueError("Invalid dwLength")
+
         if (end - fs.tell()) < 1:
             raise ValueError("Invalid File stream. No data for signature cert data")
 
@@ -188,7 +191,7 @@ class WinCertPkcs1(object):
         out_fs.write(f"  Hash Guid:            {str(self.hash_algorithm)}\n")
         out_fs.write("  cert_data:             \n")
         cdl = self.cert_data.tolist()
-        hexdump(cdl, out_fs=out_fs)
+        hexdump(cdl, outfs=out_fs)
 
     def Print(self, out_fs: Optional[BytesIO] = sys.stdout) -> None:
         """Prints the struct to the console."""
@@ -408,7 +411,7 @@ class WinCertUefiGuid(object):
         (dwLength, wRevision, wCertificateType, cert_type) = struct.unpack(
             self._StructFormat, buffer[0 : self._StructSize]
         )
-        if dwLength < self._StructSize:
+        if dwLength < self._StructSize or dwLength > len(buffer):
             raise ValueError
         if wRevision != WinCert.REVISION:
             raise ValueError
@@ -475,10 +478,6 @@ class WinCertUefiGuid(object):
         Args:
             in_data (obj): Data to read.
         """
-        # if the data is already set, let's subtract it from the length before adding the new data
-        if self.cert_data is not None:
-            self.Hdr_dwLength -= len(self.cert_data)
-
         # Account for back compat. Behave differently for file streams.
         if hasattr(in_data, "seek"):
             self.cert_data = in_data.read()
@@ -489,7 +488,7 @@ class WinCertUefiGuid(object):
                 f"Invalid datatype provided: {type(in_data)}, data may only be of type filestream or bytes"
             )
 
-        self.Hdr_dwLength = self.Hdr_dwLength + len(self.cert_data)
+        self.Hdr_dwLength = self._StructSize + len(self.cert_data)
 
     def PopulateFromFileStream(self, fs: BytesIO) -> bytes:
         """Un-serialized from a filestream.
-- 
2.43.0


From 809cd113b02cb30dc5b7608e84da4201eae3e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:50 +0000
Subject: [PATCH 046/127] fix: capsule and payload headers larger than their
 structure lost the rest of the header when encoded

---
 edk2toollib/uefi/edk2/fmp_payload_header.py | 10 ++++++++--
 edk2toollib/uefi/uefi_capsule_header.py     | 12 ++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/fmp_payload_header.py b/edk2toollib/uefi/edk2/fmp_payload_header.py
index c384857..5dae288 100644
--- a/edk2toollib/uefi/edk2/fmp_payload_header.py
+++ b/edk2toollib/uefi/edk2/fmp_payload_header.py
@@ -48,6 +48,7 @@ class FmpPayloadHeaderClass(object):
         self.HeaderSize = self._StructSize
         self.FwVersion = 0x00000000
         self.LowestSupportedVersion = 0x00000000
+        self.ExtendedHeader = b""
         self.Payload = b""
 
     def Encode(self) -> bytes:
@@ -59,7 +60,11 @@ class FmpPayloadHeaderClass(object):
         FmpPayloadHeader = struct.pack(
             self._StructFormat, self.Signature, self.HeaderSize, self.FwVersion, self.LowestSupportedVersion
         )
-        return FmpPayloadHeader + self.Payload
+        # HeaderSize may cover more than this structure.
+        ExtendedHeaderSize = self.HeaderSize - self._StructSize
+        ExtendedHeader = self.ExtendedHeader[:ExtendedHeaderSize].ljust(ExtendedHeaderSize, b"\x00")
+
+        return FmpPayloadHeader + ExtendedHeader + self.Payload
 
     def Decode(self, Buffer: bytes) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -82,12 +87,13 @@ class FmpPayloadHeaderClass(object):
         )
         if Signature != self._FMP_PAYLOAD_HEADER_SIGNATURE:
             raise ValueError
-        if HeaderSize < self._StructSize:
+        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
             raise ValueError
         self.Signature = Signature
         self.HeaderSize = HeaderSize
         self.FwVersion = FwVersion
         self.LowestSupportedVersion = LowestSupportedVersion
+        self.ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
 
         return self.Payload
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 4699798..6939988 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -26,6 +26,7 @@ class UefiCapsuleHeaderClass(object):
         PersistAcrossReset (bool):  Flag pulled from OemFlags
         PopulateSystemTable (bool): Flag pulled from OemFlags
         InitiateReset (bool):       Flag pulled from OemFlags
+        ExtendedHeader (bytes):     The part of the header beyond EFI_CAPSULE_HEADER, padded to HeaderSize when encoded
         Payload (bytes):              string representing packed data as bytes (i.e. b'\x01\x00\x03')
         FmpCapsuleHeader (FmpCapsuleHeaderClass): Fmp Capsule Header
 
@@ -61,6 +62,7 @@ class UefiCapsuleHeaderClass(object):
         self.PopulateSystemTable = False
         self.InitiateReset = False
         self.CapsuleImageSize = self.HeaderSize
+        self.ExtendedHeader = b""
         self.Payload = b""
         self.FmpCapsuleHeader = None
 
@@ -88,7 +90,11 @@ class UefiCapsuleHeaderClass(object):
             self._StructFormat, self.CapsuleGuid.bytes_le, self.HeaderSize, Flags, self.CapsuleImageSize, 0
         )
 
-        return UefiCapsuleHeader + self.Payload
+        # HeaderSize may cover more than this structure.
+        ExtendedHeaderSize = self.HeaderSize - self._StructSize
+        ExtendedHeader = self.ExtendedHeader[:ExtendedHeaderSize].ljust(ExtendedHeaderSize, b"\x00")
+
+        return UefiCapsuleHeader + ExtendedHeader + self.Payload
 
     def Decode(self, Buffer: BytesIO) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -109,7 +115,7 @@ class UefiCapsuleHeaderClass(object):
         (CapsuleGuid, HeaderSize, Flags, CapsuleImageSize, Reserved) = struct.unpack(
             self._StructFormat, Buffer[0 : self._StructSize]
         )
-        if HeaderSize < self._StructSize:
+        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
             raise ValueError
         if CapsuleImageSize != len(Buffer):
             raise ValueError
@@ -120,7 +126,9 @@ class UefiCapsuleHeaderClass(object):
         self.PopulateSystemTable = (Flags & self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE) != 0
         self.InitiateReset = (Flags & self._CAPSULE_FLAGS_INITIATE_RESET) != 0
         self.CapsuleImageSize = CapsuleImageSize
+        self.ExtendedHeader = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
+        self.FmpCapsuleHeader = None
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
             self.FmpCapsuleHeader = FmpCapsuleHeaderClass()
             self.FmpCapsuleHeader.Decode(self.Payload)
-- 
2.43.0


From 88705bbf205c71bce7e058b6f5f2de9f2f9ff993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:50 +0000
Subject: [PATCH 047/127] fix: decoding a capsule without payload kept the
 nested headers of the previous one

---
 edk2toollib/uefi/fmp_auth_header.py    | 1 +
 edk2toollib/uefi/fmp_capsule_header.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index baf271e..c8eb3ba 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -77,6 +77,7 @@ class FmpAuthHeaderClass(object):
         self.MonotonicCount = MonotonicCount
 
         self.Payload = self.AuthInfo.Decode(Buffer[self._MonotonicCountSize :])
+        self.FmpPayloadHeader = None
         if len(self.Payload) > 0:
             self.FmpPayloadHeader = FmpPayloadHeaderClass()
             self.FmpPayloadHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 31ceee8..721e715 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -132,6 +132,7 @@ class FmpCapsuleImageHeaderClass(object):
         self.UpdateVendorCodeSize = UpdateVendorCodeSize
         self.UpdateHardwareInstance = UpdateHardwareInstance
         self.Payload = Buffer[self._StructSize : self._StructSize + UpdateImageSize]
+        self.FmpAuthHeader = None
         if len(self.Payload) > 0:
             self.FmpAuthHeader = FmpAuthHeaderClass()
             self.FmpAuthHeader.Decode(self.Payload)
-- 
2.43.0


From f02afa958f70e3edf361e4406c518295c6aa7af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 048/127] fix: FmpCapsuleHeader accepted item offsets that
 overlap the header or go backwards, and refused an empty last driver

---
 edk2toollib/uefi/fmp_capsule_header.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 721e715..99712e9 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -293,6 +293,9 @@ class FmpCapsuleHeaderClass(object):
         )
         if Version < self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_HEADER_INIT_VERSION:
             raise ValueError
+        MinimumOffset = self._StructSize + (EmbeddedDriverCount + PayloadItemCount) * self._ItemOffsetSize
+        if len(Buffer) < MinimumOffset:
+            raise ValueError
 
         self.Version = Version
         self.EmbeddedDriverCount = EmbeddedDriverCount
@@ -308,8 +311,10 @@ class FmpCapsuleHeaderClass(object):
         Offset = self._StructSize
         for Index in range(EmbeddedDriverCount + PayloadItemCount):
             ItemOffset = struct.unpack(self._ItemOffsetFormat, Buffer[Offset : Offset + self._ItemOffsetSize])[0]
-            if ItemOffset >= len(Buffer):
+            # The items follow the list in order, the last one may be empty
+            if ItemOffset < MinimumOffset or ItemOffset > len(Buffer):
                 raise ValueError
+            MinimumOffset = ItemOffset
             offset_list.append(ItemOffset)
             Offset = Offset + self._ItemOffsetSize
         Result = Buffer[Offset:]
-- 
2.43.0


From 2db2b0dc14f2b27b5539af995f036b7236df3ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:51 +0000
Subject: [PATCH 049/127] fix: FmpAuthHeaderClass.IsSigned was never true and
 raised ValueError for an invalid buffer

---
 edk2toollib/uefi/fmp_auth_header.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index c8eb3ba..cd5b0f7 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -94,10 +94,11 @@ class FmpAuthHeaderClass(object):
         if len(Buffer) < self._MonotonicCountSize:
             return False
 
-        auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
-        if auth_info.CertType != WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID.bytes_le:
+        try:
+            auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
+        except ValueError:
             return False
-        return True
+        return auth_info.cert_type == WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID
 
     def DumpInfo(self) -> None:
         """Prints object to console."""
-- 
2.43.0


From be458a726ffd9986fc39f23973a851258f4ebffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:32 +0000
Subject: [PATCH 050/127] fix: EmbeddedDriverCount and PayloadItemCount were
 doubled by FmpCapsuleHeaderClass.Decode

---
 edk2toollib/uefi/fmp_capsule_header.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 99712e9..b2c0fed 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -298,8 +298,9 @@ class FmpCapsuleHeaderClass(object):
             raise ValueError
 
         self.Version = Version
-        self.EmbeddedDriverCount = EmbeddedDriverCount
-        self.PayloadItemCount = PayloadItemCount
+        # These are counted when the items are added
+        self.EmbeddedDriverCount = 0
+        self.PayloadItemCount = 0
         self._EmbeddedDriverList = []
         self._FmpCapsuleImageHeaderList = []
 
-- 
2.43.0


From a4baece747a942e1a35b0191896e7a07514db507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 051/127] fix: names, tags, keys and OS versions that end in a
 newline broke the lines of the generated INF

---
 edk2toollib/windows/capsule/inf_generator.py  |  2 +-
 edk2toollib/windows/capsule/inf_generator2.py | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 9f1d198..7e3a38f 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -149,7 +149,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): Invalid Characters in name
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             logging.critical("Name invalid: '%s'", value)
             raise ValueError("Name has invalid chars.")
         self._name = value
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 323577d..181e1d2 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -65,7 +65,7 @@ class InfHeader(object):
         else:
             if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
-            self.TargetOSVersion = TargetOSVersion
+            self.TargetOSVersion = TargetOSVersion.strip()
 
     @property
     def Name(self) -> str:
@@ -80,7 +80,7 @@ class InfHeader(object):
             (ValueError): Invalid chars in string
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             raise ValueError("Name has invalid chars.")
         self._name = value
 
@@ -204,7 +204,7 @@ class InfFirmware(object):
             (ValueError): Invalid character for a tag
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*")).fullmatch(value):
             raise ValueError("Tag has invalid chars.")
         self._tag = value
 
@@ -298,7 +298,7 @@ class InfFirmwareSections(object):
         else:
             if not re.match(_TARGET_OSVERSION_RE, TargetOSVersion):
                 raise ValueError(f"Invalid TargetOSVersion: {TargetOSVersion}")
-            self.TargetOSVersion = TargetOSVersion
+            self.TargetOSVersion = TargetOSVersion.strip()
 
     @property
     def Arch(self) -> str:
@@ -357,7 +357,7 @@ class InfSourceFiles(object):
             Filename (str): Filename (basename only) of the file to be added. (e.g. "Firmware1234.bin")
         """
         # test here for invalid chars. For filenames, this permits a-z, A-Z, 0-9, _, -, and . characters.
-        if not (re.compile(r"[\.\w-]*$")).match(Filename):
+        if not (re.compile(r"[\.\w-]*")).fullmatch(Filename):
             raise ValueError("Filename has invalid chars.")
 
         if Filename not in self.Files:
@@ -403,7 +403,7 @@ class InfStrings(object):
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
         # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        if not (re.compile(r"\w+")).fullmatch(Key):
             raise ValueError("Key has invalid chars.")
         self.LocalizableStrings[Key] = Value
 
@@ -418,7 +418,7 @@ class InfStrings(object):
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
         # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        if not (re.compile(r"\w+")).fullmatch(Key):
             raise ValueError("Key has invalid chars.")
         self.NonLocalizableStrings[Key] = Value
 
-- 
2.43.0


From 89f7ddbb8387ec5a9ea1558d92365c664b6c653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 052/127] fix: ESRT GUIDs in braces or without dashes were
 written to the INF as they are

---
 edk2toollib/windows/capsule/inf_generator.py  | 5 ++---
 edk2toollib/windows/capsule/inf_generator2.py | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 7e3a38f..4e29d6e 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -202,9 +202,8 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
         Raises:
             (Exception): Invalid value
         """
-        uuid.UUID(value)  # if this works it is valid...otherwise throws exception
-        # todo - make sure it is formatted exactly right
-        self._esrt_guid = value
+        # if this works it is valid...otherwise throws exception
+        self._esrt_guid = str(uuid.UUID(value))
 
     @property
     def VersionString(self) -> str:
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 181e1d2..040eaa4 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -216,8 +216,7 @@ class InfFirmware(object):
     @EsrtGuid.setter
     def EsrtGuid(self, value: uuid.UUID) -> None:
         """Transforms string into actual guid object before setting."""
-        uuid.UUID(value)
-        self._esrt_guid = value
+        self._esrt_guid = str(uuid.UUID(value))
 
     @property
     def VersionInt(self) -> int:
-- 
2.43.0


From 94250dc50b5aa6e865b692f29d3c8df0389556a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 053/127] fix: firmware versions that do not fit a DWORD were
 accepted and written as 0x-5 or with more than 32 bits

---
 edk2toollib/windows/capsule/inf_generator.py  |  2 +-
 edk2toollib/windows/capsule/inf_generator2.py | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 4e29d6e..e6584e2 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -236,7 +236,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): hex does not fit in a 32but uint
         """
         a = int(value, 0)
-        if a > 0xFFFFFFFF:
+        if a < 0 or a > 0xFFFFFFFF:
             logging.critical("VersionHex invalid: '%s'", value)
             raise ValueError("VersionHex must fit within 32bit value range for unsigned integer")
         self._versionhex = a
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 040eaa4..735adc4 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -225,8 +225,15 @@ class InfFirmware(object):
 
     @VersionInt.setter
     def VersionInt(self, value: int) -> None:
-        """Sets the VersionInt value from a string."""
-        self._version_int = int(value, base=0)
+        """Sets the VersionInt value from a string.
+
+        Raises:
+            (ValueError): does not fit in a 32bit unsigned integer
+        """
+        version = int(value, base=0)
+        if version < 0 or version > 0xFFFFFFFF:
+            raise ValueError("VersionInt must fit within 32bit value range for unsigned integer")
+        self._version_int = version
 
     def __str__(self) -> str:
         """Return the string representation of this InfFirmware object."""
-- 
2.43.0


From c62b823712adb748fb00cb833a4b0fe2e79505ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:28 +0000
Subject: [PATCH 054/127] fix: an InfFile without firmware could not be
 converted to a string

---
 edk2toollib/windows/capsule/inf_generator2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 735adc4..55923db 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -431,12 +431,12 @@ class InfStrings(object):
     def __str__(self) -> str:
         """Return the string representation of this InfStrings object."""
         LocalizedStrings = ""
-        LongestKey = max(len(Key) for Key in self.LocalizableStrings.keys())
+        LongestKey = max((len(Key) for Key in self.LocalizableStrings.keys()), default=0)
         for Key, Value in self.LocalizableStrings.items():
             LocalizedStrings += '{0:{width}} = "{1}"\n'.format(Key, Value, width=LongestKey)
 
         NonLocalizedStrings = ""
-        LongestKey = max(len(Key) for Key in self.NonLocalizableStrings.keys())
+        LongestKey = max((len(Key) for Key in self.NonLocalizableStrings.keys()), default=0)
         for Key, Value in self.NonLocalizableStrings.items():
             NonLocalizedStrings += "{0:{width}} = {1}\n".format(Key, Value, width=LongestKey)
 
-- 
2.43.0


From 464c0fe56e77bf400ab4872d7fa1ebdb8c68b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:23 +0000
Subject: [PATCH 055/127] fix: a firmware that AddSection refused stayed in the
 INF without its description string

---
 edk2toollib/windows/capsule/inf_generator2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 55923db..ec991c4 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -326,8 +326,8 @@ class InfFirmwareSections(object):
             InfFirmware (InfFirmware): an InfFirmware object representing a firmware section to be added to
                 this collection of sections.
         """
-        self.Sections[InfFirmware.Tag] = InfFirmware
         self.InfStrings.AddLocalizableString(f"{InfFirmware.Tag}Desc", InfFirmware.Description)
+        self.Sections[InfFirmware.Tag] = InfFirmware
 
     def __str__(self) -> str:
         """Return the string representation of this InfFirmwareSections object.
-- 
2.43.0


From 0dd9eaaa6f97136000a72fc4368d13dbea138ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 056/127] fix: FirmwarePolicy.AddRule added rules that already
 existed

---
 edk2toollib/windows/policy/firmware_policy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 4f1b473..df38c2f 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -275,6 +275,10 @@ class PolicyValueType:
 
         self.vt = Type
 
+    def __eq__(self, other: "PolicyValueType") -> bool:
+        """Value types are equal if they are the same POLICY_VALUE_TYPE_*."""
+        return isinstance(other, PolicyValueType) and self.vt == other.vt
+
     @classmethod
     def FromFileStream(cls: "PolicyValueType", fs: BinaryIO, fsOffset: int = None) -> "PolicyValueType":
         """Load a Policy Value Type from a file stream.
@@ -354,6 +358,10 @@ class PolicyString:
             self.String = ""
         return
 
+    def __eq__(self, other: "PolicyString") -> bool:
+        """Policy strings are equal if their text is."""
+        return isinstance(other, PolicyString) and self.String == other.String
+
     @classmethod
     def FromFileStream(cls: "PolicyString", fs: BinaryIO, fsOffset: int = None) -> "PolicyString":
         """Inits a PolicyString from a file stream.
@@ -432,6 +440,10 @@ class PolicyValue:
         self.valueType = valueType
         self.value = value
 
+    def __eq__(self, other: "PolicyValue") -> bool:
+        """Policy values are equal if both type and value are."""
+        return isinstance(other, PolicyValue) and self.valueType == other.valueType and self.value == other.value
+
     @classmethod
     def FromFileStream(cls: "PolicyValue", fs: BinaryIO, fsOffset: int = None) -> "PolicyValue":
         """Load a Policy Value from a file stream.
-- 
2.43.0


From 782642ac42d1626bed12231d9cc81247714e1299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 057/127] fix: firmware policy strings and values at offset 0
 of a stream were read from the current position

---
 edk2toollib/windows/policy/firmware_policy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index df38c2f..9df3c29 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -289,7 +289,7 @@ class PolicyValueType:
             fs (BinaryIO): filestream to read
             fsOffset (`int`, optional): offset to start reading from
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         valueType = struct.unpack(cls.StructFormat, fs.read(cls.StructSize))[0]
         return cls(valueType)
@@ -373,7 +373,7 @@ class PolicyString:
         Raises:
             (Exception): string length mismatch
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         StringLength = struct.unpack(cls.StringLengthFormat, fs.read(cls.StringLengthSize))[0]
         LocalString = bytes.decode(fs.read(StringLength), encoding="utf_16_le")
@@ -457,7 +457,7 @@ class PolicyValue:
         Raises:
             (Exception): if STRICT is True, unsupported PolicyValueType
         """
-        if fsOffset:
+        if fsOffset is not None:
             fs.seek(fsOffset)
         else:
             fsOffset = fs.tell()
-- 
2.43.0


From 0915ecdb7b7e269a6b80bbf961f4286d91e6d900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:45 +0000
Subject: [PATCH 058/127] fix: firmware policy strings with characters outside
 of the BMP could not be decoded

---
 edk2toollib/windows/policy/firmware_policy.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 9df3c29..3b45a2d 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -376,9 +376,10 @@ class PolicyString:
         if fsOffset is not None:
             fs.seek(fsOffset)
         StringLength = struct.unpack(cls.StringLengthFormat, fs.read(cls.StringLengthSize))[0]
-        LocalString = bytes.decode(fs.read(StringLength), encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        StringBytes = fs.read(StringLength)
+        if len(StringBytes) != StringLength:
             raise Exception("String length mismatch")
+        LocalString = bytes.decode(StringBytes, encoding="utf_16_le")
         return cls(String=LocalString)
 
     @classmethod
@@ -394,9 +395,10 @@ class PolicyString:
         """
         StringLength = struct.unpack_from(cls.StringLengthFormat, b, bOffset)[0]
         bOffset += struct.calcsize(cls.StringLengthFormat)
-        LocalString = bytes.decode(b[bOffset : bOffset + StringLength], encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        StringBytes = b[bOffset : bOffset + StringLength]
+        if len(StringBytes) != StringLength:
             raise Exception("String length mismatch")
+        LocalString = bytes.decode(StringBytes, encoding="utf_16_le")
         return cls(String=LocalString)
 
     def Print(self, prefix: str = "") -> None:
-- 
2.43.0


From 38b865cfc2ca19247e2c282c0d41f3d9effc794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:40 +0000
Subject: [PATCH 059/127] fix: the size in a TPM command header was stale after
 an element of the stream was updated

---
 edk2toollib/tpm/tpm2_stream.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_stream.py b/edk2toollib/tpm/tpm2_stream.py
index 002171e..57f0fea 100644
--- a/edk2toollib/tpm/tpm2_stream.py
+++ b/edk2toollib/tpm/tpm2_stream.py
@@ -122,13 +122,15 @@ class Tpm2CommandStream(object):
 
     def get_size(self) -> int:
         """Returns the stream size."""
+        # elements can be updated after they are added
+        self.stream_size = self.header.get_size() + sum(element.get_size() for element in self.stream_elements)
+        self.header.update_size(self.stream_size)
         return self.stream_size
 
     def add_element(self, element: "Tpm2StreamElement") -> None:
         """Adds an element to the stream list."""
         self.stream_elements.append(element)
-        self.stream_size += element.get_size()
-        self.header.update_size(self.stream_size)
+        self.get_size()
 
     def get_stream(self) -> str:
         r"""Serializes the Header + elements.
@@ -136,4 +138,5 @@ class Tpm2CommandStream(object):
         Returns:
             (str): string representing packed data as bytes (i.e. b'\x01\x00\x03')
         """
+        self.get_size()
         return self.header.marshal() + b"".join(element.marshal() for element in self.stream_elements)
-- 
2.43.0


From bedf05462f922fcf2546b61aed133c33b8d317bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:41 +0000
Subject: [PATCH 060/127] fix: TpmSimulator could not send or read anything on
 Python 3 and lost data of short reads

---
 edk2toollib/tpm/tpm2_simulator.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_simulator.py b/edk2toollib/tpm/tpm2_simulator.py
index 3f494e5..5b263b2 100644
--- a/edk2toollib/tpm/tpm2_simulator.py
+++ b/edk2toollib/tpm/tpm2_simulator.py
@@ -57,21 +57,26 @@ class TpmSimulator(object):
         self.tpmSock.connect((host, port))
 
         # Power cycle the TPM.
-        self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_OFF"]))
-        self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_ON"]))
+        self.platSock.sendall(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_OFF"]))
+        self.platSock.sendall(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_ON"]))
 
         # Enable the NV space.
-        self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_NV_ON"]))
+        self.platSock.sendall(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_NV_ON"]))
 
     def send_raw_data(self, data: str) -> None:
         """Send raw data to the TPM simulator."""
-        print("RAW -->: " + str(data).encode("hex"))
-        self.tpmSock.send(data)
+        print("RAW -->: " + data.hex())
+        self.tpmSock.sendall(data)
 
     def read_raw_data(self, count: int) -> bytes:
         """Read raw data from the TPM simulator."""
-        data = self.tpmSock.recv(count)
-        print("RAW <--: " + str(data).encode("hex"))
+        data = b""
+        while len(data) < count:
+            chunk = self.tpmSock.recv(count - len(data))
+            if not chunk:
+                raise ConnectionError("The TPM simulator closed the connection")
+            data += chunk
+        print("RAW <--: " + data.hex())
         return data
 
     def send_data(self, data: str) -> bytes:
-- 
2.43.0


From 3df014c00d39405922d5c2b46e8d7d3671723350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:26 +0000
Subject: [PATCH 061/127] fix: DMAR structures and device scopes with invalid
 lengths hung the parser or read other structures

---
 edk2toollib/acpi/dmar_parser.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index 8633978..e0b4551 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -36,19 +36,22 @@ class DMARTable(object):
             # Get type and length of remapping struct
             remapping_header = self.RemappingStructHeader(self.data)
             assert remapping_header.Type < 5, "Reserved remapping struct found in DMAR table"
+            if remapping_header.Length > len(self.data):
+                raise ValueError("Remapping struct exceeds the DMAR table")
+            struct_data = self.data[: remapping_header.Length]
 
             # Parse remapping struct
             if remapping_header.Type == 0:
-                remapping_header = self.DRHDStruct(self.data, remapping_header.Length)
+                remapping_header = self.DRHDStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 1:
-                remapping_header = self.RMRRStruct(self.data, remapping_header.Length)
+                remapping_header = self.RMRRStruct(struct_data, remapping_header.Length)
                 self.dmar_table.RMRRlist.append(remapping_header)
             elif remapping_header.Type == 2:
-                remapping_header = self.ATSRStruct(self.data, remapping_header.Length)
+                remapping_header = self.ATSRStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 3:
-                remapping_header = self.RHSAStruct(self.data, remapping_header.Length)
+                remapping_header = self.RHSAStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 4:
-                remapping_header = self.ANDDStruct(self.data, remapping_header.Length)
+                remapping_header = self.ANDDStruct(struct_data, remapping_header.Length)
                 self.dmar_table.ANDDCount += 1
             else:
                 print("Reserved remapping struct found in DMAR table")
@@ -493,6 +496,10 @@ class DMARTable(object):
                 print("Reserved Device Scope Type Found")
                 sys.exit(-1)
 
+            path_length = self.Length - DMARTable.DeviceScopeHeaderLength
+            if path_length < 0 or path_length % 2 != 0 or self.Length > len(header_byte_array):
+                raise ValueError("Invalid Device Scope Length Found")
+
             number_path_entries = (self.Length - DMARTable.DeviceScopeHeaderLength) / 2
             offset = 6
             self.Path = list()
-- 
2.43.0


From c19f876310cb4917e42c8307506772eb581f3331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 062/127] fix: DMAR XML was not well-formed, its element names
 had spaces

---
 edk2toollib/acpi/dmar_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index e0b4551..cda84bf 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -65,7 +65,7 @@ class DMARTable(object):
 
     def toXml(self) -> ET.Element:
         """Converts the object to an xml representation."""
-        root = ET.Element("DMAR Table")
+        root = ET.Element("DMARTable")
         root.append(self.dmar_table.toXml())
         for sub in self.dmar_table.SubStructs:
             root.append(sub.toXml())
@@ -231,7 +231,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", ""))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
@@ -304,7 +304,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", ""))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
@@ -368,7 +368,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", ""))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
-- 
2.43.0


From e2ed246d5f892c9fc4597e72962bf57b5f9a2b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:21 +0000
Subject: [PATCH 063/127] fix: IVMD DumpInfo printed the type as the memory
 block length

---
 edk2toollib/acpi/ivrs_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index d6fa813..93babbe 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -508,7 +508,7 @@ class IVRS_TABLE(object):
             )
             print(
                 "\tIVMD Memory Block Length             : 0x{IVMDMemoryBlockLength:016X}".format(
-                    IVMDMemoryBlockLength=self.Type
+                    IVMDMemoryBlockLength=self.IVMDMemoryBlockLength
                 )
             )
 
-- 
2.43.0


From f3aac3d2db4861e2813a2cfd444f1e94fcb6d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:21 +0000
Subject: [PATCH 064/127] fix: IVRS select entries were reported as reserved
 entries

---
 edk2toollib/acpi/ivrs_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index 93babbe..08ccad5 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -699,7 +699,7 @@ class IVRS_TABLE(object):
                     self.Type,
                 )
 
-            self.TypeString = "Reserved"
+            self.TypeString = "Select"
             self.Length = IVRS_TABLE.DEVICE_TABLE_ENTRY.struct_format_size
 
         def Encode(self) -> bytes:
-- 
2.43.0


From 7649fe1230045d604f0ac4db5e7ea70a03ac8b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:21 +0000
Subject: [PATCH 065/127] fix: IVRS XML with an ACPI device entry was not
 well-formed

---
 edk2toollib/acpi/ivrs_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index 08ccad5..99ece95 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -1267,7 +1267,7 @@ class IVRS_TABLE(object):
             xml_item.set("DTESetting", "0x%X" % (self.DTESetting))
 
             xml_item.set("HardwareID", "%s" % (self.HID))
-            xml_item.set("ExtendedDTE Setting", "%s" % (self.CID))
+            xml_item.set("CompatibleID", "%s" % (self.CID))
             xml_item.set("UniqueIDFormat", "%d" % (self.UIDFormat))
             xml_item.set("UniqueIDLength", "%d" % (self.UIDLength))
             if self.UIDFormat == 0:
@@ -1290,7 +1290,7 @@ class IVRS_TABLE(object):
             print("\t\tDTE Setting           : 0x{DTESetting:02X}".format(DTESetting=self.DTESetting))
 
             print("\t\tHardware ID           : {HID:s}".format(HID=self.HID.decode()))
-            print("\t\tExtended DTE Setting  : {CID:s}".format(CID=self.CID.decode()))
+            print("\t\tCompatible ID         : {CID:s}".format(CID=self.CID.decode()))
             print("\t\tUnique ID Format      : {UIDFormat:d}".format(UIDFormat=self.UIDFormat))
             print("\t\tUnique ID Length      : {UIDLength:d}".format(UIDLength=self.UIDLength))
             if self.UIDFormat == 0:
-- 
2.43.0


From dfc832d595e50982490d36cdeca9df5af86b2a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:21 +0000
Subject: [PATCH 066/127] fix: IVRS tables and IVHDs decoded into a used object
 kept their previous entries

---
 edk2toollib/acpi/ivrs_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index 99ece95..e1d21cf 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -31,6 +31,8 @@ class IVRS_TABLE(object):
 
     def Decode(self, data: bytes) -> None:
         """Loads data into the object from the header_byte_array."""
+        self.SubStructs = list()
+        self.IVMD_list = list()
         self.acpi_header = IVRS_TABLE.ACPI_TABLE_HEADER(data[: IVRS_TABLE.ACPI_TABLE_HEADER.struct_format_size])
 
         # Start from the end of ACPI header, but store the parsed length for verification
@@ -304,6 +306,8 @@ class IVRS_TABLE(object):
             )
 
             self.Length = 0
+            self.IOMMUEFRImage = None
+            self.DeviceTableEntries = list()
 
             if (self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_11H) or (
                 self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_40H
-- 
2.43.0


From c6abb15b30da00a053fde7c3d0f7969232992a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:21 +0000
Subject: [PATCH 067/127] fix: IVRS ACPI device entries with an unknown UID
 format were accepted and could not be printed

---
 edk2toollib/acpi/ivrs_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index e1d21cf..21455e1 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -1243,6 +1243,8 @@ class IVRS_TABLE(object):
                 (self.UID,) = struct.unpack(
                     "=%ss" % self.UIDLength, header_byte_array[IVRS_TABLE.DEVICE_TABLE_ENTRY.dte_var_len : self.Length]
                 )
+            else:
+                raise Exception("Unrecognized UID format detected %d" % self.UIDFormat)
 
         def Encode(self) -> bytes:
             r"""Serializes the object.
-- 
2.43.0


From 91e99112cedcb50cc17ecaa3a44d331290773afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 068/127] fix: BMP images with padding before the pixel data
 could not be written

---
 edk2toollib/uefi/bmp_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 70bdae1..565d2f8 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -142,7 +142,7 @@ class BmpObject(object):
             self.ColorMapList = []
         else:
             self.ImageData = None
-            self.Padding = None
+            self._Padding = None
             self._PaddingLength = 0
             self.ColorMapList = []
             self.PopulateFromFileStream(filestream)
@@ -331,7 +331,7 @@ class BmpObject(object):
 
         # padding
         if self._PaddingLength > 0:
-            fs.write(self.Padding)
+            fs.write(self._Padding)
 
         # Pixel data
         if self.ImageData:
-- 
2.43.0


From bbad7a4d8c4ca9476b9ac0795ff09c47b1dcc12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 069/127] fix: an empty BmpObject could not be created

---
 edk2toollib/uefi/bmp_object.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 565d2f8..d85a7fc 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -118,13 +118,13 @@ class BmpObject(object):
         """Inits an empty object or loads from filestream."""
         self.logger = logging.getLogger(__name__)
         if filestream is None:
-            self.CharB = "B"
-            self.CharM = "M"
-            self.Size = BmpObject.STATIC_STRUCT_SIZE
+            self.CharB = b"B"
+            self.CharM = b"M"
+            self.Size = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.Rsvd16_1 = 0
             self.Rsvd16_2 = 0
-            self.ImageOffset = BmpObject.STATIC_STRUCT_SIZE
-            self.HeaderSize = BmpObject.STATIC_STRUCT_SIZE
+            self.ImageOffset = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
+            self.HeaderSize = BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.PixelWidth = 0
             self.PixelHeight = 0
             self.Planes = 1
-- 
2.43.0


From 90fa2e99bda200c8ab1e84f222b23a034d4f7c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 070/127] fix: BmpColorMap.Print raised an AttributeError

---
 edk2toollib/uefi/bmp_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index d85a7fc..910b588 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -71,7 +71,7 @@ class BmpColorMap(object):
 
     def Print(self) -> None:
         """Logs the object."""
-        logger = logging.get(__name__)
+        logger = logging.getLogger(__name__)
         logger.info("BMP Color Map")
         logger.info("  Blue:           0x%X" % self.Blue)
         logger.info("  Green:          0x%X" % self.Green)
-- 
2.43.0


From 22d9d7d102010d8cace0ff89433e1257fb0074c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 071/127] fix: a BMP image read into a used BmpObject kept
 color maps and padding of the previous one

---
 edk2toollib/uefi/bmp_object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 910b588..3c0aaa7 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -173,6 +173,10 @@ class BmpObject(object):
         if fs is None:
             raise Exception("Invalid File stream")
 
+        self._Padding = None
+        self._PaddingLength = 0
+        self.ColorMapList = []
+
         # only populate from file stream those parts that are complete in the file stream
         offset = fs.tell()
         fs.seek(0, 2)
-- 
2.43.0


From 0b37483a19979c1dc4833c69b739821e9e979e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 072/127] fix: truncated BMP files with large headers or image
 offsets were accepted

---
 edk2toollib/uefi/bmp_object.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 3c0aaa7..3cf339a 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -215,11 +215,11 @@ class BmpObject(object):
         if self.Size < self.HeaderSize:
             raise Exception("Size can't be smaller than HeaderSize")
 
-        if (end - fs.tell()) < (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE):
-            raise Exception(
-                "Invalid file stream size (Size) 0x%X Less Than 0x%X"
-                % ((end - fs.tell()), (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE))
-            )
+        if self.Size < self.ImageOffset:
+            raise Exception("Size can't be smaller than ImageOffset")
+
+        if (end - offset) < self.Size:
+            raise Exception("Invalid file stream size (Size) 0x%X Less Than 0x%X" % ((end - offset), self.Size))
 
         StartOfImageData = offset + self.ImageOffset
         if fs.tell() < StartOfImageData:
-- 
2.43.0


From 057bfd13f0429d59bb30dc851e4fb685243f2ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:15 +0000
Subject: [PATCH 073/127] fix: PC Card device paths could not be decoded

---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 508b54d..e69982f 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -312,7 +312,7 @@ class PccardDevicePath(EfiDevicePathProtocol):
 
     @classmethod
     def from_binary(cls, header: "EfiDevicePathProtocol") -> "PccardDevicePath":
-        function_number = struct.unpack("<B", header.data[:1])[0]
+        function_number = struct.unpack("<B", header.dev_data[:1])[0]
         return cls(header, function_number)
 
 
-- 
2.43.0


From 0eac57907a76e4c776bbf5c158f6f37caf968e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:15 +0000
Subject: [PATCH 074/127] fix: device paths with an unknown type raised a
 KeyError

---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index e69982f..9e499f1 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -963,7 +963,7 @@ DEVICE_PATH_TYPES = defaultdict(
 # Change function to DevicePath Implementation to begin decoding.
 # __dict__() will be called to add the device path to the parent dictionary
 DEVICE_PATH_SUBTYPES = defaultdict(
-    lambda: {NOT_FOUND: ("NOT_FOUND!", UnimplementedDevicePath)},
+    lambda: defaultdict(lambda: ("NOT_FOUND!", UnimplementedDevicePath)),
     {
         HARDWARE_DEVICE_PATH: defaultdict(
             lambda: ("Unimplemented!", UnimplementedDevicePath),
-- 
2.43.0


From 704a27f9fcbe9e40796522a08e3265f8f2f9553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:15 +0000
Subject: [PATCH 075/127] fix: device path nodes that overlap or exceed the
 buffer were accepted

---
 edk2toollib/uefi/device_path.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 9e499f1..cde29cd 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -1082,14 +1082,14 @@ class DevicePathFactory(object):
 
         while offset < len(binary):
             header = EfiDevicePathProtocol.decode(binary[offset:])
+            if header.dev_length < EfiDevicePathProtocol._dp_struct_size or header.dev_length > len(binary) - offset:
+                # dev_length is user controlled after all..
+                raise ValueError(f"Invalid Header Length: {header}")
+
             device_path_class = DevicePathFactory._find_implementation(header)
             device_path = device_path_class.from_binary(header)
             device_paths.append(device_path)
 
-            if header.dev_length == 0:
-                # dev_length is user controlled after all..
-                raise ValueError(f"Invalid Header Length: {header}")
-
             offset += header.dev_length
 
         return device_paths
-- 
2.43.0


From cc25a80c417711cdb20c71bab0b1887a65211c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:15 +0000
Subject: [PATCH 076/127] fix: SATA and IPv4 device path nodes without all of
 their fields were accepted

---
 edk2toollib/uefi/device_path.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index cde29cd..915e762 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -553,6 +553,8 @@ class Ipv4DevicePath(EfiDevicePathProtocol):
 
     @classmethod
     def from_binary(cls, header: "EfiDevicePathProtocol") -> "Ipv4DevicePath":
+        if len(header.dev_data) < 23:
+            raise ValueError(f"Invalid Header Length: {header}")
         local_ip_address = EfiIpv4Address.from_binary(header.dev_data[:4])
         remote_ip_address = EfiIpv4Address.from_binary(header.dev_data[4:8])
         local_port, remote_port, protocol = struct.unpack("HHH", header.dev_data[8:14])
@@ -611,9 +613,7 @@ class SataDevicePath(EfiDevicePathProtocol):
 
     @classmethod
     def from_binary(cls, header: EfiDevicePathProtocol) -> "SataDevicePath":
-        hba_port_number = int.from_bytes(header.dev_data[:2], "little")
-        port_multiplier_port_number = int.from_bytes(header.dev_data[2:4], "little")
-        lun = int.from_bytes(header.dev_data[4:6], "little")
+        hba_port_number, port_multiplier_port_number, lun = struct.unpack("<HHH", header.dev_data[:6])
         return cls(header, hba_port_number, port_multiplier_port_number, lun)
 
 
-- 
2.43.0


From d37cd92607b17673b41e7736536aba6a982ff7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:15 +0000
Subject: [PATCH 077/127] fix: messaging device paths 0x1B to 0x1F had the
 names of other subtypes

---
 edk2toollib/uefi/device_path.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 915e762..a6adfab 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -79,11 +79,11 @@ MSG_NVME_NAMESPACE_DP = 0x17
 MSG_URI_DP = 0x18
 MSG_UFS_DP = 0x19
 MSG_SD_DP = 0x1A
-MSG_EMMC_DP = 0x1B
-MSG_BLUEFIELD_DP = 0x1C
-MSG_BLUETOOTH_DP = 0x1D
-MSG_WIFI_DP = 0x1E
-MSG_EFI_DP = 0x1F
+MSG_BLUETOOTH_DP = 0x1B
+MSG_WIFI_DP = 0x1C
+MSG_EMMC_DP = 0x1D
+MSG_BLUETOOTH_LE_DP = 0x1E
+MSG_DNS_DP = 0x1F
 
 # Media Device Path
 MEDIA_DEVICE_PATH = 0x04
@@ -1011,10 +1011,10 @@ DEVICE_PATH_SUBTYPES = defaultdict(
                 MSG_UFS_DP: ("UFS", UnimplementedDevicePath),
                 MSG_SD_DP: ("SD", UnimplementedDevicePath),
                 MSG_EMMC_DP: ("eMMC", UnimplementedDevicePath),
-                MSG_BLUEFIELD_DP: ("BlueField", UnimplementedDevicePath),
                 MSG_BLUETOOTH_DP: ("Bluetooth", UnimplementedDevicePath),
                 MSG_WIFI_DP: ("WiFi", UnimplementedDevicePath),
-                MSG_EFI_DP: ("EFI", UnimplementedDevicePath),
+                MSG_BLUETOOTH_LE_DP: ("Bluetooth LE", UnimplementedDevicePath),
+                MSG_DNS_DP: ("DNS", UnimplementedDevicePath),
             },
         ),
         MEDIA_DEVICE_PATH: defaultdict(
-- 
2.43.0


From 7cb2d61901580aaee1118ec768fa91ab1b90b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:12 +0000
Subject: [PATCH 078/127] fix: InstancedInfTable used INF files of a previous
 parse

---
 edk2toollib/database/tables/instanced_inf_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index f2408b3..3bf2760 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -47,6 +47,7 @@ class InstancedInfTable(TableGenerator):
 
     def parse(self, session: Session, pathobj: Edk2Path, env_id: str, env: dict) -> None:
         """Parse the workspace and update the database."""
+        self._parsed_infs.clear()  # The files may have changed since the last parse
         self.pathobj = pathobj
         self.ws = Path(self.pathobj.WorkspacePath)
         self.env = env
-- 
2.43.0


From 2bcb1c5bd1cecee215e97b68a8031675c0cf812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:12 +0000
Subject: [PATCH 079/127] fix: files were assigned to a submodule whose path is
 only a textual part of theirs

---
 edk2toollib/database/tables/instanced_inf_table.py | 2 +-
 edk2toollib/database/tables/package_table.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 3bf2760..2355520 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -113,7 +113,7 @@ class InstancedInfTable(TableGenerator):
                     """Return the Repository that contains the INF file."""
                     if repo.path is None:
                         return False
-                    return Path(self.pathobj.WorkspacePath, repo.path).as_posix() in Path(e["FULL_PATH"]).as_posix()
+                    return Path(e["FULL_PATH"]).is_relative_to(Path(self.pathobj.WorkspacePath, repo.path))
 
                 repo = next(
                     filter(filter_search, all_repos.values()),
diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 8d461e1..8354130 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -57,7 +57,7 @@ class PackageTable(TableGenerator):
             repo_path = None
 
             for submodule in repo.submodules:
-                if submodule.abspath in str(file):
+                if file.is_relative_to(submodule.abspath):
                     containing_repo = submodule.name
                     repo_path = submodule.path
                     break
-- 
2.43.0


From fe0d9b86681185a4815bd2e5fcd6bf236b2bedf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:12 +0000
Subject: [PATCH 080/127] fix: SourceTable did not update the license and
 number of lines of a known file

---
 edk2toollib/database/tables/source_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index cb59b53..444594e 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -62,6 +62,8 @@ class SourceTable(TableGenerator):
                 to_add.append(source)
             else:
                 to_add.append(existing_source[source.path])
+                to_add[-1].license = source.license
+                to_add[-1].total_lines = source.total_lines
                 to_add[-1].code_lines = source.code_lines
                 to_add[-1].comment_lines = source.comment_lines
                 to_add[-1].blank_lines = source.blank_lines
-- 
2.43.0


From b192a6814ef3aa0970c201f0f53f004262c05598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:12 +0000
Subject: [PATCH 081/127] fix: InstancedFvTable raised a TypeError for an INF
 that does not exist

---
 edk2toollib/database/tables/instanced_fv_table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_fv_table.py b/edk2toollib/database/tables/instanced_fv_table.py
index da758ef..62dfeef 100644
--- a/edk2toollib/database/tables/instanced_fv_table.py
+++ b/edk2toollib/database/tables/instanced_fv_table.py
@@ -65,8 +65,9 @@ class InstancedFvTable(TableGenerator):
                 # However in the database, we want the closest match, i.e. "MyPkg/../MyPkg.inf", even if
                 # they are providing ("Subfolder/MyPkg/../MyPkg.inf"). "GetEdk2RelativePathFromAbsolutePath"
                 # always returns the relative path from the closest package path.
-                inf = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
-                inf = self.pathobj.GetEdk2RelativePathFromAbsolutePath(inf)
+                full_inf = self.pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(inf)
+                if full_inf is not None:
+                    inf = self.pathobj.GetEdk2RelativePathFromAbsolutePath(full_inf)
                 inf_list.append(Path(inf).as_posix())
 
             filtered = []
-- 
2.43.0


From a710a4dbc634b63af3d93e22566d375fcd87c0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:12 +0000
Subject: [PATCH 082/127] fix: InfTable did not update changed INF files

---
 edk2toollib/database/tables/inf_table.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/inf_table.py b/edk2toollib/database/tables/inf_table.py
index 2747ac8..f929d37 100644
--- a/edk2toollib/database/tables/inf_table.py
+++ b/edk2toollib/database/tables/inf_table.py
@@ -48,6 +48,7 @@ class InfTable(TableGenerator):
         inf_entries = Parallel(n_jobs=self.n_jobs)(delayed(self._parse_file)(fname, pathobj) for fname in files)
 
         all_inf = {inf.path: inf for inf in session.query(Inf).all()}
+        known_inf = dict(all_inf)
         all_source = {source.path: source for source in session.query(Source).all()}
         all_libs = {lib.name: lib for lib in session.query(Library).all()}
         to_add = []
@@ -57,7 +58,17 @@ class InfTable(TableGenerator):
             # assume if it does not have a guid, its the wrong type of INF
             if entry.guid == "":
                 continue
-            if entry.path in all_inf:
+            if entry.path in known_inf:
+                # The file was parsed before, but may have changed since
+                inf = known_inf.pop(entry.path)
+                inf.guid = entry.guid
+                inf.library_class = entry.library_class
+                inf.package_name = entry.package_name
+                inf.module_type = entry.module_type
+                inf.sources.clear()
+                inf.libraries.clear()
+                entry = inf
+            elif entry.path in all_inf:
                 continue
             for source in source_list:
                 if source not in all_source:
-- 
2.43.0


From ac9224bfc69b62a720283642786f8c481952b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:12 +0000
Subject: [PATCH 083/127] fix: EnvironmentTable raised a ValueError for a
 repository without commits

---
 edk2toollib/database/tables/environment_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/environment_table.py b/edk2toollib/database/tables/environment_table.py
index c617bac..5648fb3 100644
--- a/edk2toollib/database/tables/environment_table.py
+++ b/edk2toollib/database/tables/environment_table.py
@@ -29,7 +29,7 @@ class EnvironmentTable(TableGenerator):
 
         try:
             version = git.Repo(pathobj.WorkspacePath).head.commit.hexsha
-        except git.InvalidGitRepositoryError:
+        except (git.InvalidGitRepositoryError, ValueError):  # No repository, or one without commits
             version = "UNKNOWN"
 
         entry = Environment(
-- 
2.43.0


From 75bb5e49abf5be31153a706209f8c778ce430094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:12 +0000
Subject: [PATCH 084/127] fix: the name of a repository ended at its first .git

---
 edk2toollib/database/tables/package_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 8354130..1ebdada 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -35,9 +35,9 @@ class PackageTable(TableGenerator):
     def get_repo_name(repo: git.Repo) -> str:
         """Get the name of the repository."""
         if "origin" in repo.remotes:
-            return repo.remotes.origin.url.split("/")[-1].split(GIT_EXTENSION)[0].upper()
+            return repo.remotes.origin.url.split("/")[-1].removesuffix(GIT_EXTENSION).upper()
         elif len(repo.remotes) > 0:
-            return repo.remotes[0].url.split("/")[-1].split(GIT_EXTENSION)[0].upper()
+            return repo.remotes[0].url.split("/")[-1].removesuffix(GIT_EXTENSION).upper()
         return "BASE"
 
     def parse(self, session: Session, pathobj: Edk2Path, id: str, env: dict) -> None:
-- 
2.43.0


From 6f19a9d88d10183c22d96832d1a2567fdd8abb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:55 +0000
Subject: [PATCH 085/127] fix: table generators committed a part of their rows
 before they were done

---
 edk2toollib/database/tables/instanced_fv_table.py  | 1 -
 edk2toollib/database/tables/instanced_inf_table.py | 4 +---
 edk2toollib/database/tables/source_table.py        | 1 -
 3 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_fv_table.py b/edk2toollib/database/tables/instanced_fv_table.py
index 62dfeef..f308c36 100644
--- a/edk2toollib/database/tables/instanced_fv_table.py
+++ b/edk2toollib/database/tables/instanced_fv_table.py
@@ -79,4 +79,3 @@ class InstancedFvTable(TableGenerator):
 
             fv = Fv(env=env_id, name=fv, fdf=self.fdf, infs=[all_components.get(inf) for inf in filtered])
             session.add(fv)
-            session.commit()
diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 2355520..7f5e29d 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -136,7 +136,7 @@ class InstancedInfTable(TableGenerator):
                 )
             )
         session.add_all(rows)
-        session.commit()
+        session.flush()
 
         # An INF has one row per component, even if it is used for several library classes
         all_libraries = {
@@ -148,8 +148,6 @@ class InstancedInfTable(TableGenerator):
             libraries = [all_libraries.get((path, row.arch, row.component)) for _, path in inf["LIBRARIES_USED"]]
             row.libraries.extend([lib for lib in libraries if lib is not None])
 
-        session.commit()
-
     def _build_inf_table(self, dscp: DscP) -> list:
         """Create the instanced inf entries, including components and libraries.
 
diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index 444594e..88206e4 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -69,7 +69,6 @@ class SourceTable(TableGenerator):
                 to_add[-1].blank_lines = source.blank_lines
 
         session.add_all(to_add)
-        session.commit()
 
         logging.debug(
             f"{self.__class__.__name__}: Parsed {len(src_entries)} files; took {round(time.time() - start, 2)} seconds."
-- 
2.43.0


From 013042ab59984cc9d47926291e8befae671af98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 086/127] fix: iterating a dsc_dict gave no sections

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index f9114e5..387af63 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -90,7 +90,11 @@ class dsc_dict(collections.OrderedDict):
         if key in self:
             # NEXTVER merge these together?
             raise ValueError(f"Cannot add section {key} since it already exists")
-        dict.__setitem__(self, key, val)
+        super().__setitem__(key, val)
+
+    # Two dictionaries with the same sections are equal, in whichever order they were added
+    __eq__ = dict.__eq__
+    __ne__ = dict.__ne__
 
 
 class dsc:
-- 
2.43.0


From 11132f7fd98c836541c78e8c0e35510e0518ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 087/127] fix: a sku_id with the id of one and the name of
 another was not added to a dsc_set

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 387af63..b767592 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -31,7 +31,7 @@ class dsc_set(set):
         """
         if len(self._allowed_classes) > 0 and type(item) not in self._allowed_classes:
             raise ValueError(f"Cannot add {type(item)} to restricted set: {self._allowed_classes}")
-        if item in self:
+        while item in self:  # a sku_id can collide with two others
             super().discard(item)
             # NEXTVER: get add the old_item to item
         super().add(item)
-- 
2.43.0


From 65c46d279f3056b46a72914d887bc91cdb026a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 088/127] fix: DSC sections for different architectures or
 module types were equal

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index b767592..5f21b35 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -213,7 +213,7 @@ class dsc_section_type:
             return False
         arch = "*" if (self.arch == "COMMON" or self.arch == "DEFAULT") else self.arch
         arch2 = "*" if (other.arch == "COMMON" or other.arch == "DEFAULT") else other.arch
-        return self.module_type == other.module_type or arch == arch2
+        return self.module_type == other.module_type and arch == arch2
 
     def __repr__(self) -> str:
         """A string representation of the object."""
@@ -272,9 +272,9 @@ class dsc_buildoption_section_type(dsc_section_type):
         """Enables equality comparisons (a == b)."""
         if type(other) is not dsc_buildoption_section_type:
             return False
-        if not (other.module_type == self.module_type and other.codebase == self.codebase):
-            return False
-        return other.module_type == self.module_type
+        arch = "*" if (self.arch == "COMMON" or self.arch == "DEFAULT") else self.arch
+        arch2 = "*" if (other.arch == "COMMON" or other.arch == "DEFAULT") else other.arch
+        return self.module_type == other.module_type and self.codebase == other.codebase and arch == arch2
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-- 
2.43.0


From 78e4dffa8158a5aba479504657a51506187ea8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 089/127] fix: PCD sections for different SKUs or default
 stores were equal

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 5f21b35..2f51ce9 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -321,7 +321,7 @@ class dsc_pcd_section_type:
 
     def __hash__(self) -> int:
         """Returns the hash of an object for hashtables."""
-        return hash((self.arch, self.pcd_type))
+        return hash((self.arch, self.pcd_type, self.sku, self.default_store))
 
     def __repr__(self) -> str:
         """A string representation of the object."""
@@ -332,7 +332,12 @@ class dsc_pcd_section_type:
         """Enables equality comparisons (a == b)."""
         if type(other) is not dsc_pcd_section_type:
             return False
-        return self.pcd_type == other.pcd_type and self.arch == other.arch
+        return (
+            self.pcd_type == other.pcd_type
+            and self.arch == other.arch
+            and self.sku == other.sku
+            and self.default_store == other.default_store
+        )
 
 
 class dsc_pcd_component_type(dsc_pcd_section_type):
-- 
2.43.0


From 08c0ec48682dfb55ef3476a9a60c03e583dad7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 090/127] fix: equal library classes had different hashes

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 2f51ce9..d454fea 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -533,7 +533,7 @@ class library_class:
         if self.libraryclass.lower() == "null":
             return hash(self.inf)
         else:
-            return hash(self.libraryclass)
+            return hash(self.libraryclass.lower())
 
     def __repr__(self) -> str:
         """A string representation of the object."""
-- 
2.43.0


From d78fa35a10f269ca6cb96b4727ba57bbf290fbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 091/127] fix: the headers of build option sections lacked a
 dot in a translated DSC

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 72b7ad3..4a17b9a 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -71,9 +71,8 @@ class DscTranslator:
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
             # Then Build Options
-            print(obj.build_options.items())
             for header, x in obj.build_options.items():
-                lines.append(f"{depth_pad}[BuildOptions{header}]")
+                lines.append(f"{depth_pad}[BuildOptions.{header}]")
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
         elif type(obj) is sku_id:
-- 
2.43.0


From d40d9941ffa17b0869fb4c11fbb9625605362c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 092/127] fix: build options that replace others were appended
 in a translated DSC

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 4a17b9a..81d7d3a 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -110,7 +110,7 @@ class DscTranslator:
         elif type(obj) is build_option:
             rep = depth_pad if obj.family is None else f"{depth_pad}{obj.family}:"
             rep += "_".join((obj.target, obj.tagname, obj.arch, obj.tool_code, obj.attribute))
-            rep += f"= {obj.data}"
+            rep += f" {'==' if obj.replace else '='} {obj.data}"
             lines.append(rep)
         else:
             logging.warning(f"UNKNOWN OBJECT {obj}")
-- 
2.43.0


From 743d36f3602ddbb5a2863dbf8bae29520690264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:32 +0000
Subject: [PATCH 093/127] fix: default stores and libraries were missing in a
 translated DSC

---
 .../uefi/edk2/build_objects/dsc_translator.py      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 81d7d3a..c837535 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -11,9 +11,11 @@ import os
 from edk2toollib.uefi.edk2.build_objects.dsc import (
     build_option,
     component,
+    default_store,
     definition,
     dsc,
     dsc_set,
+    library,
     library_class,
     pcd,
     pcd_typed,
@@ -55,6 +57,14 @@ class DscTranslator:
             for x in obj.skus:
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
+            if obj.default_stores:
+                lines.append(f"{depth_pad}[DefaultStores]")
+                lines += cls._GetDscLinesFromDscObj(obj.default_stores, depth)
+
+            for header, x in obj.libraries.items():
+                lines.append(f"{depth_pad}[Libraries{header}]")
+                lines += cls._GetDscLinesFromDscObj(x, depth)
+
             # Third, library classes
             for header, x in obj.library_classes.items():
                 lines.append(f"{depth_pad}[LibraryClasses{header}]")
@@ -77,6 +87,10 @@ class DscTranslator:
 
         elif type(obj) is sku_id:
             lines.append(f"{depth_pad}{obj.id}|{obj.name}|{obj.parent}")
+        elif type(obj) is default_store:
+            lines.append(f"{depth_pad}{obj.index}|{obj.value}")
+        elif type(obj) is library:
+            lines.append(f"{depth_pad}{obj.inf}")
         elif type(obj) is library_class:
             lines.append(f"{depth_pad}{obj.libraryclass}|{obj.inf}")
         elif type(obj) is definition:
-- 
2.43.0


From 258635c689db868839057ac9fa73b00d8faf92e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 094/127] fix: log handlers ignored records that replace others
 in filters

---
 edk2toollib/log/ansi_handler.py   | 2 ++
 edk2toollib/log/file_handler.py   | 2 ++
 edk2toollib/log/string_handler.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 93c7b3d..b5b98b1 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -297,6 +297,8 @@ class ColoredStreamHandler(logging.StreamHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):  # A filter replaced the record
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
diff --git a/edk2toollib/log/file_handler.py b/edk2toollib/log/file_handler.py
index e09d9ca..45cba38 100644
--- a/edk2toollib/log/file_handler.py
+++ b/edk2toollib/log/file_handler.py
@@ -26,6 +26,8 @@ class FileHandler(logging.FileHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):  # A filter replaced the record
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
diff --git a/edk2toollib/log/string_handler.py b/edk2toollib/log/string_handler.py
index a4f3941..983b87a 100644
--- a/edk2toollib/log/string_handler.py
+++ b/edk2toollib/log/string_handler.py
@@ -31,6 +31,8 @@ class StringStreamHandler(logging.StreamHandler):
         emission.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):  # A filter replaced the record
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
-- 
2.43.0


From 8b91c8f0068f07f2f72e7a507db42d8c32a9e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 095/127] fix: records that cannot be formatted kept the color
 of their level name

---
 edk2toollib/log/ansi_handler.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index b5b98b1..98a92e6 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -231,11 +231,11 @@ class ColoredFormatter(logging.Formatter):
             levelname_color = "##[" + ColoredFormatter.AZURE_COLORS[levelname] + "]"
             record.levelname = levelname_color
 
-        result = logging.Formatter.format(self, record)
-
-        record.levelname = levelname
-        record.msg = org_message
-        return result
+        try:
+            return logging.Formatter.format(self, record)
+        finally:
+            record.levelname = levelname
+            record.msg = org_message
 
 
 def get_ansi_string(color: AnsiColor = AnsiColor.RESET) -> str:
-- 
2.43.0


From f3712950c7e3e5b9e9d18f359139eaa0baeb6058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 096/127] fix: JUnit reports with control characters were not
 well-formed

---
 edk2toollib/log/junit_report_format.py | 34 ++++++++++++++++++--------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index 26b1a95..8225f02 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -15,18 +15,32 @@ Used to support CI/CD and exporting test results for other tools.
 This does test report generation without being a test runner.
 """
 
+import re
 import time
 from typing import IO
 from xml.sax.saxutils import escape
 
+# Characters that an XML document cannot have, not even escaped
+INVALID_XML_CHARS = re.compile("[^\t\n\r\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
+
+
+def _escape_text(text: str) -> str:
+    """Escapes text for the content of an element."""
+    return escape(INVALID_XML_CHARS.sub("\ufffd", text.strip()))
+
+
+def _escape_attribute(text: str) -> str:
+    """Escapes text for the value of an attribute."""
+    return escape(INVALID_XML_CHARS.sub("\ufffd", text.strip()), {'"': "&quot;"})
+
 
 class JunitReportError(object):
     """Object representing a Test Error."""
 
     def __init__(self, type: str, msg: str) -> "JunitReportError":
         """Init the type of error."""
-        self.Message = escape(msg.strip(), {'"': "&quot;"})
-        self.Type = escape(type.strip(), {'"': "&quot;"})
+        self.Message = _escape_attribute(msg)
+        self.Type = _escape_attribute(type)
 
 
 class JunitReportFailure(object):
@@ -34,8 +48,8 @@ class JunitReportFailure(object):
 
     def __init__(self, type: str, msg: str) -> "JunitReportFailure":
         """Init the type of Failure."""
-        self.Message = escape(msg.strip(), {'"': "&quot;"})
-        self.Type = escape(type.strip(), {'"': "&quot;"})
+        self.Message = _escape_attribute(msg)
+        self.Type = _escape_attribute(type)
 
 
 class JunitReportTestCase(object):
@@ -49,8 +63,8 @@ class JunitReportTestCase(object):
 
     def __init__(self, Name: str, ClassName: str) -> "JunitReportTestCase":
         """Init a Test case with it's name and class name."""
-        self.Name = escape(Name.strip(), {'"': "&quot;"})
-        self.ClassName = escape(ClassName.strip(), {'"': "&quot;"})
+        self.Name = _escape_attribute(Name)
+        self.ClassName = _escape_attribute(ClassName)
         self.Time = 0
         self.Status = JunitReportTestCase.NEW
 
@@ -93,11 +107,11 @@ class JunitReportTestCase(object):
 
     def LogStdOut(self, msg: str) -> None:
         """Log to the standard out."""
-        self.StdOut += escape(msg.strip()) + "\n "
+        self.StdOut += _escape_text(msg) + "\n "
 
     def LogStdError(self, msg: str) -> None:
         """Log to the standard err."""
-        self.StdErr += escape(msg.strip()) + "\n "
+        self.StdErr += _escape_text(msg) + "\n "
 
     def Output(self, outstream: IO) -> None:
         """Write the test result to the outstream."""
@@ -130,8 +144,8 @@ class JunitReportTestSuite(object):
 
     def __init__(self, Name: str, Package: str, Id: id) -> "JunitReportTestSuite":
         """Initialize a new test suite."""
-        self.Name = escape(Name.strip(), {'"': "&quot;"})
-        self.Package = escape(Package.strip(), {'"': "&quot;"})
+        self.Name = _escape_attribute(Name)
+        self.Package = _escape_attribute(Package)
         self.TestId = Id
         self.TestCases = []
 
-- 
2.43.0


From ce7d9bb8473b5fb96274e7d0b9e96d13e2ce5bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 097/127] fix: line breaks and tabs in JUnit attributes became
 spaces

---
 edk2toollib/log/junit_report_format.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index 8225f02..5a1f093 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -30,8 +30,10 @@ def _escape_text(text: str) -> str:
 
 
 def _escape_attribute(text: str) -> str:
-    """Escapes text for the value of an attribute."""
-    return escape(INVALID_XML_CHARS.sub("\ufffd", text.strip()), {'"': "&quot;"})
+    """Escapes text for the value of an attribute, where parsers would turn other whitespace into spaces."""
+    return escape(
+        INVALID_XML_CHARS.sub("\ufffd", text.strip()), {'"': "&quot;", "\n": "&#10;", "\r": "&#13;", "\t": "&#9;"}
+    )
 
 
 class JunitReportError(object):
-- 
2.43.0


From c8f483926dba7620887b5357af671ba07ffeca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 098/127] fix: names of UEFI variables were interpreted by the
 shell

---
 edk2toollib/os/uefivariablesupport.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index eb4e194..fc09d01 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -21,6 +21,7 @@ This module provides:
 
 import logging
 import os
+import shlex
 import struct
 import uuid
 from ctypes import create_string_buffer
@@ -301,7 +302,7 @@ class UefiVariable(object):
 
             # if the file exists, remove the immutable flag
             if os.path.exists(path):
-                os.system("sudo chattr -i " + path)
+                os.system("sudo chattr -i " + shlex.quote(path))
 
             with open(path, "wb") as fd:
                 # var data is attribute (UINT32) followed by data
-- 
2.43.0


From 77ddb74e21972c38b720b81ec07e05bd7727d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 099/127] fix: immutable UEFI variables could not be deleted

---
 edk2toollib/os/uefivariablesupport.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index fc09d01..1ae6cfe 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -290,6 +290,10 @@ class UefiVariable(object):
             return success
         else:
             path = "/sys/firmware/efi/efivars/" + name + "-" + str(guid)
+            # if the file exists, remove the immutable flag
+            if os.path.exists(path):
+                os.system("sudo chattr -i " + shlex.quote(path))
+
             if var is None:
                 # we are deleting the variable
                 if os.path.exists(path):
@@ -300,10 +304,6 @@ class UefiVariable(object):
             if attrs is None:
                 attrs = 0x7
 
-            # if the file exists, remove the immutable flag
-            if os.path.exists(path):
-                os.system("sudo chattr -i " + shlex.quote(path))
-
             with open(path, "wb") as fd:
                 # var data is attribute (UINT32) followed by data
                 packed = struct.pack("=I", attrs)
-- 
2.43.0


From 74d8670f53336c60f78ae9382c1bab66f657f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 100/127] fix: catalog signing split a certificate path with
 spaces

DetachedSignWithSignTool quotes the path of the certificate, CatalogSignWithSignTool passed it as it was.
---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index ff281a3..f390ea5 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -367,7 +367,7 @@ def CatalogSignWithSignTool(
     OutputDir = os.path.dirname(ToSignFilePath)
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
     # todo: link to catalog signing documentation
-    params = "sign /a /fd SHA256 /f " + PfxFilePath
+    params = 'sign /a /fd SHA256 /f "' + PfxFilePath.strip('"') + '"'
     if PfxPass is not None:
         # add password if set
         params = params + " /p " + PfxPass
-- 
2.43.0


From c299f00e5b1ed30feee2507b52da0f08add38ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 101/127] fix: catalog signing failed for files given by a
 relative path

signtool was started in the directory of the file with all paths still relative to the current directory, and a bare
file name made an empty string the working directory, so that nothing could be started at all.
---
 edk2toollib/utility_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index f390ea5..535d04b 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -360,6 +360,11 @@ def CatalogSignWithSignTool(
         logging.error("Path to signtool invalid.  %s" % SignToolPath)
         return -1
 
+    # signtool runs in the directory of the file, where relative paths would name something else
+    SignToolPath = os.path.abspath(SignToolPath)
+    ToSignFilePath = os.path.abspath(ToSignFilePath)
+    PfxFilePath = os.path.abspath(PfxFilePath.strip('"'))
+
     # Adjust for spaces in the path (when calling the command).
     if " " in SignToolPath:
         SignToolPath = '"' + SignToolPath + '"'
@@ -367,7 +372,7 @@ def CatalogSignWithSignTool(
     OutputDir = os.path.dirname(ToSignFilePath)
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
     # todo: link to catalog signing documentation
-    params = 'sign /a /fd SHA256 /f "' + PfxFilePath.strip('"') + '"'
+    params = 'sign /a /fd SHA256 /f "' + PfxFilePath + '"'
     if PfxPass is not None:
         # add password if set
         params = params + " /p " + PfxPass
-- 
2.43.0


From 3a9358f895b476947d12263aff94e95f580c9259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 102/127] fix: detached signing passed an empty output
 directory for a bare file name

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 535d04b..c11f424 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -317,7 +317,7 @@ def DetachedSignWithSignTool(
     if " " in SignToolPath:
         SignToolPath = '"' + SignToolPath + '"'
 
-    OutputDir = os.path.dirname(SignatureOutputFile)
+    OutputDir = os.path.dirname(os.path.abspath(SignatureOutputFile))
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
     # Signtool parameters from
     #   https://docs.microsoft.com/en-us/windows-hardware/manufacture/desktop/secure-boot-key-generation-and-signing-using-hsm--example  # noqa: E501
-- 
2.43.0


From ba6acb7fad5689f34efabc6691e078268c02fece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 103/127] fix: encoding a SHA256 signature warned about a
 deprecated name

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index fc1ca1d..b4285fb 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -447,7 +447,7 @@ class EfiSignatureDataEfiCertSha256(CommonUefiStructure):
     def encode(self) -> bytes:
         """Return bytes array produced by Write()."""
         with io.BytesIO() as fs:
-            self.Write(fs)
+            self.write(fs)
             return fs.getvalue()
 
     def GetBytes(self) -> bytes:
-- 
2.43.0


From 51b1e0fcb95766157c441d0cfed36fbbbd8958ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 104/127] fix: PrintByteList failed when given an output stream

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index c11f424..17553e8 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -487,7 +487,7 @@ def PrintByteList(
     **kwargs: Any,  #
 ) -> None:
     """Print a byte array as hex and optionally output ascii as well as offset within the buffer."""
-    outfs = kwargs.get("outfs", sys.stdout)
+    outfs = kwargs.pop("outfs", sys.stdout)
     kwargs["include_ascii"] = IncludeAscii
     kwargs["include_hex_sep"] = IncludeHexSep
     kwargs["include_offset"] = IncludeOffset
-- 
2.43.0


From c94253bea88631ac1b9e949cbeed954035bb59d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 105/127] fix: DSC lines with brackets in their values started
 a new section

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 93575b2..7edb1c4 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -889,7 +889,7 @@ class HashFileParser(BaseParser):
         Args:
           line (str): line representing a new section.
         """
-        if line.count("[") == 1 and line.count("]") == 1:  # new section
+        if line.strip().startswith("[") and line.count("[") == 1 and line.count("]") == 1:  # new section
             section = line.strip().lstrip("[").split(".")[0].split(",")[0].rstrip("]").strip()
             self.CurrentFullSection = line.strip().lstrip("[").split(",")[0].rstrip("]").strip()
             return (True, section)
-- 
2.43.0


From f0963607101a9568e120a37573cfc9ec3edfb833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 106/127] fix: PCDs of a component with a .inf in their value
 became libraries

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index cb1068a..4b6f59d 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -118,12 +118,12 @@ class DscParser(HashFileParser):
         # process line in x64 components
         if self.CurrentFullSection.upper() == "COMPONENTS.X64":
             if self.ParsingInBuildOption > 0:
-                if ".inf" in line_resolved.lower():
+                if self.RegisterPcds(line_resolved):
+                    self.Logger.debug("Found a Pcd in a 64bit Module Override section")
+                elif ".inf" in line_resolved.lower():
                     p = self.ParseInfPathLib(line_resolved)
                     self.Libs.append(p)
                     self.Logger.debug("Found Library in a 64bit BuildOptions Section: %s" % p)
-                elif self.RegisterPcds(line_resolved):
-                    self.Logger.debug("Found a Pcd in a 64bit Module Override section")
             else:
                 if ".inf" in line_resolved.lower():
                     p = self.ParseInfPathMod(line_resolved)
@@ -139,14 +139,14 @@ class DscParser(HashFileParser):
         # process line in ia32 components
         elif self.CurrentFullSection.upper() == "COMPONENTS.IA32":
             if self.ParsingInBuildOption > 0:
-                if ".inf" in line_resolved.lower():
+                if self.RegisterPcds(line_resolved):
+                    self.Logger.debug("Found a Pcd in a 32bit Module Override section")
+                elif ".inf" in line_resolved.lower():
                     p = self.ParseInfPathLib(line_resolved)
                     self.Libs.append(p)
                     if file_name is not None and lineno is not None:
                         self.LibsEnhanced.append({"file": os.path.normpath(file_name), "lineno": lineno, "data": p})
                     self.Logger.debug("Found Library in a 32bit BuildOptions Section: %s" % p)
-                elif self.RegisterPcds(line_resolved):
-                    self.Logger.debug("Found a Pcd in a 32bit Module Override section")
 
             else:
                 if ".inf" in line_resolved.lower():
@@ -165,12 +165,12 @@ class DscParser(HashFileParser):
         # process line in other components
         elif "COMPONENTS" in self.CurrentFullSection.upper():
             if self.ParsingInBuildOption > 0:
-                if ".inf" in line_resolved.lower():
+                if self.RegisterPcds(line_resolved):
+                    self.Logger.debug("Found a Pcd in a Module Override section")
+                elif ".inf" in line_resolved.lower():
                     p = self.ParseInfPathLib(line_resolved)
                     self.Libs.append(p)
                     self.Logger.debug("Found Library in a BuildOptions Section: %s" % p)
-                elif self.RegisterPcds(line_resolved):
-                    self.Logger.debug("Found a Pcd in a Module Override section")
 
             else:
                 if ".inf" in line_resolved.lower():
-- 
2.43.0


From 9cda17cfda62259de4bc19d3a073e72422c3dd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 107/127] fix: FDF macros with an equals sign in their value
 were lost

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index bd3aefa..c5d5b52 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -129,7 +129,7 @@ class FdfParser(HashFileParser):
                 self.LocalVars.update(self.Dict)
 
             if InDefinesSection:
-                if sline.count("=") == 1:
+                if sline.count("=") >= 1:
                     tokens = re.sub(r"^DEFINE\s+", "", sline.strip()).split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
                     # later lines of the section can already use the macro
-- 
2.43.0


From e41993bf30dd91ba50a27b9e97778db7f9dc4db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 108/127] fix: ids of structured PCDs included the brace that
 opens their fields

---
 edk2toollib/uefi/edk2/parsers/dec_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index 5ad2fcb..c82d0c6 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -153,7 +153,8 @@ class PcdDeclarationEntry:
         self.default_value = op[1].strip()
         # if we don't know what the type and id, it's because it's structured
         self.type = op[2].strip() if len(op) > 2 else "STRUCTURED_PCD"
-        self.id = op[3].strip() if len(op) > 2 else "STRUCTURED_PCD"
+        # the brace that opens the fields of a structured PCD is not part of its id
+        self.id = op[3].rstrip(" {").strip() if len(op) > 2 else "STRUCTURED_PCD"
 
 
 class DecParser(HashFileParser):
-- 
2.43.0


From 8a6eaee7ef5a76ea31a5081b44a303b955870581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 109/127] fix: malformed conditions were evaluated

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 7edb1c4..c673e1f 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -648,6 +648,8 @@ class BaseParser(object):
                 found_not = False
                 collapsed_tokens.append("NOT")
                 collapsed_tokens.append(token)
+        if found_not:
+            collapsed_tokens.append("NOT")
 
         return collapsed_tokens
 
@@ -656,7 +658,13 @@ class BaseParser(object):
         # convert infix into post fix
         stack = []
         expression = []
+        # Post fix has no place for a wrong order: operands and operators have to take turns before it is lost.
+        operand_next = True
         for token in tokens:
+            binary = cls._IsOperator(token) and token != "NOT"
+            if (binary or token == ")") == operand_next:
+                raise RuntimeError(f"Malformed conditional expression, unexpected {token} in {tokens}")
+            operand_next = binary or token in ("(", "NOT")
             # If the incoming symbol is a left parenthesis, push it on the stack.
             if token == "(":
                 stack.append(token)
@@ -694,6 +702,8 @@ class BaseParser(object):
                 stack.append(token)
             else:
                 logging.error("We don't know what to do with " + token)
+        if operand_next and len(tokens) > 0:
+            raise RuntimeError(f"Malformed conditional expression, an operand is missing in {tokens}")
         while len(stack) > 0:
             val = stack.pop()
             expression.append(val)
-- 
2.43.0


From 33c814da998d97b2a851c6f41e4d0fc09fb810a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 110/127] fix: trailing spaces of short and directory ignore
 patterns were not ignored

---
 edk2toollib/gitignore_parser.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 85a0ffa..65fba70 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -99,6 +99,11 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     # Discard comments and separators
     if pattern.strip() == "" or pattern[0] == "#":
         return
+    # trailing spaces are ignored unless they are escaped with a backslash
+    stripped = pattern.rstrip(" ")
+    if stripped != pattern and _count_trailing_symbol("\\", stripped) % 2 == 1:
+        stripped += " "
+    pattern = stripped
     # Strip leading bang before examining double asterisks
     if pattern[0] == "!":
         negation = True
@@ -134,18 +139,6 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
     # backslash in front, unescape it
     if pattern[0] == "\\" and pattern[1] in ("#", "!"):
         pattern = pattern[1:]
-    # trailing spaces are ignored unless they are escaped with a backslash
-    i = len(pattern) - 1
-    striptrailingspaces = True
-    while i > 1 and pattern[i] == " ":
-        if pattern[i - 1] == "\\":
-            pattern = pattern[: i - 1] + pattern[i:]
-            i = i - 1
-            striptrailingspaces = False
-        else:
-            if striptrailingspaces:
-                pattern = pattern[:i]
-        i = i - 1
     regex = fnmatch_pathname_to_regex(pattern, directory_only, negation, anchored=bool(anchored))
     return IgnoreRule(
         pattern=orig_pattern,
-- 
2.43.0


From 58ecf832240a0763f9fc6a4fd0edfbfba624813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 111/127] fix: backslashes did not escape characters of ignore
 patterns

---
 edk2toollib/gitignore_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index 65fba70..d1ab995 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -135,10 +135,6 @@ def rule_from_pattern(pattern: str, base_path: Optional[str] = None, source: Opt
         pattern = pattern[1:]
     if pattern[-1] == "/":
         pattern = pattern[:-1]
-    # patterns with leading hashes or exclamation marks are escaped with a
-    # backslash in front, unescape it
-    if pattern[0] == "\\" and pattern[1] in ("#", "!"):
-        pattern = pattern[1:]
     regex = fnmatch_pathname_to_regex(pattern, directory_only, negation, anchored=bool(anchored))
     return IgnoreRule(
         pattern=orig_pattern,
@@ -238,6 +234,10 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
             res.append(nonsep)
         elif c == "/":
             res.append(seps_group)
+        elif c == "\\":
+            # the next character stands for itself; a backslash that escapes nothing makes the pattern invalid
+            res.append(re.escape(pattern[i]) if i < n else "(?!)")
+            i += 1
         elif c == "[":
             j = i
             if j < n and pattern[j] == "!":
-- 
2.43.0


From 4f60d31f6c04c6dc54b028938fd60834a254e89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 112/127] fix: brackets in ignore patterns matched separators,
 literal ^ and failed for some ranges

---
 edk2toollib/gitignore_parser.py | 51 ++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index d1ab995..f390d4f 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -239,23 +239,9 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
             res.append(re.escape(pattern[i]) if i < n else "(?!)")
             i += 1
         elif c == "[":
-            j = i
-            if j < n and pattern[j] == "!":
-                j += 1
-            if j < n and pattern[j] == "]":
-                j += 1
-            while j < n and pattern[j] != "]":
-                j += 1
-            if j >= n:
-                res.append("\\[")
-            else:
-                stuff = pattern[i:j].replace("\\", "\\\\").replace("/", "")
-                i = j + 1
-                if stuff[0] == "!":
-                    stuff = "".join(["^", stuff[1:]])
-                elif stuff[0] == "^":
-                    stuff = "".join("\\" + stuff)
-                res.append("[{}]".format(stuff))
+            bracket, i = _bracket_to_regex(pattern, i)
+            # a bracket never matches a separator
+            res.append(f"(?={nonsep}){bracket}")
         else:
             res.append(re.escape(c))
     if anchored:
@@ -271,6 +257,37 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
     return "".join(res)
 
 
+def _bracket_to_regex(pattern: str, i: int) -> tuple[str, int]:
+    """Translates the bracket expression whose content starts at i.
+
+    Returns the regex and the position after the bracket. A bracket that is not closed matches nothing.
+    """
+    negation = pattern[i : i + 1] in ("!", "^")
+    if negation:
+        i += 1
+    items = []  # (first, last) of each range
+    first = True
+    while first or pattern[i : i + 1] != "]":
+        first = False
+        ends = []
+        while True:
+            if pattern[i : i + 1] == "\\":
+                i += 1
+            if i >= len(pattern):
+                return "(?!)", i
+            ends.append(pattern[i])
+            i += 1
+            if len(ends) == 2 or pattern[i : i + 1] != "-" or pattern[i + 1 : i + 2] in ("", "]"):
+                break
+            i += 1
+        items.append((ends[0], ends[-1]))
+    # ranges that are the wrong way around are empty
+    content = "".join(f"{re.escape(lo)}-{re.escape(hi)}" for lo, hi in items if lo <= hi)
+    if negation:
+        return (f"[^{content}]" if content else "."), i + 1
+    return (f"[{content}]" if content else "(?!)"), i + 1
+
+
 def _normalize_path(path: Union[str, Path]) -> Path:
     """Normalize a path without resolving symlinks.
 
-- 
2.43.0


From acae627cbd7f24341a23c696b205cdb5532c5e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:03 +0000
Subject: [PATCH 113/127] fix: ignore patterns mismatched names with newlines

---
 edk2toollib/gitignore_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/gitignore_parser.py b/edk2toollib/gitignore_parser.py
index f390d4f..ef35afc 100644
--- a/edk2toollib/gitignore_parser.py
+++ b/edk2toollib/gitignore_parser.py
@@ -193,7 +193,7 @@ class IgnoreRule(collections.namedtuple("IgnoreRule_", IGNORE_RULE_FIELDS)):
             rel_path += "/"
         if rel_path.startswith("./"):
             rel_path = rel_path[2:]
-        if re.search(self.regex, rel_path):
+        if re.search(self.regex, rel_path, re.DOTALL):
             matched = True
         return matched
 
@@ -249,11 +249,11 @@ def fnmatch_pathname_to_regex(pattern: str, directory_only: bool, negation: bool
     else:
         res.insert(0, f"(^|{seps_group})")
     if not directory_only:
-        res.append("$")
+        res.append("\\Z")
     elif directory_only and negation:
-        res.append("/$")
+        res.append("/\\Z")
     else:
-        res.append("($|\\/)")
+        res.append("(\\Z|\\/)")
     return "".join(res)
 
 
-- 
2.43.0


From 34f2fd86b3f0e6794520be327e1fa4fae9a27583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 114/127] fix: wrapped firmware volume lines of build reports
 lost modules

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index f5a9860..8e9c853 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -346,7 +346,7 @@ class BuildReport(object):
             a = rawcontents[index]
             tokens = a.split()
             if a.startswith("0x") and (len(tokens) == 3) and (a.count("(") == 1):
-                if ".inf" not in a.lower() or (a.count("(") != a.count(")")):
+                while a.count("(") != a.count(")") and index + 1 < len(rawcontents):
                     a = a + rawcontents[index + 1].strip()
                     index += 1
                     tokens = a.split()
-- 
2.43.0


From 6e1a40deb74a60af5aae76fb00aa3b19a342262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 115/127] fix: package GUIDs in GUID lists kept their lower
 case

---
 edk2toollib/uefi/edk2/guid_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/guid_list.py b/edk2toollib/uefi/edk2/guid_list.py
index 67265ff..379168f 100644
--- a/edk2toollib/uefi/edk2/guid_list.py
+++ b/edk2toollib/uefi/edk2/guid_list.py
@@ -116,7 +116,7 @@ class GuidList:
             results.append(GuidListEntry(p.name, str(p.guid).upper(), filename))
 
         try:
-            results.append(GuidListEntry(dec.Dict["PACKAGE_NAME"], dec.Dict["PACKAGE_GUID"], filename))
+            results.append(GuidListEntry(dec.Dict["PACKAGE_NAME"], dec.Dict["PACKAGE_GUID"].upper(), filename))
         except Exception:
             logging.warning("Failed to find Package Guid from dec file: " + filename)
         return results
-- 
2.43.0


From 83d00ea3fc23d197170cad9632692b14024cc19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 116/127] fix: a tab before the brace of a component became
 part of its path

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 4b6f59d..cbf230c 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -402,13 +402,13 @@ class DscParser(HashFileParser):
 
                 for scope in current_scopes:
                     # Components without a specific scope (common or empty) are added to all current scopes
-                    if os.path.isabs(line.strip(" {")):
-                        line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" {"))
+                    if os.path.isabs(line.strip(" \t{")):
+                        line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" \t{"))
                     if scope == "common":
                         for arch in self.LocalVars["SUPPORTED_ARCHITECTURES"].split("|"):
-                            self.Components.append((line.strip(" {"), arch, library_override_dict))
+                            self.Components.append((line.strip(" \t{"), arch, library_override_dict))
                     else:
-                        self.Components.append((line.strip(" {"), scope, library_override_dict))
+                        self.Components.append((line.strip(" \t{"), scope, library_override_dict))
 
         except StopIteration:
             return
-- 
2.43.0


From 492ad81cfa47abaf4bd2a6368f05c272f22ab5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 117/127] fix: spaces in SUPPORTED_ARCHITECTURES became part of
 the architectures of components

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index cbf230c..40d7a91 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -406,7 +406,7 @@ class DscParser(HashFileParser):
                         line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" \t{"))
                     if scope == "common":
                         for arch in self.LocalVars["SUPPORTED_ARCHITECTURES"].split("|"):
-                            self.Components.append((line.strip(" \t{"), arch, library_override_dict))
+                            self.Components.append((line.strip(" \t{"), arch.strip(), library_override_dict))
                     else:
                         self.Components.append((line.strip(" \t{"), scope, library_override_dict))
 
-- 
2.43.0


From 8b259c7949ff90ba28203841c0ad09a7cdcf0a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 118/127] fix: INF statements of an FDF were lost if a tab
 followed INF

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index c5d5b52..0417d96 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -156,7 +156,7 @@ class FdfParser(HashFileParser):
                     if section not in self.FVs:
                         self.FVs[section] = {"Dict": {}, "Infs": [], "Files": {}}
                     # ex: INF  MdeModulePkg/Core/RuntimeDxe/RuntimeDxe.inf
-                    if sline.upper().startswith("INF "):
+                    if re.match(r"INF\s", sline, re.IGNORECASE):
                         InfValue = sline[3:].strip()
                         self.FVs[section]["Infs"].append(InfValue)
                     # ex: FILE FREEFORM = 7E175642-F3AD-490A-9F8A-2E9FC6933DDD {
-- 
2.43.0


From 5c3e7b7c1a2afa2b00f7cba06f7c56ce441f6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 119/127] fix: INF entries such as Resources.c were taken for a
 section header

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 3fa16a2..ae67400 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -262,12 +262,12 @@ class InfParser(HashFileParser):
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
 
-            match = self.SECTION_LIBRARY.findall(line)
+            match = line.startswith("[") and self.SECTION_LIBRARY.findall(line)
             if match:
                 current_section = "LibraryClasses"
                 arch_list = match
                 continue
-            match = self.SECTION_SOURCE.findall(line)
+            match = line.startswith("[") and self.SECTION_SOURCE.findall(line)
             if match:
                 current_section = "Sources"
                 arch_list = match
-- 
2.43.0


From 2cde63473d2a2e98c8935eb7d09cf3019a3be186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 120/127] fix: spaces before a comma in INF section headers
 became part of the architecture

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index ae67400..01f4f8b 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -282,7 +282,7 @@ class InfParser(HashFileParser):
             # Handle lines when we are in a library section
             if current_section == "LibraryClasses":
                 for arch in arch_list:
-                    arch = "common" if arch == "" else arch.lower()
+                    arch = "common" if arch == "" else arch.lower().strip()
                     lib = line.partition("|")[0].split()[0].strip()
                     if arch in self.ScopedLibraryDict:
                         self.ScopedLibraryDict[arch].append(lib)
@@ -292,7 +292,7 @@ class InfParser(HashFileParser):
             # Handle lines when we are in a source section
             if current_section == "Sources":
                 for arch in arch_list:
-                    arch = "common" if arch == "" else arch.lower()
+                    arch = "common" if arch == "" else arch.lower().strip()
                     src = line.partition("|")[0].split()[0].strip()
                     if arch in self.ScopedSourceDict:
                         self.ScopedSourceDict[arch].append(src)
-- 
2.43.0


From 172711afbb39c5ecbe5225a0dc80ac5cee3f1ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 121/127] fix: INF entries with names that begin with DEFINE
 were taken for macros

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 01f4f8b..5339710 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -120,7 +120,7 @@ class InfParser(HashFileParser):
 
             sline = self.ReplaceVariables(sline)
 
-            if sline.strip().startswith("DEFINE"):
+            if re.match(r"DEFINE\s", sline.strip()):
                 tokens = sline.strip().removeprefix("DEFINE").split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
@@ -256,7 +256,7 @@ class InfParser(HashFileParser):
 
             line = self.ReplaceVariables(line)
 
-            if line.strip().startswith("DEFINE"):
+            if re.match(r"DEFINE\s", line.strip()):
                 tokens = line.strip().removeprefix("DEFINE").split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
-- 
2.43.0


From 405d7955fb180ac04d1fa5869e991567c314d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 122/127] fix: INF parsers shared the list of all phases

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 5339710..24235ef 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -140,9 +140,9 @@ class InfParser(HashFileParser):
                             self.LibraryClass = tokens[1].partition("|")[0].strip()
                             self.Logger.debug("Library class found")
                             if len(tokens[1].partition("|")[2].strip()) < 1:
-                                self.SupportedPhases = AllPhases
+                                self.SupportedPhases = list(AllPhases)
                             elif tokens[1].partition("|")[2].strip().lower() == "base":
-                                self.SupportedPhases = AllPhases
+                                self.SupportedPhases = list(AllPhases)
                             else:
                                 self.SupportedPhases = tokens[1].partition("|")[2].strip().split()
 
-- 
2.43.0


From 6df6dfa56cd20788a820c64a9197f610642f913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 123/127] fix: authenticated variables got the time of the
 import as their default time

---
 .../authenticated_variables_structure_support.py     | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index b4285fb..3c0637f 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1098,15 +1098,15 @@ class EfiTime(CommonUefiStructure):
     _struct_format = "<H6BLh2B"
     _struct_size = struct.calcsize(_struct_format)
 
-    def __init__(self, time: datetime.datetime = datetime.datetime.now(), decodefs: BinaryIO = None) -> "EfiTime":
+    def __init__(self, time: Optional[datetime.datetime] = None, decodefs: BinaryIO = None) -> "EfiTime":
         """Inits an EFI_TIME object.
 
         Args:
-            time: Inits object with specified date (if decodefs not set)
+            time: Inits object with specified date (if decodefs not set), the current date if None
             decodefs: Inits the object with this stream
         """
         if decodefs is None:
-            self.time = time
+            self.time = datetime.datetime.now() if time is None else time
         else:
             self.decode(decodefs)
 
@@ -1248,7 +1248,7 @@ class EfiVariableAuthentication2(CommonUefiStructure):
     """An object representing a EFI_VARIABLE_AUTHENTICATION_2."""
 
     def __init__(
-        self, time: datetime.datetime = datetime.datetime.now(), decodefs: BinaryIO = None
+        self, time: Optional[datetime.datetime] = None, decodefs: BinaryIO = None
     ) -> "EfiVariableAuthentication2":
         """Inits an EFI_VARIABLE_AUTHENTICATION_2 object.
 
@@ -1436,7 +1436,7 @@ class EfiVariableAuthentication2Builder(object):
         guid: str,
         attributes: Union[int, str],
         payload: Optional[Union[io.BytesIO, bytes]] = None,
-        efi_time: datetime.datetime = datetime.datetime.now(),
+        efi_time: Optional[datetime.datetime] = None,
     ) -> "EfiVariableAuthentication2Builder":
         """Builds a EfiVariableAuthentication2 structure.
 
@@ -1608,7 +1608,7 @@ class EFiVariableAuthentication2(EfiVariableAuthentication2):
     """An object representing a EFI_VARIABLE_AUTHENTICATION_2. DEPRECATED."""
 
     def __init__(
-        self, time: datetime.datetime = datetime.datetime.now(), decodefs: BinaryIO = None
+        self, time: Optional[datetime.datetime] = None, decodefs: BinaryIO = None
     ) -> "EFiVariableAuthentication2":
         """DEPRECATED. Use EfiVariableAuthentication2() instead. Initializes a EFiVariableAuthentication2."""
         warn(
-- 
2.43.0


From 8693c6897de2390354aede7ed13bcabcea722ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 124/127] fix: EfiTime.from_binary() failed when more data
 followed the structure

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 3c0637f..5f94eef 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1227,7 +1227,7 @@ class EfiTime(CommonUefiStructure):
         if len(binary_data) < cls._struct_size:
             raise ValueError("BinaryData didn't contain enough data!")
 
-        timestamp = struct.unpack(EfiTime._struct_format, binary_data)
+        timestamp = struct.unpack(EfiTime._struct_format, binary_data[: cls._struct_size])
         timestamp = datetime.datetime(*(timestamp[:6] + tuple([timestamp[7] // 1000])))
         return cls(time=timestamp)
 
-- 
2.43.0


From 7fbdc3ecda06b57968370eed1a8e79317693c558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 125/127] fix: PCDs of a DSC were only found if their token
 space is named ...TokenSpaceGuid

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 40d7a91..d8314d4 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -539,9 +539,10 @@ class DscParser(HashFileParser):
 
     def RegisterPcds(self, line: str) -> None:
         """Reads the line and registers any PCDs found."""
-        if "tokenspaceguid" in line.lower() and line.count("|") > 0 and line.count(".") > 0:
+        p = line.partition("|")
+        # TokenSpace.PcdName, or a field of a structured PCD; the name of the token space is free
+        if p[1] and re.fullmatch(r"[A-Za-z_]\w*(\.[A-Za-z_]\w*(\[[^\]]*\])*)+", p[0].strip()):
             # should be a pcd statement
-            p = line.partition("|")
             self.Pcds.append(p[0].strip())
             self.PcdValueDict[p[0].strip()] = p[2].strip()
             self.Logger.debug("Found a Pcd: %s" % p[0].strip())
-- 
2.43.0


From b42db190effe63d8a943b0ed4d807ab132a19926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 126/127] fix: a build option of a DSC component that names an
 .inf was taken for a library

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index d8314d4..04df004 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -120,7 +120,7 @@ class DscParser(HashFileParser):
             if self.ParsingInBuildOption > 0:
                 if self.RegisterPcds(line_resolved):
                     self.Logger.debug("Found a Pcd in a 64bit Module Override section")
-                elif ".inf" in line_resolved.lower():
+                elif ".inf" in line_resolved.lower() and "=" not in line_resolved.partition("|")[0]:
                     p = self.ParseInfPathLib(line_resolved)
                     self.Libs.append(p)
                     self.Logger.debug("Found Library in a 64bit BuildOptions Section: %s" % p)
@@ -141,7 +141,7 @@ class DscParser(HashFileParser):
             if self.ParsingInBuildOption > 0:
                 if self.RegisterPcds(line_resolved):
                     self.Logger.debug("Found a Pcd in a 32bit Module Override section")
-                elif ".inf" in line_resolved.lower():
+                elif ".inf" in line_resolved.lower() and "=" not in line_resolved.partition("|")[0]:
                     p = self.ParseInfPathLib(line_resolved)
                     self.Libs.append(p)
                     if file_name is not None and lineno is not None:
@@ -167,7 +167,7 @@ class DscParser(HashFileParser):
             if self.ParsingInBuildOption > 0:
                 if self.RegisterPcds(line_resolved):
                     self.Logger.debug("Found a Pcd in a Module Override section")
-                elif ".inf" in line_resolved.lower():
+                elif ".inf" in line_resolved.lower() and "=" not in line_resolved.partition("|")[0]:
                     p = self.ParseInfPathLib(line_resolved)
                     self.Libs.append(p)
                     self.Logger.debug("Found Library in a BuildOptions Section: %s" % p)
-- 
2.43.0


From d21c7de1170b65a0fb016a7e50c481cfd920d2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 127/127] fix: libraries of a component that is listed more
 than once were linked across its listings

---
 .../database/tables/instanced_inf_table.py      | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 7f5e29d..53167bb 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -138,14 +138,12 @@ class InstancedInfTable(TableGenerator):
         session.add_all(rows)
         session.flush()
 
-        # An INF has one row per component, even if it is used for several library classes
-        all_libraries = {
-            (library.path, library.arch, library.component): library
-            for library in session.query(InstancedInf).filter_by(env=env_id).all()
-        }
+        # An INF has one row per listing of a component, even if it is used for several library classes. A component
+        # can be listed more than once, with overrides of its own each time.
+        all_libraries = {(inf["LISTING"], row.path): row for row, inf in zip(rows, filtered_inf_entries)}
         # Link all instanced INF rows to their used libraries
         for row, inf in zip(rows, filtered_inf_entries):
-            libraries = [all_libraries.get((path, row.arch, row.component)) for _, path in inf["LIBRARIES_USED"]]
+            libraries = [all_libraries.get((inf["LISTING"], path)) for _, path in inf["LIBRARIES_USED"]]
             row.libraries.extend([lib for lib in libraries if lib is not None])
 
     def _build_inf_table(self, dscp: DscP) -> list:
@@ -155,7 +153,7 @@ class InstancedInfTable(TableGenerator):
         This is where we merge DSC parser information with INF parser information.
         """
         inf_entries = []
-        for inf, scope, overrides in dscp.Components:
+        for listing, (inf, scope, overrides) in enumerate(dscp.Components):
             # components section scope should only contain the arch.
             # module_type is only needed for libraryclasses section.
             if "." in scope:
@@ -187,7 +185,10 @@ class InstancedInfTable(TableGenerator):
             if "MODULE_TYPE" in infp.Dict:
                 scope += f".{infp.Dict['MODULE_TYPE']}".lower()
 
-            inf_entries += self._parse_inf_recursively(inf, None, inf, dscp.ScopedLibraryDict, overrides, scope, [])
+            entries = self._parse_inf_recursively(inf, None, inf, dscp.ScopedLibraryDict, overrides, scope, [])
+            for entry in entries:
+                entry["LISTING"] = listing
+            inf_entries += entries
 
         return inf_entries
 
-- 
2.43.0

